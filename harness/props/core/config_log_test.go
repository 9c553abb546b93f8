package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/lxdlam/vertex/pkg/common"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
)

// ---------------------------------------------------------------- C28

type cfgLine struct {
	Name string
	// Str, Int or Bool by the option's type.
	Str   gen.B
	Int   int64
	Bool  bool
	Style int
}

type cfgPlan struct {
	Lines []cfgLine
	// Files are parsed one after the other into one Config.
	Split []int
	// Prev are values the options have before.
	Prev bool
	// Extra follows the last file: tables and keys that name no option. Refusing
	// them is fine, being changed by them is not.
	Extra string `json:",omitempty"`
	// Many comment lines before each option.
	Many  int    `json:",omitempty"`
	Wrong string // a line that makes the file wrong, "" for none
	At    int
	Noise []int
}

var cfgTypes = map[string]string{"log_path": "s", "log_level": "s", "port": "i", "database_file": "s", "enable_replica": "b", "replica_port": "i", "master_address": "s"}

func (l cfgLine) text() string {
	k := l.Name
	switch l.Style & 3 {
	case 1:
		k = "\"" + k + "\""
	case 2:
		k = "'" + k + "'"
	}
	v := ""
	switch cfgTypes[l.Name] {
	case "s":
		s := string(l.Str)
		if l.Style&4 != 0 && !strings.ContainsAny(s, "'\n\r") && plain(s) {
			v = "'" + s + "'"
		} else {
			var b strings.Builder
			b.WriteByte('"')
			for _, r := range s {
				switch {
				case r == '"' || r == '\\':
					b.WriteByte('\\')
					b.WriteRune(r)
				case r < 0x20 || r == 0x7f:
					fmt.Fprintf(&b, "\\u%04x", r)
				case r > 0x7f && l.Style&8 != 0 && r < 0x10000:
					fmt.Fprintf(&b, "\\u%04X", r)
				default:
					b.WriteRune(r)
				}
			}
			b.WriteByte('"')
			v = b.String()
		}
	case "i":
		v = strconv.FormatInt(l.Int, 10)
	case "b":
		v = strconv.FormatBool(l.Bool)
	}
	eq := "="
	if l.Style&16 != 0 {
		eq = " =\t"
	} else if l.Style&32 != 0 {
		eq = " = "
	}
	if cfgTypes[l.Name] == "i" && l.Int > 0 && l.Style&8 != 0 {
		v = "+" + v
	} else if cfgTypes[l.Name] == "i" && l.Int > 999 && l.Style&4 != 0 {
		v = v[:len(v)-3] + "_" + v[len(v)-3:]
	}
	line := k + eq + v
	if l.Style&64 != 0 {
		line += " # port = 1"
	}
	if l.Style&128 != 0 {
		line = "  " + line
	}
	return line + "\n"
}

func plain(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0x7f {
			return false
		}
	}
	return true
}

var noise = []string{"", "\n", "# log_path = \"commented\"\n", "   \n", "#\n"}

func (l cfgLine) apply(c *common.Config) {
	switch l.Name {
	case "log_path":
		c.LogPath = string(l.Str)
	case "log_level":
		c.LogLevel = string(l.Str)
	case "database_file":
		c.DatabaseFile = string(l.Str)
	case "master_address":
		c.MasterAddress = string(l.Str)
	case "port":
		c.Port = int(l.Int)
	case "replica_port":
		c.ReplicaPort = int(l.Int)
	case "enable_replica":
		c.EnableReplica = l.Bool
	}
}

func scratch(name string) string {
	d := filepath.Join(h.GetEnv().Out, "scratch-"+strconv.Itoa(os.Getpid()))
	if err := os.MkdirAll(d, 0755); err != nil {
		h.Internal("%v", err)
	}
	return filepath.Join(d, name)
}

func runCfg(p cfgPlan) h.Outcome {
	c := common.NewConfig()
	def := common.Config{LogPath: "./log/vertex.log", LogLevel: "INFO", Port: 8081}
	if *c != def {
		return h.Fail("the defaults are %+v", *c)
	}
	if p.Prev {
		*c = common.Config{LogPath: "prev/log", LogLevel: "WARN", Port: 11, DatabaseFile: "prev.db", EnableReplica: true, ReplicaPort: 22, MasterAddress: "prev:1"}
	}
	want := *c
	path := scratch("conf.toml")
	defer os.Remove(path)
	var files [][]cfgLine
	rest := p.Lines
	for _, s := range p.Split {
		if s > len(rest) {
			s = len(rest)
		}
		files = append(files, rest[:s])
		rest = rest[s:]
	}
	files = append(files, rest)
	o := h.Outcome{NonTrivial: len(p.Lines) > 0 || p.Wrong != "", Steps: len(files)}
	for i, lines := range files {
		text := ""
		for j, l := range lines {
			if len(p.Noise) > 0 {
				text += noise[p.Noise[j%len(p.Noise)]%len(noise)]
			}
			text += strings.Repeat("# port = 1 and more\n", p.Many)
			text += l.text()
			l.apply(&want)
		}
		wrong := p.Wrong != "" && i == len(files)-1
		extra := p.Extra != "" && i == len(files)-1
		if extra {
			text += p.Extra
		}
		if wrong {
			text += p.Wrong + "\n"
		}
		if err := os.WriteFile(path, []byte(text), 0644); err != nil {
			h.Internal("%v", err)
		}
		err := c.Parse(path)
		if err != nil && !wrong && extra {
			o.Labels = append(o.Labels, "extra refused")
			return o
		}
		if wrong {
			if err == nil {
				return h.Fail("accepted without an error although wrong:\n%s", text)
			}
			o.Labels = append(o.Labels, "wrong")
			return o
		}
		if err != nil {
			return h.Fail("refused: %v:\n%s", err, text)
		}
		if *c != want {
			return h.Fail("got %+v, want %+v, from:\n%s", *c, want, text)
		}
	}
	return o
}

type cfgMissing struct{ Path string }

func runMissing(p cfgMissing) h.Outcome {
	c := common.NewConfig()
	d := scratch("")
	path := filepath.Join(d, p.Path)
	if p.Path == "dir" {
		path = d
	}
	if err := c.Parse(path); err == nil {
		return h.Fail("a configuration file that cannot be read was accepted")
	}
	return h.Outcome{NonTrivial: true, Steps: 1}
}

func genCfg(t *rapid.T) cfgPlan {
	names := []string{"log_path", "log_level", "port", "database_file", "enable_replica", "replica_port", "master_address"}
	perm := rapid.Permutation(names).Draw(t, "order")
	n := rapid.IntRange(0, 7).Draw(t, "n")
	p := cfgPlan{Prev: rapid.Bool().Draw(t, "prev"), Noise: rapid.SliceOfN(rapid.IntRange(0, 4), 1, 4).Draw(t, "noise")}
	for _, name := range perm[:n] {
		l := cfgLine{Name: name, Style: rapid.IntRange(0, 255).Draw(t, "style"), Bool: rapid.Bool().Draw(t, "bool")}
		switch rapid.IntRange(0, 3).Draw(t, "k") {
		case 1:
			l.Str = gen.B(strings.ToValidUTF8(string(gen.Value(t, "str")), "?"))
		case 0:
			l.Str = rapid.SampledFrom([]gen.B{"", "INFO", "WARN", "/var/log/x y.log", "C:\\path", "127.0.0.1:80", "\"", "'", "#", "a # b", "tab\there", "é日本", "[port]", "= 5"}).Draw(t, "str")
		default:
			l.Str = gen.B(strings.ToValidUTF8(rapid.StringN(0, 12, -1).Draw(t, "str"), "?"))
		}
		if strings.ContainsAny(string(l.Str), "\ufffd\u0000\ufeff") {
			l.Str = "plain"
		}
		l.Int = gen.Int(t, "int")
		p.Lines = append(p.Lines, l)
	}
	if rapid.Bool().Draw(t, "split") {
		p.Split = rapid.SliceOfN(rapid.IntRange(0, 4), 1, 2).Draw(t, "splits")
	}
	if rapid.IntRange(0, 3).Draw(t, "comments") == 0 {
		p.Many = gen.Sized(t, "many", 20000, 1, 10, 100, 500, 3000)
	}
	if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
		name := rapid.SampledFrom(names).Draw(t, "like")
		if gen.Wordy(t, "extra") {
			name = strings.Map(func(r rune) rune {
				if r == '_' || r >= 'a' && r <= 'z' {
					return r
				}
				return -1
			}, string(gen.Word(t, "extra")))
		}
		val := rapid.SampledFrom([]string{"7", "true", "\"x\"", "[1, 2]", "1.5", "\"7\""}).Draw(t, "extra-val")
		isName := cfgTypes[name] != ""
		switch k := rapid.IntRange(0, 5).Draw(t, "extra-kind"); {
		case k == 0 && !isName && name != "":
			p.Extra = name + " = " + val + "\n"
		case k == 1:
			p.Extra = "x" + name + " = " + val + "\n"
		case k == 2:
			p.Extra = "[other]\n" + rapid.SampledFrom(names).Draw(t, "inner") + " = " + val + "\n"
		case k == 3:
			p.Extra = "[other." + rapid.SampledFrom(names).Draw(t, "inner") + "]\nport = " + val + "\n"
		case k == 4:
			p.Extra = "[[other]]\nport = 1\n[[other]]\nport = " + val + "\n"
		default:
			p.Extra = "other." + rapid.SampledFrom(names).Draw(t, "inner") + " = " + val + "\n"
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "wrong") == 0 {
		// values of a wrong type for an option not named yet, and malformed text
		bad := []string{"= 5", "???", "port", "[a", "a = [1,", "x = \"abc", "x = 'abc", "x = abc", "x = 1 garbage", "]", "}", "{\"port\": 1}", "port: 80", "x = \"\\q\"", "[]", "x = 99999999999999999999", "x = truefalse", "x ="}
		used := map[string]bool{}
		for _, l := range p.Lines {
			used[l.Name] = true
		}
		for _, name := range names {
			if used[name] {
				bad = append(bad, name+" = 1\n"+name+" = 1")
				continue
			}
			switch cfgTypes[name] {
			case "s":
				bad = append(bad, name+" = 5", name+" = true", name+" = 1.5", name+" = [\"a\"]", name+" = 1979-05-27T07:32:00Z", "["+name+"]\nx = 1")
			case "i":
				bad = append(bad, name+" = \"80\"", name+" = 1.5", name+" = true", name+" = [1]", name+" = {}", name+" = \"abc\"", name+" = 99999999999999999999")
			case "b":
				bad = append(bad, name+" = 1", name+" = 0", name+" = \"true\"", name+" = []", name+" = yes")
			}
		}
		p.Wrong = rapid.SampledFrom(bad).Draw(t, "bad")
		p.Extra = "" // its tables would take the wrong line in
	}
	return p
}

func TestC28(t *testing.T) {
	h.Plan(1)
	defer os.RemoveAll(scratch(""))
	h.Check(t, "C28", h.Prop[cfgPlan]{Name: "files", Cases: 6000, Gen: genCfg, Run: runCfg,
		Rule: "configuration files naming random subsets of the options in random order and spelling (quoted keys, literal and escaped strings, comments, blank lines), loaded over defaults or earlier values, one or several files in a row, some with a wrong type or malformed text; the whole configuration compared; non-trivial when a file names an option or is wrong"})
	h.Check(t, "C28", h.Prop[cfgMissing]{Name: "missing", Cases: 1, Run: runMissing, Weight: 0.1, Rule: "paths that do not exist or are not files",
		Gen: func(t *rapid.T) cfgMissing {
			return cfgMissing{"none" + strconv.Itoa(rapid.IntRange(0, 9).Draw(t, "n"))}
		},
		Fixed: []cfgMissing{{"dir"}, {"no/such/dir/x.toml"}}})
}

// ---------------------------------------------------------------- C31

type logCall struct {
	Fn   string
	Tpl  gen.B
	Args []logArg
}

type logArg struct {
	Kind string
	S    gen.B
	I    int64
}

func (a logArg) value() interface{} {
	switch a.Kind {
	case "s":
		return string(a.S)
	case "i":
		return a.I
	case "b":
		return a.I%2 == 0
	case "e":
		return errors.New(string(a.S))
	case "n":
		return nil
	case "l":
		return []string{string(a.S), "x"}
	case "m":
		return map[string]int{"k": int(a.I)}
	}
	return struct{ A, B interface{} }{a.I, string(a.S)}
}

type logRun struct {
	Level string
	Debug bool
	Calls []logCall
	// Rep makes each call that many times.
	Rep int `json:",omitempty"`
	// Parallel runs the calls from that many goroutines at once.
	Parallel int
}

var logFns = []string{"Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf", "Panic", "Panicf"}

func (c logCall) level() string { return strings.ToUpper(strings.TrimSuffix(c.Fn, "f")) }

var levelNo = map[string]int{"DEBUG": 0, "INFO": 1, "WARN": 2, "ERROR": 3, "PANIC": 4, "FATAL": 5}

// wants gives the messages that are right for the call.
func (c logCall) wants() []string {
	if !strings.HasSuffix(c.Fn, "f") {
		return []string{string(c.Tpl)}
	}
	var a []interface{}
	for _, x := range c.Args {
		a = append(a, x.value())
	}
	if strings.HasPrefix(c.Fn, "Error") {
		return []string{fmt.Errorf(string(c.Tpl), a...).Error()}
	}
	w := []string{fmt.Sprintf(string(c.Tpl), a...)}
	if len(a) == 0 {
		w = append(w, string(c.Tpl))
	}
	return w
}

func (c logCall) do() (err error, panicked interface{}) {
	var a []interface{}
	for _, x := range c.Args {
		a = append(a, x.value())
	}
	defer func() { panicked = recover() }()
	s := string(c.Tpl)
	switch c.Fn {
	case "Debug":
		common.Debug(s)
	case "Debugf":
		common.Debugf(s, a...)
	case "Info":
		common.Info(s)
	case "Infof":
		common.Infof(s, a...)
	case "Warn":
		common.Warn(s)
	case "Warnf":
		common.Warnf(s, a...)
	case "Error":
		err = common.Error(s)
	case "Errorf":
		err = common.Errorf(s, a...)
	case "Panic":
		common.Panic(s)
	case "Panicf":
		common.Panicf(s, a...)
	}
	return err, nil
}

var logN int

func runLogging(p logRun) h.Outcome {
	logN++
	path := scratch(fmt.Sprintf("log-%d.log", logN))
	defer os.Remove(path)
	common.InitLog(common.Config{LogPath: path, LogLevel: p.Level}, p.Debug)
	o := h.Outcome{Steps: len(p.Calls), NonTrivial: len(p.Calls) > 0, Labels: []string{"level-" + p.Level}}
	if p.Rep > 1 {
		var calls []logCall
		for _, c := range p.Calls {
			for i := 0; i < p.Rep; i++ {
				calls = append(calls, c)
			}
		}
		p.Calls = calls
		o.Labels = append(o.Labels, "repeated")
	}
	min := levelNo[p.Level]
	if p.Debug {
		min = 0
		o.Labels[0] = "console"
	}
	callCheck := func(c logCall) string {
		err, pan := c.do()
		if strings.HasPrefix(c.Fn, "Error") {
			if err == nil || !oneOf(err.Error(), c.wants()) {
				return fmt.Sprintf("%s(%s) returned the error %v, want the message %s", c.Fn, h.Short(string(c.Tpl), 60), err, h.Short(c.wants()[0], 80))
			}
			if strings.HasSuffix(c.Fn, "f") {
				var a []interface{}
				for _, x := range c.Args {
					a = append(a, x.value())
				}
				if w := errors.Unwrap(fmt.Errorf(string(c.Tpl), a...)); w != nil {
					if u := errors.Unwrap(err); u == nil || u.Error() != w.Error() {
						return fmt.Sprintf("%s(%s): the error does not wrap its %%w argument", c.Fn, h.Short(string(c.Tpl), 60))
					}
				}
			}
		}
		if strings.HasPrefix(c.Fn, "Panic") != (pan != nil) {
			return fmt.Sprintf("%s(%s) at level %s: panic %v", c.Fn, h.Short(string(c.Tpl), 60), p.Level, pan)
		}
		return ""
	}
	var want []logCall
	if p.Parallel > 1 {
		var wg sync.WaitGroup
		bad := make([]string, p.Parallel)
		for g := 0; g < p.Parallel; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for _, c := range p.Calls {
					if w := callCheck(c); w != "" {
						bad[g] = w
					}
				}
			}(g)
			for _, c := range p.Calls {
				if levelNo[c.level()] >= min {
					want = append(want, c)
				}
			}
		}
		wg.Wait()
		for _, w := range bad {
			if w != "" {
				return h.Fail("%s", w)
			}
		}
		o.Labels = append(o.Labels, "parallel")
	} else {
		for _, c := range p.Calls {
			if w := callCheck(c); w != "" {
				return h.Fail("%s", w)
			}
			if levelNo[c.level()] >= min {
				want = append(want, c)
			}
		}
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return h.Fail("the log file: %v", err)
	}
	type line struct{ level, msg string }
	var got []line
	for _, l := range strings.Split(strings.TrimSuffix(string(data), "\n"), "\n") {
		if l == "" {
			continue
		}
		if p.Debug {
			// time \t LEVEL \t caller \t message
			f := strings.SplitN(l, "\t", 4)
			if len(f) != 4 {
				return h.Fail("console line %s does not hold time, level, caller and message", h.Short(l, 200))
			}
			got = append(got, line{f[1], f[3]})
			continue
		}
		var rec struct {
			Level string  `json:"level"`
			Msg   *string `json:"msg"`
		}
		dec := json.NewDecoder(bytes.NewReader([]byte(l)))
		if err := dec.Decode(&rec); err != nil || rec.Msg == nil {
			return h.Fail("log line %s is not a record: %v", h.Short(l, 200), err)
		}
		got = append(got, line{strings.ToUpper(rec.Level), *rec.Msg})
	}
	if len(got) != len(want) {
		return h.Fail("level %s, debug %v: %d records written, want %d: %s", p.Level, p.Debug, len(got), len(want), h.Short(string(data), 400))
	}
	if p.Parallel > 1 {
		var a, b []string
		for _, g := range got {
			a = append(a, g.level+" "+g.msg)
		}
		for _, c := range want {
			b = append(b, c.level()+" "+c.wants()[0])
		}
		if !sameBag(a, b) {
			return h.Fail("records written in parallel: %s, want %s", q(a), q(b))
		}
		return o
	}
	for i, c := range want {
		if got[i].level != c.level() || !oneOf(got[i].msg, c.wants()) {
			return h.Fail("%s(%s) wrote level %s message %s, want %s", c.Fn, h.Short(string(c.Tpl), 60), got[i].level, h.Short(got[i].msg, 120), h.Short(c.wants()[0], 120))
		}
	}
	return o
}

// fatalRun is a process that logs, and then logs something fatal
type fatalRun struct {
	Level string
	Debug bool
	Calls []logCall // before it
	Fatal logCall
	// Late makes the first calls before there is a log
	Late bool `json:",omitempty"`
	// Elsewhere makes the fatal call from a goroutine while others go on logging
	Elsewhere bool `json:",omitempty"`
}

const (
	envFatal    = "VERIF_FATAL"
	exitSurvive = 77
	exitBad     = 78
)

// fatalChild is what the process does; it reports through its exit code.
func fatalChild(plan string) {
	var p struct {
		Plan fatalRun
		Path string
	}
	data, err := os.ReadFile(plan)
	if err == nil {
		err = json.Unmarshal(data, &p)
	}
	if err != nil {
		panic(err)
	}
	bad := func(format string, a ...interface{}) {
		fmt.Printf(format+"\n", a...)
		os.Exit(exitBad)
	}
	if p.Plan.Late {
		for _, c := range p.Plan.Calls {
			err, pan := c.do()
			if pan != nil && !strings.HasPrefix(c.Fn, "Panic") {
				bad("without a log, %s(%s) panics: %v", c.Fn, h.Short(string(c.Tpl), 60), pan)
			}
			if strings.HasPrefix(c.Fn, "Error") && (err == nil || !oneOf(err.Error(), c.wants())) {
				bad("without a log, %s(%s) returned the error %v, want the message %s", c.Fn, h.Short(string(c.Tpl), 60), err, h.Short(c.wants()[0], 80))
			}
		}
	}
	common.InitLog(common.Config{LogPath: p.Path, LogLevel: p.Plan.Level}, p.Plan.Debug)
	for _, c := range p.Plan.Calls {
		_, _ = c.do()
	}
	f := p.Plan.Fatal
	fatal := func() {
		var a []interface{}
		for _, x := range f.Args {
			a = append(a, x.value())
		}
		if f.Fn == "Fatal" {
			common.Fatal(string(f.Tpl))
		} else {
			common.Fatalf(string(f.Tpl), a...)
		}
		os.Exit(exitSurvive)
	}
	if p.Plan.Elsewhere {
		go fatal()
		for {
			_ = common.Error("meanwhile")
			time.Sleep(10 * time.Microsecond)
		}
	}
	fatal()
}

func runFatal(p fatalRun) h.Outcome {
	logN++
	path := scratch(fmt.Sprintf("log-%d.log", logN))
	defer os.Remove(path)
	plan, err := json.Marshal(map[string]interface{}{"Plan": p, "Path": path})
	if err != nil {
		h.Internal("marshal: %v", err)
	}
	if err := os.WriteFile(path+".plan", plan, 0644); err != nil {
		h.Internal("write: %v", err)
	}
	defer os.Remove(path + ".plan")
	cmd := exec.Command(os.Args[0], "-test.run", "^TestC31$")
	cmd.Env = append(os.Environ(), envFatal+"="+path+".plan")
	var out, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &stderr
	if err := cmd.Start(); err != nil {
		h.Internal("start: %v", err)
	}
	timer := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	_ = cmd.Wait()
	if !timer.Stop() {
		return h.Fail("%s(%s): the process goes on for a minute", p.Fatal.Fn, h.Short(string(p.Fatal.Tpl), 60))
	}
	o := h.Outcome{NonTrivial: true, Steps: len(p.Calls) + 1, Labels: []string{"level-" + p.Level}}
	switch code := cmd.ProcessState.ExitCode(); {
	case code == exitBad:
		return h.Fail("%s", out.String())
	case code == exitSurvive || code == 0:
		return h.Fail("%s(%s) at level %s, debug %v: exit code %d", p.Fatal.Fn, h.Short(string(p.Fatal.Tpl), 60), p.Level, p.Debug, code)
	}
	want := p.Fatal.wants()
	if !oneOf(strings.TrimSuffix(stderr.String(), "\n"), []string{"Fatal: " + want[0], "Fatal: " + want[len(want)-1]}) {
		o.Labels = append(o.Labels, "other words on stderr")
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return h.Fail("the log file: %v", err)
	}
	n := 0
	if p.Debug {
		// the last record goes on with a stack trace
		for _, w := range want {
			if n == 0 {
				n = strings.Count(string(data), "\tFATAL\t")
				if i := strings.Index(string(data), "\tFATAL\t"); i >= 0 {
					f := strings.SplitN(string(data[i:]), "\t", 4)
					if len(f) < 4 || !strings.HasPrefix(f[3], w+"\n") {
						n = 0
					}
				}
			}
		}
	} else {
		for _, l := range strings.Split(strings.TrimSuffix(string(data), "\n"), "\n") {
			var rec struct{ Level, Msg string }
			if l == "" {
				continue
			}
			if err := json.Unmarshal([]byte(l), &rec); err != nil {
				return h.Fail("log line %s is not a record: %v", h.Short(l, 200), err)
			}
			if strings.ToUpper(rec.Level) == "FATAL" && oneOf(rec.Msg, want) {
				n++
			}
		}
	}
	if n != 1 {
		return h.Fail("%s(%s) at level %s, debug %v: the log has %d records of it: %s", p.Fatal.Fn, h.Short(string(p.Fatal.Tpl), 60), p.Level, p.Debug, n, h.Short(string(data), 400))
	}
	if p.Elsewhere {
		o.Labels = append(o.Labels, "while others log")
	}
	if p.Late {
		o.Labels = append(o.Labels, "calls without a log")
	}
	return o
}

func oneOf(s string, w []string) bool {
	for _, x := range w {
		if s == x {
			return true
		}
	}
	return false
}

func genLogRun(t *rapid.T) logRun {
	p := logRun{Level: rapid.SampledFrom([]string{"INFO", "WARN", "ERROR", "FATAL"}).Draw(t, "level"), Debug: rapid.IntRange(0, 3).Draw(t, "debug") == 0}
	if rapid.IntRange(0, 5).Draw(t, "par") == 0 {
		p.Parallel = rapid.IntRange(2, 6).Draw(t, "workers")
	}
	if rapid.IntRange(0, 7).Draw(t, "again") == 0 {
		p.Rep = gen.Sized(t, "rep", 20000, 2, 3, 20, 150, 1200)
	}
	text := func(l string) gen.B {
		s := rapid.SampledFrom([]string{"", "x", "some message", "a \"quoted\" text", "back\\slash", "{\"json\": 1}", "é日本", "key=1, err={boom}", "tab\there", "<html>&amp;", "100%", "50% of %d and %s", "%!v(MISSING)", "%%", "%w"}).Draw(t, l)
		if !p.Debug && rapid.IntRange(0, 3).Draw(t, l+"-nl") == 0 {
			s += "\nnext\r\n\x00line"
		}
		return gen.B(s)
	}
	if p.Rep == 0 && rapid.IntRange(0, 7).Draw(t, "longtext") == 0 {
		short := text
		text = func(l string) gen.B {
			if rapid.IntRange(0, 2).Draw(t, l+"-long") > 0 {
				return short(l)
			}
			x := rapid.SampledFrom([]string{"x", "long ", "é", "%%"}).Draw(t, l+"-of")
			n := gen.Sized(t, l+"-size", 100000, 100, 256, 1000, 1025, 4097, 8193, 20000, 70000)
			return gen.B(strings.Repeat(x, n/len(x)+1)) + short(l)
		}
	}
	most := 10
	if p.Rep > 20 {
		most = 2
	}
	for i, n := 0, gen.Num(t, "n", 1, most); i < n; i++ {
		c := logCall{Fn: rapid.SampledFrom(logFns).Draw(t, "fn")}
		c.Tpl = text("tpl")
		if strings.HasSuffix(c.Fn, "f") {
			for j, k := 0, rapid.IntRange(0, 3).Draw(t, "args"); j < k; j++ {
				a := logArg{Kind: rapid.SampledFrom([]string{"s", "i", "b", "e", "n", "l", "m", "x"}).Draw(t, "kind"), S: text("s"), I: rapid.Int64Range(-5, 100).Draw(t, "i")}
				c.Args = append(c.Args, a)
				verbs := []gen.B{"%v", " [%v]", "%+v", "%s", "%d", "%%%v", "%x"}
				if a.Kind == "e" && strings.HasPrefix(c.Fn, "Error") {
					verbs = append(verbs, "err={%w}", "%w")
				}
				c.Tpl += rapid.SampledFrom(verbs).Draw(t, "verb")
			}
		}
		p.Calls = append(p.Calls, c)
	}
	if p.Parallel > 1 {
		// parallel messages are compared as a bag, so they need one right form
		for i := range p.Calls {
			if len(p.Calls[i].Args) == 0 {
				p.Calls[i].Tpl = gen.B(strings.ReplaceAll(string(p.Calls[i].Tpl), "%", ""))
			}
		}
	}
	return p
}

func TestC31(t *testing.T) {
	if plan := os.Getenv(envFatal); plan != "" {
		fatalChild(plan)
	}
	h.Plan(1.5)
	defer os.RemoveAll(scratch(""))
	h.Check(t, "C31", h.Prop[logRun]{Name: "huge", Cases: 1, Weight: 0.2, Shrink: 10 * time.Second, Run: runLogging,
		Rule: "1 to 3 calls repeated until there are 2^15 or 2^16 records or a few more, or one message of up to 4 MB between others; compared like the others; all are non-trivial",
		Gen: func(t *rapid.T) logRun {
			p := genLogRun(t)
			if rapid.IntRange(0, 2).Draw(t, "long") == 0 {
				n := gen.Sized(t, "bytes", 1<<22, 1<<16, 1<<20, 1<<21)
				long := gen.B(strings.Repeat("0123456789abcde ", n/16+1)[:n])
				p.Calls = append(append(append([]logCall(nil), p.Calls[:len(p.Calls)/2]...), logCall{Fn: "Errorf", Tpl: "<%s>", Args: []logArg{{Kind: "s", S: long}}}, logCall{Fn: "Error", Tpl: long}), p.Calls[len(p.Calls)/2:]...)
				p.Rep, p.Parallel = 1, 1
				return p
			}
			p.Calls = p.Calls[:min(len(p.Calls), rapid.IntRange(1, 3).Draw(t, "calls"))]
			p.Rep, p.Parallel = min(gen.HugeSize(t), 70000)/max(1, len(p.Calls))+1, 1
			return p
		}})
	h.Check(t, "C31", h.Prop[logRun]{Name: "calls", Cases: 2500, Gen: genLogRun, Run: runLogging,
		Rule: "random sequences of calls of all the logging functions, plain and with templates and arguments of many types, at every level, as JSON and as console output, from one or several goroutines; the records of the log file, the returned errors and the panics compared; non-trivial with a call",
		Fixed: []logRun{
			{Level: "INFO", Calls: []logCall{{Fn: "Infof", Tpl: "a %s b %d", Args: []logArg{{Kind: "s", S: "x"}, {Kind: "i", I: 5}}}, {Fn: "Errorf", Tpl: "e {%w}", Args: []logArg{{Kind: "e", S: "boom"}}}, {Fn: "Panicf", Tpl: "p %v %v", Args: []logArg{{Kind: "i", I: 1}, {Kind: "n"}}}}},
		}})
	h.Check(t, "C31", h.Prop[fatalRun]{Name: "fatal", Cases: 40, Weight: 0.3, Run: runFatal,
		Rule: "processes that make random logging calls, some of them also before there is a log, and then a fatal one, at times while another goroutine logs; the process ends with an error, the log holds one record of the fatal message, and the returned errors are right without a log too; all are non-trivial",
		Gen: func(t *rapid.T) fatalRun {
			r := genLogRun(t)
			p := fatalRun{Level: r.Level, Debug: r.Debug, Late: rapid.Bool().Draw(t, "late"), Elsewhere: rapid.IntRange(0, 3).Draw(t, "elsewhere") == 0}
			p.Calls = r.Calls[:len(r.Calls)-1]
			p.Fatal = r.Calls[len(r.Calls)-1]
			if strings.HasSuffix(p.Fatal.Fn, "f") {
				p.Fatal.Fn = "Fatalf"
			} else {
				p.Fatal.Fn = "Fatal"
			}
			// %w is for errors only
			p.Fatal.Tpl = gen.B(strings.ReplaceAll(string(p.Fatal.Tpl), "%w", "%v"))
			return p
		}})
}
