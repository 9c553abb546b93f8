// Package cli checks the command line client, as a process, against a server
// played by the harness and against the real one.
package cli

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/lxdlam/vertex/pkg/db"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/inproc"
	"vertexverif/model"
	"vertexverif/resp"
)

const (
	addr     = "127.0.0.1:6789" // the client knows no other
	patience = 30 * time.Second
)

// Pdeathsig kills a child when the thread that started it ends, so one thread,
// which never ends, starts all of them.
var startQueue = func() chan func() {
	ch := make(chan func())
	go func() {
		runtime.LockOSThread()
		for f := range ch {
			f()
		}
	}()
	return ch
}()

func startCmd(c *exec.Cmd) error {
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	done := make(chan error)
	startQueue <- func() { done <- c.Start() }
	return <-done
}

func bin(name string) string {
	b := os.Getenv(name)
	if b == "" {
		h.Internal("%s is not set", name)
	}
	return b
}

// listen takes the client's port; another process may hold it for a while.
func listen() net.Listener {
	limit := time.Now().Add(60 * time.Second)
	for {
		l, err := net.Listen("tcp", addr)
		if err == nil {
			return l
		}
		if time.Now().After(limit) {
			h.Internal("%s is taken: %v", addr, err)
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// typeLines runs the client with these lines as its input and returns what it
// printed. A client that exits with a failure is reported as an error.
func typeLines(lines []string) (string, error) {
	c := exec.Command(bin("VERIF_CLIENT"))
	c.Dir = h.GetEnv().Out
	c.Env = append(os.Environ(), "TERM=dumb")
	in := ""
	for _, l := range lines {
		in += l + "\n"
	}
	c.Stdin = strings.NewReader(in)
	var out, errOut bytes.Buffer
	c.Stdout, c.Stderr = &out, &errOut
	if err := startCmd(c); err != nil {
		h.Internal("start client: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return out.String(), fmt.Errorf("the client ended with %v: %s", err, h.Short(out.String()+errOut.String(), 500))
		}
	case <-time.After(patience):
		_ = c.Process.Kill()
		<-done
		return out.String(), fmt.Errorf("the client has not ended after %v; output %q", patience, h.Short(out.String(), 500))
	}
	return out.String(), nil
}

// fake is a server of the harness: it answers request i with reply(i).
func fake(l net.Listener, reply func(i int, req resp.Value) []byte, piece int) chan []resp.Value {
	got := make(chan []resp.Value, 1)
	go func() {
		var reqs []resp.Value
		pieces := 0
		defer func() { got <- reqs }()
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		r := &resp.Reader{R: bufio.NewReader(c), MaxDepth: 16}
		for {
			_ = c.SetDeadline(time.Now().Add(patience))
			v, err := r.Read()
			if err != nil {
				if !errors.Is(err, io.EOF) {
					reqs = append(reqs, resp.Error("not a request: "+err.Error()))
				}
				return
			}
			reqs = append(reqs, v)
			b := reply(len(reqs)-1, v)
			for len(b) > 0 {
				n := len(b)
				if piece > 0 && piece < n && pieces < 30 {
					n = piece
					pieces++
				}
				if _, err := c.Write(b[:n]); err != nil {
					return
				}
				b = b[n:]
				if len(b) > 0 && piece > 0 && pieces < 30 {
					time.Sleep(200 * time.Microsecond)
				}
			}
		}
	}()
	return got
}

var promptText string

// prompt is what the client prints when nothing was typed.
func prompt(l net.Listener) string {
	if promptText != "" {
		return promptText
	}
	got := fake(l, func(int, resp.Value) []byte { return nil }, 0)
	out, err := typeLines(nil)
	<-got
	if err != nil {
		h.Internal("a session without input: %v", err)
	}
	promptText = strings.TrimRight(out, "\r\n")
	if promptText == "" {
		h.Internal("the client has no prompt, so its output cannot be taken apart")
	}
	return promptText
}

// parts takes the output apart, one part for each line typed.
func parts(out, p string, n int) ([]string, error) {
	x := strings.Split(out, p)
	if x[0] != "" || len(x) < n+1 {
		return nil, fmt.Errorf("%d lines were typed, but the output has %d answers: %q", n, len(x)-1, h.Short(out, 800))
	}
	x = x[1:]
	if len(x) > n+1 {
		return nil, fmt.Errorf("%d lines were typed, but the output has %d answers: %q", n, len(x)-1, h.Short(out, 800))
	}
	return x[:n], nil
}

// ---- what is typed is what is sent ----

type word struct {
	Text  h.Bytes
	Quote bool
	Gap   int  // spaces behind it
	Glue  bool // no space at all behind it, although more follows
}

type line struct {
	Lead  int
	Words []word
	Open  h.Bytes // not empty: a quote opens at the end, with this text after it
	Where int     // before which word the lone quote stands
}

type inputPlan struct {
	Lines []line
}

func clean(b h.Bytes, quoted bool) h.Bytes {
	s := strings.NewReplacer("\r", "", "\n", "", "\"", "").Replace(string(b))
	if !quoted {
		s = strings.Map(func(r rune) rune {
			if r == ' ' {
				return '_'
			}
			return r
		}, s)
		if s == "" {
			s = "x"
		}
	}
	return h.Bytes(s)
}

func genLine(t *rapid.T) line {
	l := line{Lead: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "lead")}
	l.Words = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) word {
		w := word{Quote: rapid.IntRange(0, 2).Draw(t, "quote") == 0, Gap: rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(t, "gap"), Glue: rapid.IntRange(0, 9).Draw(t, "glue") == 0}
		switch rapid.IntRange(0, 4).Draw(t, "text") {
		case 0:
			w.Text = rapid.SampledFrom([]h.Bytes{"get", "SET", "a", "key", "0", "-1", "*", "$3", "", " ", "  ", "a b", " a", "a ", ">", "'", "'a", "日本", "#", "--x", "\t", "a\tb", "\\", "a\\b", "\\n", "\\\\", "\\x41 ", "c:\\dir\\", "%s", "%d%", "$HOME", "`", "~", "!!", "a;b", "a|b", "a=b", "{}", "[a]",
				"à", "Ѡ", "\u00a0", "a\u00a0b", "日本\u3000語", "\u2003", "\u0085", "\v", "a\fb", "\xa0", "a\x85", "“a”", "«a»", "\ufeffget", "e\u0301", "\x00", "\x1b[A", "\x7f", "\x03", "\x04", "0x10", "1e5", "+5", "QUIT", "quit", "-"}).Draw(t, "w")
		case 1:
			w.Text = gen.Value(t, "w")
		case 2:
			if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
				w.Text = h.Bytes(strings.Repeat(rapid.SampledFrom([]string{"x", "long ", "日本", "\\"}).Draw(t, "unit"), gen.Sized(t, "times", 400000, 100, 1000, 5000, 70000)))
				break
			}
			fallthrough
		default:
			w.Text = h.Bytes(rapid.StringN(0, 10, 40).Draw(t, "w"))
		}
		w.Text = clean(w.Text, w.Quote)
		return w
	}), 0, 7).Draw(t, "words")
	if len(l.Words) > 0 && rapid.IntRange(0, 15).Draw(t, "many") == 0 {
		k := len(l.Words)
		for i, n := 0, gen.Sized(t, "nwords", 20000, 20, 64, 130, 300, 1100); i < n && len(l.Words[i%k].Text) < 1000; i++ {
			l.Words = append(l.Words, l.Words[i%k])
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "unbalanced") == 0 {
		l.Open = clean(rapid.SampledFrom([]h.Bytes{"x", " ", "a b", "  get"}).Draw(t, "open"), true)
		l.Where = rapid.IntRange(0, len(l.Words)).Draw(t, "where")
	}
	return l
}

// text is the line as typed; want are its words, and loose says for each if its
// end is glued to the next.
func (l line) text() (s string, want []string, loose bool, ok bool) {
	s = strings.Repeat(" ", l.Lead)
	ok = l.Open == ""
	words := l.Words
	if !ok {
		// everything behind a lone quote would pair up with it, so nothing
		// quoted may follow
		words = nil
		for i, w := range l.Words {
			if i < l.Where || !w.Quote {
				words = append(words, w)
			}
		}
	}
	for i, w := range words {
		if !ok && i == l.Where {
			s += "\""
		}
		if w.Quote {
			s += "\"" + string(w.Text) + "\""
		} else {
			s += string(w.Text)
		}
		want = append(want, string(w.Text))
		if i < len(words)-1 && w.Glue && (w.Quote || words[i+1].Quote) {
			loose = true
			continue
		}
		gap := max(w.Gap, 1)
		if i == len(words)-1 && gap == 1 {
			gap = 0
		}
		s += strings.Repeat(" ", gap)
	}
	if !ok && l.Where >= len(words) {
		s += " \"" + string(l.Open)
	}
	return
}

// matches compares the words sent with those of the line. Text right beside quotes
// belongs to the same word in some shells and not in others, so only its bytes count.
func (l line) matches(got []string) bool {
	_, want, loose, _ := l.text()
	if !loose {
		if len(got) != len(want) {
			return false
		}
		for i := range got {
			if got[i] != want[i] {
				return false
			}
		}
		return true
	}
	return strings.Join(got, "") == strings.Join(want, "") && len(got) <= len(want)
}

func runInputPlan(p inputPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Lines)}
	l := listen()
	defer l.Close()
	pr := prompt(l)
	var lines []string
	var sent []line
	blank := 0
	for _, x := range p.Lines {
		s, want, loose, ok := x.text()
		if t := strings.TrimSpace(s); strings.EqualFold(t, "quit") || strings.EqualFold(t, "exit") || strings.Contains(s, pr) {
			continue
		}
		lines = append(lines, s)
		if !ok {
			o.Labels = append(o.Labels, "unbalanced")
			o.NonTrivial = true
			continue
		}
		if loose {
			o.Labels = append(o.Labels, "glued quotes")
		}
		if len(want) == 0 {
			blank++
			continue
		}
		for _, w := range x.Words {
			if w.Quote && w.Text == "" {
				o.Labels = append(o.Labels, "empty argument")
			}
			if w.Quote && strings.Contains(string(w.Text), " ") {
				o.Labels = append(o.Labels, "quoted spaces")
			}
			o.NonTrivial = o.NonTrivial || w.Quote
		}
		sent = append(sent, x)
	}
	got := fake(l, func(i int, v resp.Value) []byte { return resp.Simple(fmt.Sprint("answer ", i)).Encode() }, 0)
	out, err := typeLines(lines)
	if err != nil {
		_ = l.Close()
		<-got
		return h.Fail("%v", err)
	}
	reqs := <-got
	k := 0
	for _, v := range reqs {
		if v.Kind == '*' && len(v.Arr) == 0 && blank > 0 {
			blank-- // an empty line may be sent, as an empty request
			continue
		}
		if k == len(sent) {
			return h.Fail("lines typed:\n%s\nthe server also got %s", h.Short(strings.Join(lines, "\n"), 1500), h.Short(v.String(), 800))
		}
		text, want, _, _ := sent[k].text()
		var args []string
		bad := v.Kind != '*' || v.Null
		for _, a := range v.Arr {
			bad = bad || (a.Kind != '$' && a.Kind != '+') || a.Null
			args = append(args, a.Str)
		}
		if bad || !sent[k].matches(args) {
			return h.Fail("the line %s has the words %s, but %s was sent", h.Short(strconv.Quote(text), 800), h.Short(fmt.Sprintf("%q", want), 800), h.Short(v.String(), 800))
		}
		k++
	}
	if k < len(sent) {
		text, _, _, _ := sent[k].text()
		return h.Fail("the line %s was not sent", h.Short(strconv.Quote(text), 800))
	}
	if _, err := parts(out, pr, len(lines)); err != nil {
		return h.Fail("%v", err)
	}
	for i := range reqs {
		if !strings.Contains(out, fmt.Sprint("answer ", i)) {
			return h.Fail("the answer to request %d is not shown: %q", i, h.Short(out, 500))
		}
	}
	return o
}

// ---- what came back is shown ----

type reply struct {
	Kind string
	Str  h.Bytes
	Int  int64
	Sub  []reply
}

func (r reply) value() resp.Value {
	switch r.Kind {
	case "+":
		return resp.Simple(string(r.Str))
	case "-":
		return resp.Error(string(r.Str))
	case ":":
		return resp.Int(r.Int)
	case "$":
		return resp.Bulk(string(r.Str))
	case "$-":
		return resp.NullBulk()
	case "*-":
		return resp.NullArray()
	}
	v := resp.Value{Kind: '*'}
	for _, x := range r.Sub {
		v.Arr = append(v.Arr, x.value())
	}
	return v
}

func genReply(t *rapid.T, depth int) reply {
	k := rapid.SampledFrom([]string{"+", "-", ":", "$", "$", "$-", "*-", "*", "*"}).Draw(t, "kind")
	if depth <= 0 && k == "*" {
		k = "$"
	}
	r := reply{Kind: k}
	switch k {
	case "+", "-":
		r.Str = h.Bytes(strings.NewReplacer("\r", "", "\n", "").Replace(string(replyText(t))))
	case ":":
		r.Int = gen.Int(t, "i")
	case "$":
		r.Str = replyText(t)
	case "*":
		n := rapid.IntRange(0, 5).Draw(t, "n")
		if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
			n = gen.Sized(t, "n2", 5000, 11, 30, 101, 101, 260, 1100)
			for i := 0; i < n; i++ {
				r.Sub = append(r.Sub, reply{Kind: "$", Str: h.Bytes(fmt.Sprint("item", i))})
			}
			return r
		}
		for i := 0; i < n; i++ {
			r.Sub = append(r.Sub, genReply(t, depth-1))
		}
	}
	return r
}

func replyText(t *rapid.T) h.Bytes {
	switch rapid.IntRange(0, 3).Draw(t, "text") {
	case 0:
		return rapid.SampledFrom([]h.Bytes{"", "OK", "(nil)", "nil", "1", "(integer) 1", "(empty list or set)", "Server error: x", "ERR no such key", "%d %s%!", "100%", "1) a", "x", "-1", "<nil>", "false", "null"}).Draw(t, "s")
	case 1:
		return gen.Value(t, "s")
	}
	return h.Bytes(rapid.StringN(0, 12, 50).Draw(t, "s"))
}

type outputPlan struct {
	Replies []reply
	Piece   int
}

// leaves lists the texts that must be seen, in order.
func leaves(v resp.Value, out []string) []string {
	switch {
	case v.Null:
		return out
	case v.Kind == '*':
		for _, x := range v.Arr {
			out = leaves(x, out)
		}
		return out
	case v.Kind == ':':
		return append(out, strconv.FormatInt(v.Int, 10))
	}
	return append(out, v.Str)
}

// plain values have renderings that must differ when the values do.
func plain(v resp.Value, depth int) bool {
	if v.Kind == '*' {
		if depth > 0 && !v.Null {
			return false
		}
		for _, x := range v.Arr {
			if !plain(x, depth+1) || x.Kind != ':' && strings.ContainsAny(x.Str, "\"\r\n()") {
				return false
			}
		}
	}
	return true
}

// same says if two values may look the same.
func same(a, b resp.Value) bool {
	kind := func(v resp.Value) string {
		switch {
		case v.Kind == '*' && len(v.Arr) == 0: // null and empty arrays
			return "*0"
		case v.Null:
			return "$-"
		case v.Kind == '+':
			return "$"
		}
		return string(v.Kind)
	}
	if kind(a) != kind(b) || a.Str != b.Str || a.Int != b.Int || len(a.Arr) != len(b.Arr) {
		return false
	}
	for i := range a.Arr {
		if !same(a.Arr[i], b.Arr[i]) {
			return false
		}
	}
	return true
}

func runOutputPlan(p outputPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Replies), NonTrivial: len(p.Replies) > 1}
	l := listen()
	defer l.Close()
	pr := prompt(l)
	var vals []resp.Value
	var lines []string
	for i, r := range p.Replies {
		v := r.value()
		if bytes.Contains(v.Encode(), []byte(pr)) {
			continue
		}
		vals = append(vals, v)
		lines = append(lines, fmt.Sprint("get key", i))
		o.Labels = append(o.Labels, r.Kind)
	}
	got := fake(l, func(i int, v resp.Value) []byte {
		if i >= len(vals) {
			return resp.Error("too many").Encode()
		}
		return vals[i].Encode()
	}, p.Piece)
	out, err := typeLines(lines)
	if err != nil {
		_ = l.Close()
		<-got
		return h.Fail("the replies are %v: %v", vals, err)
	}
	if reqs := <-got; len(reqs) != len(vals) {
		return h.Fail("%d lines were typed, %d requests were sent", len(vals), len(reqs))
	}
	shown, err := parts(out, pr, len(vals))
	if err != nil {
		return h.Fail("%v", err)
	}
	for i, v := range vals {
		rest := shown[i]
		if strings.TrimSpace(rest) == "" {
			return h.Fail("the reply %s is shown as nothing", v)
		}
		for _, x := range leaves(v, nil) {
			at := strings.Index(rest, x)
			if at < 0 {
				x = strings.Trim(strconv.Quote(x), "\"")
				at = strings.Index(rest, x)
			}
			if at < 0 {
				return h.Fail("the reply %s is shown as %q, where %q is missing or out of place", v, shown[i], x)
			}
			rest = rest[at+len(x):]
		}
		for j := 0; j < i; j++ {
			if !plain(v, 0) || !plain(vals[j], 0) {
				continue
			}
			if same(v, vals[j]) {
				if v.Equal(vals[j]) && shown[i] != shown[j] {
					return h.Fail("the reply %s is shown as %q, and another time as %q", v, shown[j], shown[i])
				}
			} else if shown[i] == shown[j] {
				return h.Fail("the replies %s and %s are both shown as %q", vals[j], v, shown[i])
			}
		}
	}
	return o
}

// ---- the real client with the real server ----

type wholePlan struct {
	Runs []wholeRun
}

type wholeRun struct {
	Cmds []gen.Cmd
	Sig  int
}

func quote(args []string) string {
	var out []string
	for i, a := range args {
		if a == "" || strings.Contains(a, " ") || i > 0 && len(a)%3 == 0 {
			a = "\"" + a + "\""
		}
		out = append(out, a)
	}
	return strings.Join(out, " ")
}

func genWholePlan(t *rapid.T) wholePlan {
	o := gen.Opt{Keys: []gen.B{"a", "b", "c d"}, Value: func(t *rapid.T, l string) gen.B {
		return clean(rapid.SampledFrom([]gen.B{"a", "b", "x y", "", "5", "-3", "日本", "9223372036854775807", " lead", "%s", "'"}).Draw(t, l), true)
	}}
	o = o.Swarm(t)
	f := func(t *rapid.T) gen.Cmd {
		for {
			c := o.AnyCmd(t)
			switch strings.ToLower(string(c[0])) {
			case "spop", "srandmember", "smembers", "hkeys", "hvals", "hgetall", "sdiff", "sinter", "sunion":
				// in no particular order
				c = gen.Cmd{"scard", c[1]}
			}
			for i := range c {
				c[i] = clean(c[i], true)
			}
			return c
		}
	}
	return wholePlan{Runs: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) wholeRun {
		return wholeRun{Cmds: gen.Seq(t, f, 1, 30), Sig: rapid.IntRange(0, 1).Draw(t, "sig")}
	}), 1, 3).Draw(t, "runs")}
}

func portsFree() bool {
	for _, p := range []string{":6789", ":9999"} {
		l, err := net.Listen("tcp", p)
		if err != nil {
			return false
		}
		_ = l.Close()
	}
	return true
}

func waitPorts() {
	limit := time.Now().Add(60 * time.Second)
	for !portsFree() {
		if time.Now().After(limit) {
			h.Internal("ports 6789 and 9999 are taken")
		}
		time.Sleep(50 * time.Millisecond)
	}
}

var serial int

func runWholePlan(p wholePlan) h.Outcome {
	o := h.Outcome{}
	serial++
	dir := filepath.Join(h.GetEnv().Out, fmt.Sprintf("srv-%d-%d", os.Getpid(), serial))
	if err := os.MkdirAll(dir, 0755); err != nil {
		h.Internal("%v", err)
	}
	defer func() {
		if strings.HasPrefix(dir, h.GetEnv().Out+"/srv-") {
			_ = os.RemoveAll(dir)
		}
	}()
	d := db.NewDB(1)
	keys := []string{"a", "b", "c d"}
	for n, run := range p.Runs {
		o.Steps += len(run.Cmds)
		err := func() error {
			waitPorts()
			c := exec.Command(bin("VERIF_SERVER"))
			c.Dir = dir
			var out bytes.Buffer
			c.Stdout, c.Stderr = &out, &out
			if err := startCmd(c); err != nil {
				h.Internal("start server: %v", err)
			}
			exited := make(chan error, 1)
			go func() { exited <- c.Wait() }()
			ended := false
			defer func() {
				if !ended {
					_ = c.Process.Kill()
					<-exited
				}
			}()
			limit := time.Now().Add(patience)
			for {
				x, err := net.Dial("tcp", addr)
				if err == nil {
					_ = x.Close()
					break
				}
				select {
				case e := <-exited:
					ended = true
					return fmt.Errorf("the server ended at once: %v: %s", e, h.Short(out.String(), 600))
				default:
				}
				if time.Now().After(limit) {
					return fmt.Errorf("the server does not listen after %v", patience)
				}
				time.Sleep(2 * time.Millisecond)
			}
			var lines []string
			var want []resp.Value
			add := func(args []string) error {
				v, err := inproc.Exec(d, args)
				if err != nil {
					return err
				}
				lines = append(lines, quote(args))
				want = append(want, v)
				return nil
			}
			// first what an earlier run left, at the end what this run leaves
			look := func() error {
				for _, k := range keys {
					for _, cmd := range [][]string{{"get", k}, {"lrange", k, "0", "-1"}, {"hlen", k}, {"scard", k}, {"hmget", k, "a", "b", "x y", ""}} {
						if err := add(cmd); err != nil {
							return err
						}
					}
				}
				return nil
			}
			if err := look(); err != nil {
				return err
			}
			for _, cmd := range run.Cmds {
				if err := add(cmd.Args()); err != nil {
					return err
				}
			}
			if err := look(); err != nil {
				return err
			}
			text, err := typeLines(lines)
			if err != nil {
				return err
			}
			pr := promptText
			shown, err := parts(text, pr, len(lines))
			if err != nil {
				return err
			}
			for i, v := range want {
				rest := shown[i]
				bad := strings.TrimSpace(rest) == ""
				for _, x := range leaves(v, nil) {
					switch v.Str {
					case model.ENoCmd, model.EArg, model.ENoKey, model.EInt, model.ERange:
					default:
						if v.IsErr() { // an error without a documented text
							x = "ERR"
						}
					}
					at := strings.Index(rest, x)
					if at < 0 {
						bad = true
						break
					}
					rest = rest[at+len(x):]
				}
				if bad {
					return fmt.Errorf("line %q: the reply is %s, but this is shown: %q", lines[i], v, shown[i])
				}
				for j := 0; j < i; j++ {
					if plain(v, 0) && plain(want[j], 0) && !same(v, want[j]) && shown[i] == shown[j] && !v.IsErr() && !want[j].IsErr() {
						return fmt.Errorf("lines %q and %q have the replies %s and %s, but both are shown as %q", lines[j], lines[i], want[j], v, shown[i])
					}
				}
			}
			s := syscall.SIGTERM
			if run.Sig == 1 {
				s = syscall.SIGINT
			}
			_ = c.Process.Signal(s)
			select {
			case err := <-exited:
				ended = true
				if err != nil {
					return fmt.Errorf("the server ended with %v after %v: %s", err, s, h.Short(out.String(), 600))
				}
			case <-time.After(patience):
				return fmt.Errorf("the server has not ended %v after %v", patience, s)
			}
			return nil
		}()
		if err != nil {
			return h.Fail("run %d of the server: %v", n, err)
		}
	}
	o.NonTrivial = o.Steps > 1
	return o
}

func TestC27(t *testing.T) {
	h.Plan(3)
	l := listen()
	prompt(l)
	_ = l.Close()
	h.Check(t, "C27", h.Prop[inputPlan]{
		Name:  "typed",
		Rule:  "1 to 12 lines of words, quoted or not, with any gaps, some with an unbalanced quote, typed into the client process whose server is played by the harness: exactly the words of each line arrive, refused lines do not; non-trivial when something is quoted",
		Cases: 2500, Weight: 1.2, Run: runInputPlan,
		Gen: func(t *rapid.T) inputPlan {
			return inputPlan{Lines: rapid.SliceOfN(rapid.Custom(genLine), rapid.SampledFrom([]int{1, 5}).Draw(t, "min"), 12).Draw(t, "lines")}
		},
		Fixed: []inputPlan{{Lines: []line{
			{Words: []word{{Text: "set"}, {Text: "a"}, {Text: "", Quote: true}}}, {Words: []word{{Text: "set"}, {Text: "a b", Quote: true}, {Text: " ", Quote: true}}},
			{Words: []word{{Text: "get"}, {Text: "a"}}, Open: "x", Where: 2}, {Words: []word{{Text: "get"}}, Lead: 2}, {}, {Lead: 2}, {Words: []word{{Text: "a", Glue: true}, {Text: "b c", Quote: true, Glue: true}, {Text: "d"}}},
			{Words: []word{{Text: "get", Quote: true}, {Text: "x"}}, Open: "x", Where: 1}}}},
	})
	h.Check(t, "C27", h.Prop[outputPlan]{
		Name:  "shown",
		Rule:  "1 to 20 replies of every kind, nested arrays and awkward texts included, sent whole or in pieces to the client process: each is shown with all its texts and numbers in order, and different plain values look different; non-trivial with at least two replies",
		Cases: 2500, Weight: 1, Run: runOutputPlan,
		Gen: func(t *rapid.T) outputPlan {
			return outputPlan{Replies: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) reply { return genReply(t, 3) }), rapid.SampledFrom([]int{1, 8}).Draw(t, "min"), 20).Draw(t, "replies"), Piece: rapid.SampledFrom([]int{0, 0, 0, 1, 7}).Draw(t, "piece")}
		},
		Fixed: []outputPlan{{Replies: []reply{{Kind: "$-"}, {Kind: "$", Str: "(nil)"}, {Kind: "$"}, {Kind: "*"}, {Kind: "*-"}, {Kind: ":", Int: 1}, {Kind: "$", Str: "1"}, {Kind: "$", Str: "(integer) 1"}, {Kind: "-", Str: "1"}, {Kind: "$", Str: "ERR"}, {Kind: "-", Str: "ERR"}, {Kind: "+", Str: "OK"}, {Kind: "-", Str: "OK"},
			{Kind: "*", Sub: []reply{{Kind: "$-"}, {Kind: ":", Int: 3}, {Kind: "$", Str: "3"}}}, {Kind: "*", Sub: []reply{{Kind: "$"}, {Kind: ":", Int: 3}, {Kind: ":", Int: 3}}}}}},
	})
	h.Check(t, "C27", h.Prop[wholePlan]{
		Name:  "whole",
		Rule:  "1 to 3 runs of the real server, each with up to 30 commands typed into the real client and a look at everything before and after; what is shown is the reply of an in-process execution; non-trivial with at least two commands",
		Cases: 60, Weight: 0.8, Gen: genWholePlan, Run: runWholePlan,
	})
}
