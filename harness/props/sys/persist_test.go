package sys

import (
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/lxdlam/vertex/pkg/db"
	vlog "github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/inproc"
	"vertexverif/model"
	"vertexverif/resp"
)

const dbName = "database.vpf"

// again marks a signal that is sent twice, as impatient people do.
const again = syscall.Signal(1 << 8)

// sig is a way to shut the server down: by signals, or by a call of Stop (which SIGUSR1 makes vserver do).
func sig(i int) syscall.Signal {
	return []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGTERM | again, syscall.SIGINT | again, syscall.SIGUSR1, syscall.SIGUSR1 | again}[i%6]
}

// collect adds the possible keys of a command.
func collect(used map[string]bool, args []string) {
	for _, a := range args[min(1, len(args)):] {
		if len(a) < 64 && len(used) < 40 {
			used[a] = true
		}
	}
}

// ---- C10: clean restarts ----

type segment struct {
	Cmds  []gen.Cmd
	Sig   int
	Conns int
	Idle  int  // connections that are open, and say nothing, when the server is stopped
	Half  bool // one of them has sent half a request
	Pipe  bool // the commands are sent in one go
	// the server is told of a master that has nothing for it: 1 nobody listens
	// there, 2 it closes at once, 3 resets, 4 sends an empty transfer, 5 and 6 one
	// that ends early, in the length or the data
	Master int `json:",omitempty"`
}

// deadMaster gives the address of such a master, and ends it.
func deadMaster(kind int) (string, func()) {
	if kind == 0 {
		return "", func() {}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		h.Internal("listen: %v", err)
	}
	if kind == 1 {
		_ = l.Close()
		return l.Addr().String(), func() {}
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			switch kind {
			case 3:
				_ = c.(*net.TCPConn).SetLinger(0)
			case 4:
				_, _ = c.Write([]byte{0, 0, 0, 0})
			case 5:
				_, _ = c.Write([]byte{40, 0, 0})
			case 6:
				_, _ = c.Write([]byte{40, 0, 0, 0, 30, 0, 0, 0, 10, 3, 's', 'e', 't', 16, 1})
			}
			_ = c.Close()
		}
	}()
	return l.Addr().String(), func() { _ = l.Close() }
}

// thrice repeats each command twice.
func thrice(cmds []gen.Cmd) (out []gen.Cmd) {
	for _, c := range cmds {
		out = append(out, c, c, c)
	}
	return
}

type restartPlan struct {
	Log, Replica bool
	Segs         []segment
}

func genRestartPlan(t *rapid.T) restartPlan {
	o := gen.Opt{Keys: gen.Keys, EmptyKey: true}
	if rapid.IntRange(0, 3).Draw(t, "alike") == 0 {
		pool := gen.Pool(t)
		o = gen.Opt{Keys: pool, Value: gen.Of(pool)}
	}
	seg := rapid.Custom(func(t *rapid.T) segment {
		o := o.Swarm(t)
		f := func(t *rapid.T) gen.Cmd {
			c := o.AnyCmd(t)
			if rapid.IntRange(0, 11).Draw(t, "bad") == 0 {
				c = o.Malformed(t, c)
			}
			return c
		}
		return segment{
			Cmds: gen.Bursts(t, f, 0, 60), Sig: rapid.SampledFrom([]int{0, 1, 0, 1, 2, 3, 4, 5}).Draw(t, "sig"), Conns: rapid.IntRange(1, 2).Draw(t, "conns"),
			Idle: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "idle"), Half: rapid.IntRange(0, 3).Draw(t, "half") == 0,
			Master: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6}).Draw(t, "master"),
		}
	})
	return restartPlan{Log: rapid.IntRange(0, 3).Draw(t, "log") == 0, Replica: rapid.IntRange(0, 3).Draw(t, "replica") == 0,
		Segs: rapid.SliceOfN(seg, 1, 4).Draw(t, "segs")}
}

func runRestartPlan(p restartPlan) h.Outcome {
	o := h.Outcome{}
	dir := newDir()
	defer removeDir(dir)
	m := model.New()
	used := map[string]bool{"a": true, "": true, "anonymous": true, "global": true}
	session := func(n int, seg segment) error {
		master, end := deadMaster(seg.Master)
		defer end()
		s, err := start(opts{dir: dir, db: dbName, log: p.Log, replica: p.Replica, master: master})
		if err != nil {
			return err
		}
		defer s.end()
		conns := make([]*client, max(seg.Conns, 1))
		for i := range conns {
			if conns[i], err = s.dial(); err != nil {
				return err
			}
			defer conns[i].close()
		}
		if err := conns[0].dump(m, sortedKeys(used)); err != nil {
			return fmt.Errorf("read back after the start: %w", err)
		}
		for i, c := range seg.Cmds {
			args := c.Args()
			collect(used, args)
			if err := conns[i%len(conns)].step(m, args); err != nil {
				return fmt.Errorf("command %d: %w", i, err)
			}
		}
		for i := 0; i < seg.Idle; i++ {
			c, err := s.dial()
			if err != nil {
				return err
			}
			defer c.close()
			if i == 0 && seg.Half {
				if err := c.send([]byte("*3\r\n$3\r\nset\r\n$1\r\na\r\n$5\r\nhal")); err != nil {
					return err
				}
			}
		}
		if n%2 == 0 {
			if err := conns[0].dump(m, sortedKeys(used)); err != nil {
				return fmt.Errorf("read back before the shutdown: %w", err)
			}
		}
		return s.stop(sig(seg.Sig))
	}
	for i, seg := range append(append([]segment(nil), p.Segs...), segment{}, segment{Sig: 1, Master: len(p.Segs) % 3}) {
		o.Steps += len(seg.Cmds)
		if err := session(i, seg); err != nil {
			return h.Fail("run %d of the server on the same database file: %v", i, err)
		}
	}
	for _, k := range sortedKeys(used) {
		n := 0
		if _, ok := m.Str[k]; ok {
			n++
			o.Labels = append(o.Labels, "string")
		}
		if len(m.List[k]) > 0 {
			n++
			o.Labels = append(o.Labels, "list")
		}
		if len(m.Hash[k]) > 0 {
			n++
			o.Labels = append(o.Labels, "hash")
		}
		if len(m.Set[k]) > 0 {
			n++
			o.Labels = append(o.Labels, "set")
		}
		if n > 1 {
			o.Labels = append(o.Labels, "several types under one name")
		}
	}
	o.NonTrivial = m.Fingerprint() != ""
	return o
}

type oddRestartPlan struct {
	Reqs []node
	Sig  int
}

func strs(n node, used map[string]bool) {
	if len(n.Str) < 64 && len(used) < 40 {
		used[string(n.Str)] = true
	}
	for _, x := range n.Sub {
		strs(x, used)
	}
}

func runOddRestartPlan(p oddRestartPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Reqs)}
	dir := newDir()
	defer removeDir(dir)
	used := map[string]bool{"a": true, "": true, "b": true}
	before := ""
	for run := 0; run < 3; run++ {
		err := func() error {
			s, err := start(opts{dir: dir, db: dbName})
			if err != nil {
				return err
			}
			defer s.end()
			c, err := s.dial()
			if err != nil {
				return err
			}
			defer c.close()
			if run == 0 {
				for i, n := range p.Reqs {
					strs(n, used)
					if err := c.send(n.value().Encode()); err != nil {
						return err
					}
					if _, err := c.recv(); err != nil {
						return fmt.Errorf("request %d, %s: %w", i, n.value(), err)
					}
				}
			}
			st, err := c.state(sortedKeys(used))
			if err != nil {
				return err
			}
			now := st.Fingerprint()
			if run > 0 && now != before {
				return fmt.Errorf("the data is\n%s\nbut before the restart it was\n%s", h.Short(now, 1500), h.Short(before, 1500))
			}
			before = now
			return s.stop(sig(p.Sig + run))
		}()
		if err != nil {
			return h.Fail("run %d of the server on the same database file: %v", run, err)
		}
	}
	o.NonTrivial = before != ""
	return o
}

// bulky restarts: many and large records, pipelined
type bulkyPlan struct {
	Sizes []int
	Rep   int
	Sig   int
}

func runBulkyPlan(p bulkyPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true}
	dir := newDir()
	defer removeDir(dir)
	m := model.New()
	keys := []string{"log", "val", "n", "h", "s", "last"}
	for run := 0; run < 3; run++ {
		err := func() error {
			s, err := start(opts{dir: dir, db: dbName})
			if err != nil {
				return err
			}
			defer s.end()
			c, err := s.dial()
			if err != nil {
				return err
			}
			defer c.close()
			if err := c.dump(m, keys); err != nil {
				return fmt.Errorf("read back after the start: %s", h.Short(err.Error(), 1500))
			}
			if run == 2 {
				return s.stop(sig(p.Sig))
			}
			for r := 0; r < p.Rep; r++ {
				var cmds [][]string
				var buf []byte
				for i, n := range p.Sizes {
					x := strings.Repeat(string(rune('a'+i%26)), n)
					tag := fmt.Sprintf("%d.%d.%d", run, r, i)
					for _, cmd := range [][]string{{"rpush", "log", tag}, {"set", "val", x}, {"hset", "h", tag, x[:n/2]}, {"incr", "n"}, {"sadd", "s", tag}, {"set", "last", tag}} {
						if cmd[0] == "incr" && m.Str["n"] == "" {
							cmd = []string{"set", "n", "1"}
							m.Str["n"] = "pending"
						}
						cmds = append(cmds, cmd)
						buf = append(buf, resp.Bulks(cmd).Encode()...)
					}
				}
				o.Steps += len(cmds)
				if m.Str["n"] == "pending" {
					delete(m.Str, "n")
				}
				errc := make(chan error, 1)
				go func() { errc <- c.send(buf) }()
				for _, cmd := range cmds {
					v, err := c.recv()
					if err != nil {
						return fmt.Errorf("%s: %w", h.Short(model.Cmd(cmd), 200), err)
					}
					if err := m.Step(cmd, v); err != nil {
						return fmt.Errorf("%s", h.Short(err.Error(), 500))
					}
				}
				if err := <-errc; err != nil {
					return err
				}
			}
			return s.stop(sig(p.Sig + run))
		}()
		if err != nil {
			return h.Fail("run %d of the server on the same database file: %v", run, err)
		}
	}
	return o
}

// agedPlan: servers that live for a while, with quiet times
type agedPlan struct{ Lives []life }

type life struct {
	Setup  setup
	Sig    int
	Phases []phase
}

type phase struct {
	Ms   int // quiet time before it
	New  bool
	Cmds []gen.Cmd
	// for C14: as many replicas are started after the commands
	Attach int `json:",omitempty"`
}

func genAgedPlan(t *rapid.T) agedPlan { return genLives(t, false) }

func genLives(t *rapid.T, replicas bool) agedPlan {
	return agedPlan{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) life {
		o := gen.Opt{Keys: gen.FewKeys, InRangeTrim: true}.Swarm(t)
		l := life{Setup: genSetup(t), Sig: rapid.SampledFrom([]int{0, 1, 0, 1, 2, 3, 4, 5}).Draw(t, "sig")}
		l.Setup.Replica = l.Setup.Replica || replicas
		left := 40000
		for i := 0; i < 9; i++ {
			p := phase{Ms: rapid.SampledFrom([]int{100, 600, 1200, 2500, 5200, 10500, 15500, 20500, 31000}).Draw(t, "ms"), New: rapid.IntRange(0, 2).Draw(t, "new") == 0, Cmds: gen.Bursts(t, o.AnyCmd, 1, 12)}
			if len(p.Cmds) > 200 {
				p.Cmds = p.Cmds[:200]
			}
			if p.Ms > left {
				break
			}
			left -= p.Ms
			if replicas {
				p.Attach = rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "attach")
			}
			l.Phases = append(l.Phases, p)
		}
		return l
	}), 3, 6).Draw(t, "lives")}
}

func runAgedPlan(p agedPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true}
	errs := make([]error, len(p.Lives))
	var wg sync.WaitGroup
	for i, l := range p.Lives {
		for _, ph := range l.Phases {
			o.Steps += len(ph.Cmds)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := runLife(l); err != nil {
				errs[i] = fmt.Errorf("server %d: %w", i, err)
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return h.Fail("%v", err)
		}
	}
	return o
}

func runLife(l life) error {
	dir := newDir()
	defer removeDir(dir)
	m := model.New()
	used := map[string]bool{"a": true, "": true, "anonymous": true}
	so := opts{dir: dir, db: dbName, log: l.Setup.Log, replica: l.Setup.Replica}
	s, err := start(so)
	if err != nil {
		return err
	}
	defer s.end()
	idle, err := s.dial() // says nothing until the end
	if err != nil {
		return err
	}
	defer idle.close()
	c, err := s.dial()
	if err != nil {
		return err
	}
	defer func() { c.close() }()
	age := 0
	for i, ph := range l.Phases {
		time.Sleep(time.Duration(ph.Ms) * time.Millisecond)
		age += ph.Ms
		if ph.New {
			c.close()
			if c, err = s.dial(); err != nil {
				return fmt.Errorf("after %d ms: %w", age, err)
			}
		}
		for j, cmd := range ph.Cmds {
			args := cmd.Args()
			collect(used, args)
			if err := c.step(m, args); err != nil {
				return fmt.Errorf("after %d ms, the last %d of them quiet, command %d.%d: %w", age, ph.Ms, i, j, err)
			}
		}
		if err := c.dump(m, sortedKeys(used)); err != nil {
			return fmt.Errorf("read back after %d ms: %w", age, err)
		}
		for k := 0; k < ph.Attach; k++ {
			if err := replicaEquals(s, m, sortedKeys(used)); err != nil {
				return fmt.Errorf("a replica started when its master had lived for %d ms, the last %d of them quiet: %w", age, ph.Ms, err)
			}
		}
	}
	if err := idle.dump(m, sortedKeys(used)); err != nil {
		return fmt.Errorf("read back by a connection that was quiet for %d ms: %w", age, err)
	}
	if err := s.stop(sig(l.Sig)); err != nil {
		return err
	}
	s, err = start(so)
	if err != nil {
		return err
	}
	defer s.end()
	again, err := s.dial()
	if err != nil {
		return err
	}
	defer again.close()
	if err := again.dump(m, sortedKeys(used)); err != nil {
		return fmt.Errorf("read back after a restart, the server had lived for %d ms: %w", age, err)
	}
	return s.stop(sig(l.Sig + 1))
}

func TestC10(t *testing.T) {
	h.Plan(3.6)
	h.Check(t, "C10", h.Prop[hugePlan]{
		Name:  "huge",
		Rule:  "1 or 2 lives of a server with 1 or 2 bursts each of 2^15, 2^16 or 2^17 small records (or a few more), one record as wide, or one of up to 40 MB; all replies, and the data after each restart and one more, compared with the model; all are non-trivial",
		Cases: 1, Weight: 0.3, Gen: genHugePlan, Run: runHugePlan, Shrink: 15 * time.Second,
	})
	h.Check(t, "C10", h.Prop[agedPlan]{
		Name:  "aged",
		Rule:  "3 to 6 servers that live for up to 40 seconds, with quiet times of 0.1 to 31 seconds between bursts of commands, from connections that last and new ones; every reply, the data along the way, as a silent connection sees it at the end, and after a restart compared with the model; all are non-trivial",
		Cases: 1, Weight: 0.3, Gen: genAgedPlan, Run: runAgedPlan, Shrink: time.Second,
	})
	h.Check(t, "C10", h.Prop[bulkyPlan]{
		Name:  "bulky",
		Rule:  "pipelined writes of values between 1 byte and 200 KB, up to some hundred records; three runs on the same file, read back against the model; all are non-trivial",
		Cases: 12, Weight: 0.4,
		Gen: func(t *rapid.T) bulkyPlan {
			p := bulkyPlan{Sizes: rapid.SliceOfN(gen.SizedG(2000000, 1, 10, 100, 1000, 3900, 4000, 4050, 4090, 4096, 5000, 8192, 65536, 200000), 1, 8).Draw(t, "sizes"),
				Rep: gen.Sized(t, "rep", 3000, 1, 2, 10, 40), Sig: rapid.SampledFrom([]int{0, 1, 0, 1, 2, 3, 4, 5}).Draw(t, "sig")}
			total := 100 * len(p.Sizes)
			for _, n := range p.Sizes {
				total += n
			}
			p.Rep = max(1, min(p.Rep, 10<<20/total))
			return p
		},
		Run: runBulkyPlan,
	})
	h.Check(t, "C10", h.Prop[oddRestartPlan]{
		Name:  "odd",
		Rule:  "1 to 40 arbitrary RESP values as requests, many almost commands; the data read back after two clean restarts equals the data before; non-trivial when the data is not empty",
		Cases: 200, Weight: 0.8,
		Gen: func(t *rapid.T) oddRestartPlan {
			return oddRestartPlan{Reqs: genOddPlan(t).Reqs, Sig: rapid.SampledFrom([]int{0, 1, 0, 1, 2, 3, 4, 5}).Draw(t, "sig")}
		},
		Run: runOddRestartPlan,
	})
	h.Check(t, "C10", h.Prop[restartPlan]{
		Name:  "restarts",
		Rule:  "1 to 4 segments of up to 60 commands of all families (arbitrary bytes, some damaged), each ended by SIGTERM or SIGINT with idle and half-request connections around, some of them told of a master that is down, closes or breaks off, then two more restarts without writes; everything is read back against the model after each start; non-trivial when the final data is not empty",
		Cases: 300, Weight: 1.8, Gen: genRestartPlan, Run: runRestartPlan,
		Fixed: []restartPlan{
			{Segs: []segment{{Cmds: []gen.Cmd{{"rpush", "a", "1", "2", "3"}, {"ltrim", "a", "1", "2"}, {"sadd", "a", "x", "y", "z"}, {"spop", "a"}, {"set", "a", "\xff\x00"}, {"hset", "a", "f", ""}, {"linsert", "a", "before", "2", "x"}, {"set", "", "empty"}}}}},
			{Segs: []segment{{Cmds: thrice([]gen.Cmd{{"rpush", "a", "0", "1", "2", "3", "4", "x", "5", "x", "6", "x", "7", "8"}, {"ltrim", "a", "1", "-1"}, {"ltrim", "a", "0", "-2"}, {"lrem", "a", "1", "x"}, {"lpop", "a"}, {"rpop", "a"}, {"linsert", "a", "before", "3", "y"},
				{"lpush", "a", "z"}, {"set", "n", "1"}, {"incr", "n"}, {"incrby", "n", "2"}, {"decr", "n"}, {"decrby", "n", "5"}, {"append", "n", "0"}, {"sadd", "s", "1", "2", "3", "4", "5", "6", "7", "8", "9"}, {"spop", "s"}, {"spop", "s", "1"}})}}},
			{Log: true, Replica: true, Segs: []segment{{}, {Cmds: []gen.Cmd{{"lrem", "a", "0", ""}, {"incr", "a"}, {"set", "a", "9223372036854775807"}, {"incr", "a"}, {"append", "a", "x"}, {"spop", "b", "3"}}, Idle: 2, Half: true}}},
		},
	})
}

// ---- C11: torn files ----

// frame splits a database file into complete records by its own rules: four
// bytes of length, little endian, and as many bytes.
func frame(b []byte) (ends []int) {
	at := 0
	for at+4 <= len(b) {
		n := int(binary.LittleEndian.Uint32(b[at:]))
		if at+4+n > len(b) {
			break
		}
		at += 4 + n
		ends = append(ends, at)
	}
	return ends
}

// replayState executes the records one by one in process and returns the state after
// each, as fingerprints; index 0 is the empty state.
func replayStates(b []byte, ends []int, keys []string) ([]string, error) {
	d := db.NewDB(1)
	read := func() (string, error) {
		m := model.New()
		for _, cmd := range model.DumpCommands(keys) {
			v, err := inproc.Exec(d, cmd)
			if err != nil {
				return "", err
			}
			if v.IsErr() {
				continue
			}
			fill(m, cmd, v)
		}
		return m.Fingerprint(), nil
	}
	states := []string{""}
	at := 0
	for _, e := range ends {
		logs, err := vlog.ParseLog(strings.NewReader(string(b[at:e])))
		if err != nil || len(logs) != 1 {
			return nil, fmt.Errorf("the record at %d to %d: %d logs, %v", at, e, len(logs), err)
		}
		at = e
		args := []string{logs[0].Name}
		for _, a := range logs[0].Arguments {
			obj, err := protocol.Parse(strings.NewReader(string(a)))
			if err != nil {
				return nil, err
			}
			s, ok := obj.(protocol.RedisString)
			if !ok {
				return nil, fmt.Errorf("argument %q", a)
			}
			args = append(args, s.Data())
		}
		if _, err := inproc.Exec(d, args); err != nil {
			return nil, err
		}
		f, err := read()
		if err != nil {
			return nil, err
		}
		states = append(states, f)
	}
	return states, nil
}

// fill takes the reply of a read into the model.
func fill(m *model.Store, cmd []string, v resp.Value) {
	k := ""
	if len(cmd) > 1 {
		k = cmd[1]
	}
	switch cmd[0] {
	case "mget":
		for i, x := range v.Arr {
			if !x.Null && x.Kind == '$' {
				m.Str[cmd[1+i]] = x.Str
			}
		}
	case "lrange":
		m.List[k] = nil
		for _, x := range v.Arr {
			m.List[k] = append(m.List[k], x.Str)
		}
	case "hgetall":
		m.Hash[k] = map[string]string{}
		for i := 0; i+1 < len(v.Arr); i += 2 {
			m.Hash[k][v.Arr[i].Str] = v.Arr[i+1].Str
		}
	case "smembers":
		m.Set[k] = map[string]struct{}{}
		for _, x := range v.Arr {
			m.Set[k][x.Str] = struct{}{}
		}
	}
}

// tear says where a file is cut: relative to a record's end, or anywhere.
type tear struct {
	Record int // in thousandths of the records
	Delta  int // from the end of that record; negative is before
	Cmds   []gen.Cmd
	Kill   bool // then the server is killed once, before the clean stop
	Sig    int
	// Again cuts the file of the recovered server once more.
	Again bool
}

type tornPlan struct {
	Cmds  []gen.Cmd
	Big   []int // sizes of some big values set in between
	Tears []tear
}

func genTornPlan(t *rapid.T) tornPlan {
	o := gen.Opt{Keys: gen.FewKeys}
	f := o.Swarm(t).AnyCmd
	tg := rapid.Custom(func(t *rapid.T) tear {
		return tear{
			Record: rapid.IntRange(0, 1000).Draw(t, "record"),
			Delta:  rapid.OneOf(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, -1, -2, -3}), rapid.IntRange(0, 300)).Draw(t, "delta"),
			Cmds:   gen.Seq(t, f, 1, 12), Kill: rapid.IntRange(0, 3).Draw(t, "kill") == 0, Sig: rapid.SampledFrom([]int{0, 1, 0, 1, 2, 3, 4, 5}).Draw(t, "sig"), Again: rapid.IntRange(0, 3).Draw(t, "again") == 0,
		}
	})
	return tornPlan{Cmds: gen.Bursts(t, f, 2, 40), Big: rapid.SliceOfN(gen.SizedG(300000, 200, 4000, 4096, 10000), 0, 2).Draw(t, "big"), Tears: rapid.SliceOfN(tg, 1, 5).Draw(t, "tears")}
}

func index(hist []string, f string) int {
	for i := len(hist) - 1; i >= 0; i-- {
		if hist[i] == f {
			return i
		}
	}
	return -1
}

func (tr tear) at(ends []int, size int) int {
	k := tr.Record * len(ends) / 1000
	pos := tr.Delta
	if k > 0 {
		pos += ends[k-1]
	}
	return max(0, min(pos, size))
}

// run starts a server on the file, reads the state, executes commands and stops it; it
// returns the states the data went through.
func recoverRun(dir string, keys []string, cmds []gen.Cmd, stop func(*srv) error) ([]string, error) {
	s, err := start(opts{dir: dir, db: dbName})
	if err != nil {
		return nil, err
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return nil, err
	}
	defer c.close()
	m, err := c.state(keys)
	if err != nil {
		return nil, err
	}
	hist := []string{m.Fingerprint()}
	for i, cmd := range cmds {
		if err := c.step(m, cmd.Args()); err != nil {
			return hist, fmt.Errorf("command %d after the start: %w", i, err)
		}
		hist = append(hist, m.Fingerprint())
	}
	if err := c.dump(m, keys); err != nil {
		return hist, fmt.Errorf("read back: %w", err)
	}
	return hist, stop(s)
}

func runTornPlan(p tornPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Cmds)}
	dir := newDir()
	defer removeDir(dir)
	keys := []string{"big"}
	for _, k := range gen.FewKeys {
		keys = append(keys, string(k))
	}
	cmds := append([]gen.Cmd(nil), p.Cmds...)
	for i, n := range p.Big {
		at := (i + 1) * len(cmds) / (len(p.Big) + 1)
		cmds = append(cmds[:at:at], append([]gen.Cmd{{"set", "big", h.Bytes(strings.Repeat("b", n))}}, cmds[at:]...)...)
	}
	hist, err := recoverRun(dir, keys, cmds, func(s *srv) error { return s.stop(sig(0)) })
	if err != nil {
		return h.Fail("run of the server on a new file: %v", err)
	}
	full, err := os.ReadFile(filepath.Join(dir, dbName))
	if err != nil {
		return h.Fail("the database file: %v", err)
	}
	for i, tr := range p.Tears {
		if err := oneTear(&o, tr, full, hist, keys, 1); err != nil {
			return h.Fail("cut %d: %v", i, err)
		}
	}
	return o
}

func oneTear(o *h.Outcome, tr tear, full []byte, hist, keys []string, depth int) error {
	ends := frame(full)
	whole := len(ends) > 0 && ends[len(ends)-1] == len(full) || len(full) == 0
	pos := tr.at(ends, len(full))
	complete := frame(full[:pos])
	torn := len(complete) == 0 && pos > 0 || len(complete) > 0 && complete[len(complete)-1] != pos
	states, err := replayStates(full, ends, keys)
	if err != nil || !whole {
		// the file is not laid out as expected; then only the weaker part is checked
		o.Labels = append(o.Labels, "unknown layout")
		states = nil
	}
	if torn {
		o.NonTrivial = true
		o.Labels = append(o.Labels, "torn")
	}
	dir := newDir()
	defer removeDir(dir)
	file := filepath.Join(dir, dbName)
	if err := os.WriteFile(file, full[:pos], 0755); err != nil {
		h.Internal("%v", err)
	}
	stop := func(s *srv) error { return s.stop(sig(tr.Sig)) }
	kill := stop
	if tr.Kill {
		kill = func(s *srv) error { s.kill(); return nil }
	}
	what := fmt.Sprintf("a file of %d records and %d bytes cut at byte %d, where %d records are complete", len(ends), len(full), pos, len(complete))
	got, err := recoverRun(dir, keys, tr.Cmds, kill)
	o.Steps += len(tr.Cmds) + 1
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if states != nil && got[0] != states[len(complete)] {
		return fmt.Errorf("%s: the recovered state is\n%s\nbut after those records it is\n%s", what, h.Short(got[0], 1500), h.Short(states[len(complete)], 1500))
	}
	k := index(hist, got[0])
	if k < 0 {
		return fmt.Errorf("%s: the recovered state was never the state: %s", what, h.Short(got[0], 1500))
	}
	if len(complete) == len(ends) && got[0] != hist[len(hist)-1] {
		return fmt.Errorf("%s: the recovered state is not the last one", what)
	}
	// what came after the recovery is as durable as ever
	hist = append(append([]string(nil), hist[:k+1]...), got...)
	last := hist[len(hist)-1]
	again, err := recoverRun(dir, keys, nil, stop)
	if err != nil {
		return fmt.Errorf("%s, second start: %w", what, err)
	}
	if tr.Kill {
		o.Labels = append(o.Labels, "kill after recovery")
		// at least what had been recovered
		if j := index(got, again[0]); j < 0 {
			return fmt.Errorf("%s, %d commands, then killed: the state is\n%s\nwhich was never the state since the recovery: %s", what, len(tr.Cmds), h.Short(again[0], 1500), h.Short(got[0], 1500))
		}
		hist = append(hist, again[0])
	} else if again[0] != last {
		return fmt.Errorf("%s, then %d commands and a clean restart: the state is\n%s\nbut before it was\n%s", what, len(tr.Cmds), h.Short(again[0], 1500), h.Short(last, 1500))
	}
	if tr.Again && depth > 0 {
		b, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		o.Labels = append(o.Labels, "cut twice")
		tr.Again = false
		tr.Record = (tr.Record*7 + 300) % 1001
		if err := oneTear(o, tr, b, hist, keys, depth-1); err != nil {
			return fmt.Errorf("%s, then %d commands, a restart, and once more: %w", what, len(tr.Cmds), err)
		}
	}
	return nil
}

// every cut of a short history
type everyPlan struct {
	Cmds []gen.Cmd
	Step int
	From int
}

func runEveryPlan(p everyPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Cmds)}
	dir := newDir()
	defer removeDir(dir)
	var keys []string
	for _, k := range gen.FewKeys {
		keys = append(keys, string(k))
	}
	hist, err := recoverRun(dir, keys, p.Cmds, func(s *srv) error { return s.stop(sig(0)) })
	if err != nil {
		return h.Fail("run of the server on a new file: %v", err)
	}
	full, err := os.ReadFile(filepath.Join(dir, dbName))
	if err != nil {
		return h.Fail("the database file: %v", err)
	}
	for pos := p.From; pos <= len(full); pos += p.Step {
		tr := tear{Record: 0, Delta: pos, Cmds: []gen.Cmd{{"rpush", "a", "after"}, {"set", "b", "after"}}}
		if err := oneTear(&o, tr, full, hist, keys, 0); err != nil {
			return h.Fail("%v", err)
		}
	}
	return o
}

// ---- crashes by SIGKILL while writing ----

type killPlan struct {
	Rounds []killRound
}

type killRound struct {
	Size  int // bytes of payload per write
	Ms    int // how long the writers run, in tenths of a millisecond
	Conns int
	Pipe  int
}

func genKillPlan(t *rapid.T) killPlan {
	return killPlan{Rounds: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) killRound {
		return killRound{Size: rapid.SampledFrom([]int{1, 30, 300, 2000, 4096, 9000}).Draw(t, "size"), Ms: rapid.IntRange(0, 300).Draw(t, "ms"), Conns: rapid.IntRange(1, 3).Draw(t, "conns"), Pipe: rapid.SampledFrom([]int{1, 5, 50}).Draw(t, "pipe")}
	}), 1, 4).Draw(t, "rounds")}
}

// runKillPlan has writers append consecutive numbers to two lists in lock step, so that every
// state but a prefix shows.
func runKillPlan(p killPlan) h.Outcome {
	o := h.Outcome{}
	dir := newDir()
	defer removeDir(dir)
	lists := map[string][]string{} // expected content, as far as known to be durable
	var total int64
	for r := 0; r <= len(p.Rounds); r++ {
		s, err := start(opts{dir: dir, db: dbName})
		if err != nil {
			return h.Fail("start %d on the same file: %v", r, err)
		}
		// whatever was killed, each list is a prefix of what was sent: no holes, no repetition
		c, err := s.dial()
		if err != nil {
			s.end()
			return h.Fail("%v", err)
		}
		err = func() error {
			for w := 0; w < 3; w++ {
				k := fmt.Sprint("l", w)
				v, err := c.do([]string{"lrange", k, "0", "-1"})
				if err != nil {
					return err
				}
				for i, x := range v.Arr {
					if strings.SplitN(x.Str, ":", 2)[0] != strconv.Itoa(i) {
						return fmt.Errorf("item %d of %s is %s", i, k, h.Short(x.Str, 60))
					}
				}
				if len(v.Arr) < len(lists[k]) {
					return fmt.Errorf("%s has %d items, but %d had been recovered before", k, len(v.Arr), len(lists[k]))
				}
				n, err := c.do([]string{"get", "n" + k})
				if err != nil {
					return err
				}
				// the counter is written after the list
				want := len(v.Arr)
				if got, _ := strconv.Atoi(n.Str); n.Null && want > 1 || !n.Null && got != want && got != want-1 {
					return fmt.Errorf("the counter after %s is %s, but the list has %d items: not a prefix", k, n, want)
				}
				// make both equal again
				if want > 0 {
					if v, err := c.do([]string{"set", "n" + k, strconv.Itoa(want)}); err != nil || v.Str != "OK" {
						return fmt.Errorf("set: %s, %v", v, err)
					}
				}
				lists[k] = make([]string, want)
			}
			return nil
		}()
		if err != nil {
			s.end()
			return h.Fail("after kill %d: %v", r, err)
		}
		if r == len(p.Rounds) {
			// what is written now survives a clean restart
			if v, err := c.do([]string{"set", "final", "x"}); err != nil || v.Str != "OK" {
				s.end()
				return h.Fail("set: %s, %v", v, err)
			}
			keys := []string{"l0", "l1", "l2", "nl0", "nl1", "nl2", "final"}
			m, err := c.state(keys)
			if err == nil {
				err = s.stop(sig(0))
			}
			s.end()
			if err != nil {
				return h.Fail("%v", err)
			}
			s, err = start(opts{dir: dir, db: dbName})
			if err != nil {
				return h.Fail("the last start: %v", err)
			}
			defer s.end()
			if c, err = s.dial(); err != nil {
				return h.Fail("%v", err)
			}
			defer c.close()
			m2, err := c.state(keys)
			if err != nil {
				return h.Fail("%v", err)
			}
			if m.Fingerprint() != m2.Fingerprint() {
				return h.Fail("after a clean restart the state is\n%s\nbut it was\n%s", h.Short(m2.Fingerprint(), 800), h.Short(m.Fingerprint(), 800))
			}
			break
		}
		rd := p.Rounds[r]
		c.close()
		// a clean point: the recovered prefix must survive the next kill only
		// as far as it is in the file, so it is stopped cleanly before
		if err := s.stop(sig(r)); err != nil {
			s.end()
			return h.Fail("%v", err)
		}
		s.end()
		if s, err = start(opts{dir: dir, db: dbName}); err != nil {
			return h.Fail("start %d on the same file: %v", r, err)
		}
		var wg sync.WaitGroup
		for w := 0; w < rd.Conns; w++ {
			k := fmt.Sprint("l", w)
			c, err := s.dial()
			if err != nil {
				s.end()
				return h.Fail("%v", err)
			}
			wg.Add(1)
			go func(c *client, k string, i int) {
				defer wg.Done()
				defer c.close()
				pad := strings.Repeat("p", rd.Size)
				for {
					var b []byte
					for j := 0; j < rd.Pipe; j++ {
						b = append(b, resp.Bulks([]string{"rpush", k, strconv.Itoa(i) + ":" + pad}).Encode()...)
						b = append(b, resp.Bulks([]string{"set", "n" + k, strconv.Itoa(i + 1)}).Encode()...)
						i++
					}
					if _, err := c.c.Write(b); err != nil {
						return
					}
					for j := 0; j < 2*rd.Pipe; j++ {
						if _, err := c.r.Read(); err != nil {
							return
						}
						atomic.AddInt64(&total, 1)
					}
				}
			}(c, k, len(lists[k]))
		}
		time.Sleep(time.Duration(rd.Ms) * 100 * time.Microsecond)
		if err := s.died(); err != nil {
			s.end()
			wg.Wait()
			return h.Fail("%v", err)
		}
		s.kill()
		wg.Wait()
		s.end()
	}
	o.Steps = int(total)
	o.NonTrivial = total > 0
	return o
}

func TestC11(t *testing.T) {
	h.Plan(3)
	h.Check(t, "C11", h.Prop[everyPlan]{
		Name:  "every",
		Rule:  "a history of 1 to 6 commands, its database file cut at every byte (or at every few bytes), the server started on each cut, more commands, restart; non-trivial when a cut tears a record",
		Cases: 3, Weight: 0.8, Shrink: 10 * time.Second,
		Gen: func(t *rapid.T) everyPlan {
			o := gen.Opt{Keys: gen.FewKeys, Value: gen.Small}
			return everyPlan{Cmds: gen.Seq(t, o.Swarm(t).AnyCmd, 1, 6), Step: rapid.SampledFrom([]int{7, 11, 13}).Draw(t, "step"), From: rapid.IntRange(0, 12).Draw(t, "from")}
		},
		Run: runEveryPlan,
	})
	h.Check(t, "C11", h.Prop[tornPlan]{
		Name:  "torn",
		Rule:  "a history of up to 40 commands and a few big values, its database file cut at 1 to 5 places (record ends and a few bytes around, anywhere inside), the server started on each; state against the replay of the complete records and against the history; then more commands, a clean stop or a kill, restart, sometimes a second cut; non-trivial when a cut tears a record",
		Cases: 100, Weight: 1.4, Gen: genTornPlan, Run: runTornPlan, Shrink: 30 * time.Second,
		Fixed: []tornPlan{{Cmds: []gen.Cmd{{"set", "a", "1"}, {"rpush", "b", "x", "y"}, {"incr", "a"}}, Tears: []tear{{Record: 0, Delta: 0}, {Record: 1000}, {Record: 700, Delta: 2, Cmds: []gen.Cmd{{"set", "b", "2"}}}, {Record: 0, Delta: 3, Cmds: []gen.Cmd{{"set", "b", "2"}}}, {Record: 400, Delta: 20, Cmds: []gen.Cmd{{"set", "b", "2"}}, Again: true}}}},
	})
	h.Check(t, "C11", h.Prop[killPlan]{
		Name:  "killed",
		Rule:  "writers appending numbered items in pipelines, the server killed by SIGKILL in the middle, again and again on the same file; lists have no holes, are in step with a counter written after each item, and recovered items never vanish; non-trivial when something was written",
		Cases: 60, Weight: 0.8, Gen: genKillPlan, Run: runKillPlan, Retries: 10, Shrink: 20 * time.Second,
	})
}

// ---- C13: concurrent writers, then a restart ----

type concPlan struct {
	Clients [][]gen.Cmd
	Pipe    []int // how many commands a client sends at once
	Sig     int
	Readers int
	// Each client sends Many more commands, which follow its Ops in turn
	Ops  [][]int `json:",omitempty"`
	Many int     `json:",omitempty"`
}

func genConcPlan(t *rapid.T) concPlan {
	o := gen.Opt{Keys: gen.FewKeys[:3], Value: gen.Small, InRangeTrim: true}
	n := rapid.IntRange(2, 8).Draw(t, "clients")
	p := concPlan{Sig: rapid.SampledFrom([]int{0, 1, 0, 1, 2, 3, 4, 5}).Draw(t, "sig"), Readers: rapid.IntRange(0, 2).Draw(t, "readers")}
	for i := 0; i < n; i++ {
		p.Clients = append(p.Clients, gen.Bursts(t, o.Swarm(t).AnyCmd, 1, 60))
		p.Pipe = append(p.Pipe, rapid.SampledFrom([]int{1, 1, 3, 1000}).Draw(t, "pipe"))
	}
	return p
}

// manyCmds are writes whose order matters and that keep the data small.
func manyCmds(client int, ops []int, n int) (out []gen.Cmd) {
	for j := 0; j < n; j++ {
		tag := h.Bytes(fmt.Sprintf("%d.%d", client, j))
		f := h.Bytes(strconv.Itoa(j % 7))
		out = append(out, []gen.Cmd{
			{"set", "a", tag}, {"append", "a", "x"}, {"incr", "b"}, {"decrby", "b", "3"}, {"set", "b", f}, {"rpush", "a", tag}, {"lpush", "a", tag}, {"lpop", "a"}, {"rpop", "a"},
			{"hset", "a", f, tag}, {"hdel", "a", f}, {"sadd", "a", f, "m"}, {"srem", "a", f}, {"spop", "a", "2"}, {"mset", "a", tag, "b", tag}, {"lset", "a", "0", tag}, {"ltrim", "a", "0", "20"},
		}[ops[j%len(ops)]%17])
	}
	return out
}

func runConcPlan(p concPlan) h.Outcome {
	o := h.Outcome{NonTrivial: len(p.Clients) >= 2}
	dir := newDir()
	defer removeDir(dir)
	s, err := start(opts{dir: dir, db: dbName})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	errs := make(chan error, len(p.Clients))
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i, cmds := range p.Clients {
		if i < len(p.Ops) && len(p.Ops[i]) > 0 {
			cmds = append(append([]gen.Cmd(nil), cmds...), manyCmds(i, p.Ops[i], p.Many)...)
		}
		c, err := s.dial()
		if err != nil {
			return h.Fail("%v", err)
		}
		defer c.close()
		o.Steps += len(cmds)
		wg.Add(1)
		go func(c *client, cmds []gen.Cmd, pipe int) {
			defer wg.Done()
			<-gate
			for at := 0; at < len(cmds); at += pipe {
				part := cmds[at:min(at+pipe, len(cmds))]
				var b []byte
				for _, x := range part {
					b = append(b, resp.Bulks(x.Args()).Encode()...)
				}
				sent := make(chan error, 1)
				go func() { sent <- c.send(b) }()
				for range part {
					if _, err := c.recv(); err != nil {
						errs <- err
						return
					}
				}
				if err := <-sent; err != nil {
					errs <- err
					return
				}
			}
		}(c, cmds, max(p.Pipe[i], 1))
	}
	close(gate)
	wg.Wait()
	select {
	case err := <-errs:
		return h.Fail("%v", err)
	default:
	}
	var keys []string
	for _, k := range gen.FewKeys {
		keys = append(keys, string(k))
	}
	read := func(s *srv) (string, error) {
		c, err := s.dial()
		if err != nil {
			return "", err
		}
		defer c.close()
		m, err := c.state(keys)
		if err != nil {
			return "", err
		}
		return m.Fingerprint(), nil
	}
	before, err := read(s)
	if err != nil {
		return h.Fail("%v", err)
	}
	if err := s.stop(sig(p.Sig)); err != nil {
		return h.Fail("%v", err)
	}
	r, err := start(opts{dir: dir, db: dbName})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer r.end()
	after, err := read(r)
	if err != nil {
		return h.Fail("%v", err)
	}
	if before != after {
		return h.Fail("%d clients wrote; last seen before the shutdown\n%s\nafter the restart\n%s", len(p.Clients), h.Short(before, 1500), h.Short(after, 1500))
	}
	return o
}

// writers that are still writing when the server is asked to stop
type flightPlan struct {
	Writers, Pipe, Size, Us, Sig int
	Keep                         bool // writers keep their connections open until the server ends
}

func runFlightPlan(p flightPlan) h.Outcome {
	o := h.Outcome{}
	dir := newDir()
	defer removeDir(dir)
	s, err := start(opts{dir: dir, db: dbName})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	type ack struct {
		item string
		n    int64
	}
	acks := make([][]ack, p.Writers)
	sent := make([]int, p.Writers)
	odd := make(chan error, p.Writers)
	var wg sync.WaitGroup
	for w := 0; w < p.Writers; w++ {
		c, err := s.dial()
		if err != nil {
			return h.Fail("%v", err)
		}
		wg.Add(1)
		go func(w int, c *client) {
			defer wg.Done()
			defer c.close()
			pad := strings.Repeat("p", p.Size)
			for i := 0; i < 200000; {
				var b []byte
				first := i
				for j := 0; j < p.Pipe; j++ {
					b = append(b, resp.Bulks([]string{"rpush", "list", fmt.Sprintf("%d.%d.%s", w, i, pad)}).Encode()...)
					i++
				}
				sent[w] = i
				_ = c.c.SetDeadline(time.Now().Add(2 * patience))
				_, werr := c.c.Write(b)
				for j := 0; j < p.Pipe; j++ {
					v, err := c.r.Read()
					if err != nil {
						if ne, ok := err.(net.Error); ok && ne.Timeout() {
							odd <- fmt.Errorf("writer %d: a request got neither a reply nor an end of the connection in %v", w, 2*patience)
						}
						return
					}
					if v.Kind == '-' {
						continue // refused, which is allowed while stopping
					}
					if v.Kind != ':' {
						odd <- fmt.Errorf("writer %d: reply %s to rpush", w, v)
						return
					}
					acks[w] = append(acks[w], ack{fmt.Sprintf("%d.%d.%s", w, first+j, pad), v.Int})
				}
				if werr != nil {
					return
				}
			}
		}(w, c)
	}
	time.Sleep(time.Duration(p.Us) * time.Microsecond)
	stopErr := s.stop(sig(p.Sig))
	wg.Wait()
	if stopErr != nil {
		return h.Fail("while %d clients were writing: %v", p.Writers, stopErr)
	}
	select {
	case err := <-odd:
		return h.Fail("%v", err)
	default:
	}
	r, err := start(opts{dir: dir, db: dbName})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer r.end()
	c, err := r.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	v, err := c.do([]string{"lrange", "list", "0", "-1"})
	if err != nil {
		return h.Fail("%v", err)
	}
	seen := map[string]int{}
	next := make([]int, p.Writers)
	for i, x := range v.Arr {
		var w, n int
		if _, err := fmt.Sscanf(x.Str, "%d.%d.", &w, &n); err != nil || w < 0 || w >= p.Writers || n >= sent[w] {
			return h.Fail("item %d after the restart is %s, which nobody sent", i, h.Short(x.Str, 60))
		}
		if n != next[w] {
			return h.Fail("item %d after the restart is number %d of writer %d, but its number %d is missing or comes later", i, n, w, next[w])
		}
		next[w]++
		seen[x.Str] = i + 1
	}
	for w := range acks {
		for _, a := range acks[w] {
			o.Steps++
			if seen[a.item] == 0 {
				return h.Fail("%s of writer %d was acknowledged, but is gone after the restart", h.Short(a.item, 40), w)
			}
			if int64(seen[a.item]) != a.n {
				return h.Fail("%s of writer %d was acknowledged as item %d, but is item %d after the restart", h.Short(a.item, 40), w, a.n, seen[a.item])
			}
		}
	}
	o.NonTrivial = o.Steps > 0
	if len(v.Arr) > o.Steps {
		o.Labels = append(o.Labels, "stopped between execution and reply")
	}
	return o
}

func TestC13(t *testing.T) {
	h.Plan(2.4)
	h.Check(t, "C13", h.Prop[concPlan]{
		Name:  "huge",
		Rule:  "2 to 8 clients sending 2^15 to 2^17 writes together on two shared names, pipelined, each following a short pattern of its own of one to nine writes whose order matters, in two thirds of the cases pushes and increments only, so that the data tells of the whole history; the data read after all replies, and again after a clean restart, is equal; all are non-trivial",
		Cases: 2, Weight: 0.4, Retries: 3, Run: runConcPlan, Shrink: 10 * time.Second,
		Gen: func(t *rapid.T) concPlan {
			n := rapid.IntRange(2, 8).Draw(t, "clients")
			p := concPlan{Sig: rapid.IntRange(0, 5).Draw(t, "sig"), Many: gen.HugeSize(t)/n + 1}
			ops := rapid.IntRange(0, 16)
			if rapid.IntRange(0, 2).Draw(t, "keep") > 0 {
				ops = rapid.SampledFrom([]int{5, 6, 2}) // nothing is overwritten, so the data tells of the whole history
			}
			for i := 0; i < n; i++ {
				p.Clients = append(p.Clients, []gen.Cmd{{"set", "b", "0"}})
				p.Pipe = append(p.Pipe, rapid.SampledFrom([]int{100, 1000, 100000}).Draw(t, "pipe"))
				p.Ops = append(p.Ops, rapid.SliceOfN(ops, 1, 9).Draw(t, "ops"))
			}
			return p
		},
	})
	h.Check(t, "C13", h.Prop[flightPlan]{
		Name:  "in-flight",
		Rule:  "1 to 6 clients pushing unique items to one list in pipelines while the server gets SIGTERM or SIGINT; after the restart every acknowledged item is exactly at the place its reply said, each client's items are complete and in order; non-trivial when something was acknowledged",
		Cases: 100, Weight: 1, Retries: 20, Run: runFlightPlan,
		Gen: func(t *rapid.T) flightPlan {
			return flightPlan{Writers: rapid.IntRange(1, 6).Draw(t, "writers"), Pipe: rapid.SampledFrom([]int{1, 2, 20, 300, 2000}).Draw(t, "pipe"), Size: rapid.SampledFrom([]int{1, 50, 1000}).Draw(t, "size"),
				Us: rapid.IntRange(0, 40000).Draw(t, "us"), Sig: rapid.SampledFrom([]int{0, 1, 0, 1, 2, 3, 4, 5}).Draw(t, "sig")}
		},
	})
	h.Check(t, "C13", h.Prop[concPlan]{
		Name:  "writers",
		Rule:  "2 to 8 clients executing up to 60 commands each on three shared keys, one by one or pipelined; the data read after all replies, and again after a clean restart, is equal; all are non-trivial",
		Cases: 200, Weight: 1, Retries: 20, Gen: genConcPlan, Run: runConcPlan,
	})
}
