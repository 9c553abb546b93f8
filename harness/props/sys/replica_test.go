package sys

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/lxdlam/vertex/pkg/replication"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/model"
	"vertexverif/resp"
)

// rudeAttach is a connection to the replication port that does not behave.
type rudeAttach struct {
	Read  int  // bytes read before it goes; -1 reads nothing and stays
	Reset bool // ends by RST
}

// ---- a replica of a master, at rest and under writes ----

type replicaPlan struct {
	Old    []gen.Cmd // in a first run of the master
	Cmds   []gen.Cmd // before the replica starts
	During []gen.Cmd // while it starts
	Rude   []rudeAttach
	RudeAt int // when they come, in quarters of Cmds
	Pads   int // bytes of a value that makes the transfer long
	N      int // replicas started at once
	Pipe   int
	Then   []gen.Cmd // on the replica afterwards
	Port   int       // how the port for replicas is given, see opts.derived
}

func genReplicaPlan(t *rapid.T) replicaPlan {
	o := gen.Opt{Keys: gen.FewKeys, InRangeTrim: true}
	p := replicaPlan{
		Cmds: gen.Bursts(t, o.Swarm(t).AnyCmd, 0, 30), Pads: gen.Sized(t, "pads", 8000000, 0, 0, 0, 4000, 100000, 3000000), N: rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "n"),
		Rude: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) rudeAttach {
			return rudeAttach{Read: rapid.SampledFrom([]int{-1, 0, 1, 3, 4, 5, 100, 5000, 1 << 30}).Draw(t, "read"), Reset: rapid.Bool().Draw(t, "reset")}
		}), 0, 3).Draw(t, "rude"), RudeAt: rapid.IntRange(0, 3).Draw(t, "rudeat"), Pipe: rapid.SampledFrom([]int{1, 4, 16}).Draw(t, "pipe"),
	}
	if rapid.Bool().Draw(t, "withold") {
		p.Old = gen.Seq(t, o.Swarm(t).AnyCmd, 1, 20)
	}
	if rapid.Bool().Draw(t, "withduring") {
		o.Value = gen.Small
		p.During = gen.Seq(t, o.Swarm(t).AnyCmd, 1, 40)
	}
	p.Then = gen.Seq(t, o.Swarm(t).AnyCmd, 0, 5)
	p.Port = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "port")
	return p
}

func (s *srv) replicaAddr() string { return fmt.Sprintf("127.0.0.1:%d", s.rport) }

func few() []string {
	keys := []string{"pad"}
	for _, k := range gen.FewKeys {
		keys = append(keys, string(k))
	}
	return keys
}

// waitReplicaPort waits until the master takes replication connections; it opens the
// port before it serves clients, so this is soon.
func (s *srv) attach() (*net.TCPConn, error) {
	c, err := net.DialTimeout("tcp", s.replicaAddr(), patience)
	if err != nil {
		return nil, fmt.Errorf("connect to the replication port: %w", err)
	}
	return c.(*net.TCPConn), nil
}

func runReplicaPlan(p replicaPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Old) + len(p.Cmds) + len(p.During)}
	dir := newDir()
	defer removeDir(dir)
	keys := few()
	m := model.New()
	if len(p.Old) > 0 {
		hist, err := recoverRun(dir, keys, p.Old, func(s *srv) error { return s.stop(sig(0)) })
		if err != nil {
			return h.Fail("first run of the master: %v", err)
		}
		_ = hist
	}
	s, err := start(opts{dir: dir, db: dbName, replica: true, derived: p.Port})
	if err != nil {
		return h.Fail("master: %v", err)
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	if m, err = c.state(keys); err != nil {
		return h.Fail("%v", err)
	}
	var open []net.Conn
	defer func() {
		for _, x := range open {
			_ = x.Close()
		}
	}()
	attachRudely := func() error {
		for _, r := range p.Rude {
			rc, err := s.attach()
			if err != nil {
				return err
			}
			if r.Read < 0 {
				open = append(open, rc)
				continue
			}
			_ = rc.SetReadDeadline(time.Now().Add(patience))
			_, _ = io.CopyN(io.Discard, rc, int64(r.Read))
			if r.Reset {
				_ = rc.SetLinger(0)
			}
			_ = rc.Close()
		}
		return nil
	}
	// some come early, and commands follow
	if err := attachRudely(); err != nil {
		return h.Fail("%v", err)
	}
	step := func(cmd gen.Cmd) error { return c.step(m, cmd.Args()) }
	for i, cmd := range p.Cmds {
		if p.Pads > 0 && i == len(p.Cmds)/2 {
			if err := step(gen.Cmd{"set", "pad", h.Bytes(strings.Repeat("p", p.Pads))}); err != nil {
				return h.Fail("master: %s", h.Short(err.Error(), 300))
			}
		}
		if err := step(cmd); err != nil {
			return h.Fail("master, command %d: %v", i, err)
		}
		if i == len(p.Cmds)*p.RudeAt/4 {
			if err := attachRudely(); err != nil {
				return h.Fail("%v", err)
			}
		}
	}
	// hist holds the states of the master from the moment the replicas start
	hist := []string{m.Fingerprint()}
	type result struct {
		fp  string
		err error
	}
	results := make(chan result, p.N)
	begin := time.Now()
	for i := 0; i < p.N; i++ {
		go func() {
			fp, err := func() (string, error) {
				r, err := start(opts{db: dbName, master: s.replicaAddr()})
				if err != nil {
					return "", err
				}
				defer r.end()
				rc, err := r.dial()
				if err != nil {
					return "", err
				}
				defer rc.close()
				st, err := rc.state(keys)
				if err != nil {
					return "", err
				}
				fp := st.Fingerprint()
				for i, cmd := range p.Then {
					if err := rc.step(st, cmd.Args()); err != nil {
						return fp, fmt.Errorf("command %d on the replica: %w", i, err)
					}
				}
				if err := rc.dump(st, keys); err != nil {
					return fp, fmt.Errorf("read back on the replica: %w", err)
				}
				return fp, r.stop(sig(0))
			}()
			results <- result{fp, err}
		}()
	}
	// while they do, commands go on, each batch pipelined
	for at := 0; at < len(p.During); at += p.Pipe {
		part := p.During[at:min(at+p.Pipe, len(p.During))]
		var b []byte
		for _, x := range part {
			b = append(b, resp.Bulks(x.Args()).Encode()...)
		}
		if err := c.send(b); err != nil {
			return h.Fail("master: %v", err)
		}
		for i, x := range part {
			v, err := c.recv()
			if err != nil {
				return h.Fail("master, command %d while replicas start: %v", at+i, err)
			}
			if err := m.Step(x.Args(), v); err != nil {
				return h.Fail("master, command %d while replicas start: %v", at+i, err)
			}
			hist = append(hist, m.Fingerprint())
		}
		time.Sleep(time.Millisecond)
	}
	for i := 0; i < p.N; i++ {
		r := <-results
		if r.err != nil {
			return h.Fail("replica: %v", r.err)
		}
		if index(hist, r.fp) < 0 {
			return h.Fail("the replica has\n%s\nwhich the master never had since the replica was started; it had first\n%s\nand last\n%s", h.Short(r.fp, 1200), h.Short(hist[0], 1200), h.Short(hist[len(hist)-1], 1200))
		}
		if len(hist) > 1 && r.fp != hist[0] && r.fp != hist[len(hist)-1] {
			o.Labels = append(o.Labels, "copied in the middle of writes")
		}
	}
	_ = begin
	// the master is as before
	if err := c.dump(m, keys); err != nil {
		return h.Fail("master, after the transfers: %s", h.Short(err.Error(), 1500))
	}
	if err := s.stop(sig(0)); err != nil {
		return h.Fail("master: %v", err)
	}
	again, err := recoverRun(dir, keys, nil, func(s *srv) error { return s.stop(sig(0)) })
	if err != nil {
		return h.Fail("master, restarted: %v", err)
	}
	if again[0] != hist[len(hist)-1] {
		return h.Fail("the master after a restart has\n%s\nbut before it had\n%s", h.Short(again[0], 1200), h.Short(hist[len(hist)-1], 1200))
	}
	o.NonTrivial = hist[0] != "" || len(hist) > 1
	if hist[0] == "" {
		o.Labels = append(o.Labels, "empty master")
	}
	if len(p.Rude) > 0 {
		o.Labels = append(o.Labels, "rude attachments")
	}
	return o
}

// ---- streams that are cut, delayed or cut into pieces ----

type streamPlan struct {
	Cmds  []gen.Cmd
	Big   int
	Cuts  []streamCut
	Exact bool // also the whole stream
}

type streamCut struct {
	Mille  int // where, in thousandths of the stream, or
	Byte   int // in bytes when it is not negative
	Back   bool
	Chunks []int // sizes of the pieces sent
	PauseU int   // microseconds between them
	Server bool  // to a whole server, not only a receiver
	Reset  bool
}

func genStreamPlan(t *rapid.T) streamPlan {
	o := gen.Opt{Keys: gen.FewKeys}
	cut := rapid.Custom(func(t *rapid.T) streamCut {
		return streamCut{Mille: rapid.IntRange(0, 999).Draw(t, "mille"), Byte: rapid.OneOf(rapid.Just(-1), rapid.IntRange(0, 12)).Draw(t, "byte"), Back: rapid.Bool().Draw(t, "back"),
			Chunks: rapid.SliceOfN(gen.SizedG(300000, 1, 2, 3, 7, 50, 1000, 4096, 100000), 1, 4).Draw(t, "chunks"), PauseU: rapid.SampledFrom([]int{0, 0, 100, 2000}).Draw(t, "pause"),
			Server: rapid.IntRange(0, 2).Draw(t, "server") == 0, Reset: rapid.IntRange(0, 3).Draw(t, "reset") == 0}
	})
	return streamPlan{Cmds: gen.Seq(t, o.Swarm(t).AnyCmd, 1, 20), Big: gen.Sized(t, "big", 3000000, 0, 0, 4000, 70000), Cuts: rapid.SliceOfN(cut, 1, 10).Draw(t, "cuts")}
}

// feed sends the stream to a connection in pieces.
func feed(c net.Conn, b []byte, cut streamCut) {
	i := 0
	small := 0
	for len(b) > 0 {
		n := min(max(cut.Chunks[i%len(cut.Chunks)], 1), len(b))
		if small > 400 { // tiny pieces all the way would take too long
			n = len(b)
		}
		i++
		if n < 1000 {
			small++
		}
		if _, err := c.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
		if cut.PauseU > 0 && i < 10 {
			time.Sleep(time.Duration(cut.PauseU) * time.Microsecond)
		}
	}
}

func runStreamPlan(p streamPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Cmds)}
	keys := few()
	dir := newDir()
	defer removeDir(dir)
	s, err := start(opts{dir: dir, db: dbName, replica: true})
	if err != nil {
		return h.Fail("master: %v", err)
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	m := model.New()
	cmds := p.Cmds
	if p.Big > 0 {
		cmds = append([]gen.Cmd{{"set", "pad", h.Bytes(strings.Repeat("p", p.Big))}}, cmds...)
	}
	for i, cmd := range cmds {
		if err := c.step(m, cmd.Args()); err != nil {
			return h.Fail("master, command %d: %s", i, h.Short(err.Error(), 400))
		}
	}
	want := m.Fingerprint()
	// what the master sends ends by itself, and does so soon
	rc, err := s.attach()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer rc.Close()
	_ = rc.SetReadDeadline(time.Now().Add(patience))
	stream, err := io.ReadAll(rc)
	if err != nil {
		return h.Fail("the transfer has not ended after %v: %v", patience, err)
	}
	o.NonTrivial = len(stream) > 4
	cuts := append([]streamCut{{Mille: 1000, Byte: -1, Chunks: []int{1 << 20}}}, p.Cuts...)
	for i, cut := range cuts {
		pos := len(stream) * cut.Mille / 1000
		if cut.Byte >= 0 {
			pos = min(cut.Byte, len(stream)-1)
			if cut.Back {
				pos = len(stream) - 1 - pos
			}
		}
		pos = max(0, min(pos, len(stream)))
		whole := pos == len(stream)
		what := fmt.Sprintf("the stream of %d bytes cut at byte %d", len(stream), pos)
		if whole {
			what = fmt.Sprintf("the whole stream of %d bytes", len(stream))
		}
		if cut.Server || i == 0 {
			fp, err := serveCut(stream[:pos], cut, keys)
			if err != nil {
				return h.Fail("%s, as the master of a server: %v", what, err)
			}
			if whole && fp != want {
				return h.Fail("%s: the replica has\n%s\nbut the master has\n%s", what, h.Short(fp, 1200), h.Short(want, 1200))
			}
			if !whole && fp != "" {
				return h.Fail("%s: the replica has applied\n%s", what, h.Short(fp, 1200))
			}
			o.Labels = append(o.Labels, "cut to a server")
			continue
		}
		a, b := net.Pipe()
		go func() {
			feed(b, stream[:pos], cut)
			_ = b.Close()
		}()
		type res struct {
			n   int
			err error
		}
		done := make(chan res, 1)
		go func() {
			logs, err := replication.NewReplica(a).Receive()
			done <- res{len(logs), err}
		}()
		select {
		case r := <-done:
			_ = a.Close()
			if whole && r.err != nil {
				return h.Fail("%s: Receive reports %v", what, r.err)
			}
			if whole && r.n != len(frame(stream[min(4, len(stream)):])) {
				return h.Fail("%s: Receive gives %d records", what, r.n)
			}
			if !whole && r.err == nil {
				return h.Fail("%s: Receive gives %d records and no error", what, r.n)
			}
			if !whole && r.n > 0 {
				return h.Fail("%s: Receive gives %d records with the error %v", what, r.n, r.err)
			}
		case <-time.After(patience):
			_ = a.Close()
			return h.Fail("%s: Receive has not returned after %v", what, patience)
		}
		o.Labels = append(o.Labels, "cut to a receiver")
	}
	return o
}

// serveCut starts a server whose master is played by the harness.
func serveCut(stream []byte, cut streamCut, keys []string) (string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		h.Internal("listen: %v", err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			feed(c, stream, cut)
			if cut.Reset && cut.Mille < 1000 {
				_ = c.(*net.TCPConn).SetLinger(0)
			}
			_ = c.Close()
		}
	}()
	r, err := start(opts{db: dbName, master: l.Addr().String()})
	if err != nil {
		return "", err
	}
	defer r.end()
	c, err := r.dial()
	if err != nil {
		return "", err
	}
	defer c.close()
	m, err := c.state(keys)
	if err != nil {
		return "", err
	}
	fp := m.Fingerprint()
	for _, cmd := range [][]string{{"rpush", "own", "1"}, {"rpush", "own", "2"}, {"lrange", "own", "0", "-1"}} {
		if err := c.step(m, cmd); err != nil {
			return fp, fmt.Errorf("commands on it: %w", err)
		}
	}
	return fp, r.stop(sig(0))
}

// ---- the master's side of the wire, under load ----

type wirePlan struct {
	Sizes    []int
	Attach   int
	Parallel bool
	Slow     bool
	NoFile   bool
	Files    int // the server may have that many files open, 0 for plenty
}

func runWirePlan(p wirePlan) h.Outcome {
	o := h.Outcome{Steps: p.Attach, NonTrivial: true}
	dir := newDir()
	defer removeDir(dir)
	so := opts{dir: dir, replica: true, db: dbName, nofile: p.Files}
	if p.NoFile {
		so.db = ""
	}
	s, err := start(so)
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	for i, n := range p.Sizes {
		if v, err := c.do([]string{"rpush", "l", fmt.Sprint(i), strings.Repeat("x", n)}); err != nil || v.Kind != ':' {
			return h.Fail("rpush: %s, %v", v, err)
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wr, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer wr.close()
	writeErr := make(chan error, 1)
	var acked int64
	wg.Add(1)
	go func() { // writes go on all the time
		defer wg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			v, err := wr.do([]string{"rpush", "during", fmt.Sprint(i)})
			if err != nil || v.Kind != ':' || v.Int != int64(i+1) {
				writeErr <- fmt.Errorf("a write during the transfers: reply %s to rpush number %d, %v", v, i+1, err)
				return
			}
			atomic.AddInt64(&acked, 1)
		}
	}()
	one := func(i int) error {
		before := int(atomic.LoadInt64(&acked))
		rc, err := s.attach()
		if err != nil {
			return err
		}
		defer rc.Close()
		_ = rc.SetReadDeadline(time.Now().Add(patience))
		var head [4]byte
		if _, err := io.ReadFull(rc, head[:]); err != nil {
			if p.NoFile {
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					return fmt.Errorf("a master without a file neither sends nor ends the transfer: %w", err)
				}
				return nil // it has nothing to send
			}
			return fmt.Errorf("the length: %w", err)
		}
		if p.Slow {
			time.Sleep(20 * time.Millisecond)
		}
		n := int(binary.LittleEndian.Uint32(head[:]))
		b, err := io.ReadAll(rc)
		if err != nil {
			return fmt.Errorf("after %d of %d bytes: %w", len(b), n, err)
		}
		if len(b) != n {
			return fmt.Errorf("the length is %d, but %d bytes follow", n, len(b))
		}
		ends := frame(b)
		if n > 0 && (len(ends) == 0 || ends[len(ends)-1] != n) {
			return errors.New("the transfer ends inside a record")
		}
		if len(ends) < len(p.Sizes)+before {
			return fmt.Errorf("%d records, but %d writes were acknowledged before", len(ends), len(p.Sizes)+before)
		}
		if after := int(atomic.LoadInt64(&acked)) + 1; len(ends) > len(p.Sizes)+after {
			return fmt.Errorf("%d records, but at most %d writes were made", len(ends), len(p.Sizes)+after)
		}
		return nil
	}
	errs := make(chan error, p.Attach)
	if p.Parallel {
		for i := 0; i < p.Attach; i++ {
			go func(i int) { errs <- one(i) }(i)
		}
	} else {
		for i := 0; i < p.Attach; i++ {
			errs <- one(i)
		}
	}
	var bad error
	for i := 0; i < p.Attach; i++ {
		if err := <-errs; err != nil && bad == nil {
			bad = fmt.Errorf("transfer %d: %w", i, err)
		}
	}
	close(stop)
	wg.Wait()
	if bad != nil {
		return h.Fail("%v", bad)
	}
	select {
	case err := <-writeErr:
		return h.Fail("%v", err)
	default:
	}
	v, err := c.do([]string{"llen", "during"})
	if err != nil || v.Int != acked {
		return h.Fail("%d writes were acknowledged, llen is %s, %v", acked, v, err)
	}
	if err := s.stop(sig(0)); err != nil {
		return h.Fail("%v", err)
	}
	// nothing is left behind open or on disk of the transfers
	if !p.NoFile {
		b, err := os.ReadFile(filepath.Join(dir, dbName))
		if err != nil {
			return h.Fail("%v", err)
		}
		if ends := frame(b); len(ends) > 0 && ends[len(ends)-1] != len(b) {
			return h.Fail("the database file ends inside a record after transfers and a clean stop")
		} else if len(ends) != len(p.Sizes)+int(acked) {
			return h.Fail("%d records in the database file after a clean stop, but %d writes were acknowledged", len(ends), len(p.Sizes)+int(acked))
		}
	}
	return o
}

// replicaEquals starts a replica of an idle master and compares.
func replicaEquals(s *srv, m *model.Store, keys []string) error {
	r, err := start(opts{db: dbName, master: s.replicaAddr()})
	if err != nil {
		return err
	}
	defer r.end()
	c, err := r.dial()
	if err != nil {
		return err
	}
	defer c.close()
	if err := c.dump(m, keys); err != nil {
		return err
	}
	return r.stop(sig(0))
}

func TestC14(t *testing.T) {
	h.Plan(3.9)
	h.Check(t, "C14", h.Prop[scarcePlan]{
		Name:  "scarce",
		Rule:  "a master that may open 20 to 80 files, and one to three times in a row more connections to its ports than that, held while commands go on; when they are gone a replica has the master's data, and so has the restarted master; non-trivial when the files ran out",
		Cases: 40, Weight: 0.2, Gen: genScarcePlan, Run: runScarcePlan, Shrink: 40 * time.Second,
		Fixed: []scarcePlan{{Files: 30, Cmds: []gen.Cmd{{"set", "a", "1"}}, Rounds: []scarceRound{{Clients: 60, Replicas: 2, Ms: 20}}}},
	})
	h.Check(t, "C14", h.Prop[hugePlan]{
		Name:  "huge",
		Rule:  "a master with 1 or 2 lives of 1 or 2 bursts each of 2^15, 2^16 or 2^17 small records (or a few more), one record as wide, or one of up to 40 MB, and two replicas in each life, with another write between them; the data of each and the master's compared with the model; all are non-trivial",
		Cases: 1, Weight: 0.3, Gen: genHugePlan, Run: runHugeReplicaPlan, Shrink: 15 * time.Second,
	})
	h.Check(t, "C14", h.Prop[agedReplicaPlan]{
		Name:  "aged",
		Rule:  "3 to 6 masters that live for up to 40 seconds, with quiet times of 0.1 to 31 seconds between bursts of commands, and replicas started at any age, which have the master's data; besides, transfers of up to 24 MB that are read with pauses of up to 12.5 seconds, or sent so to a replica; all are non-trivial",
		Cases: 1, Weight: 0.4, Gen: genAgedReplicaPlan, Run: runAgedReplicaPlan, Shrink: time.Second,
	})
	h.Check(t, "C14", h.Prop[wirePlan]{
		Name:  "wire",
		Rule:  "1 to 20 raw transfers (100 to a server that may open 60 files), one after the other or at once, while writes go on: length and data agree, no record is cut, everything acknowledged before is in it, it ends; the writes are undisturbed; all are non-trivial",
		Cases: 100, Weight: 0.8, Run: runWirePlan, Retries: 10,
		Gen: func(t *rapid.T) wirePlan {
			return wirePlan{Sizes: rapid.SliceOfN(gen.SizedG(3000000, 0, 1, 100, 4000, 4096, 70000, 1000000), 0, 4).Draw(t, "sizes"), Attach: rapid.IntRange(1, 20).Draw(t, "attach"),
				Parallel: rapid.Bool().Draw(t, "parallel"), Slow: rapid.IntRange(0, 3).Draw(t, "slow") == 0, NoFile: rapid.IntRange(0, 9).Draw(t, "nofile") == 0, Files: rapid.SampledFrom([]int{0, 0, 0, 120}).Draw(t, "files")}
		},
		Fixed: []wirePlan{{Attach: 100, Files: 60}, {Attach: 60, Files: 60, NoFile: true}, {Attach: 2}, {Attach: 2, NoFile: true}},
	})
	h.Check(t, "C14", h.Prop[streamPlan]{
		Name:  "cut",
		Rule:  "a master's stream, complete or cut at any byte, sent in pieces with pauses, closed or reset, to a receiver and to a whole server: all or nothing, an error for every cut, the server works on; non-trivial when the stream has data",
		Cases: 150, Weight: 1, Gen: genStreamPlan, Run: runStreamPlan,
		Fixed: []streamPlan{{Cmds: []gen.Cmd{{"set", "a", "1"}, {"rpush", "b", "x"}}, Cuts: []streamCut{{Byte: 0, Chunks: []int{1}, Server: true}, {Byte: 3, Chunks: []int{1}, Server: true}, {Byte: 4, Chunks: []int{1}}, {Byte: 4, Chunks: []int{4}, Server: true}, {Byte: 0, Back: true, Chunks: []int{9}, Server: true}, {Mille: 1000, Byte: -1, Chunks: []int{1}, PauseU: 100, Server: true}}}},
	})
	h.Check(t, "C14", h.Prop[replicaPlan]{
		Name:  "replicas",
		Rule:  "1 to 3 servers started with an empty database file against a master with up to 50 commands of history (some from an earlier run, some values of up to 3 MB), while up to 40 more commands run and other connections to the replication port misbehave; each replica has a state the master had at or after its start, and the master is undisturbed and restarts the same; non-trivial when there is data",
		Cases: 200, Weight: 1.2, Gen: genReplicaPlan, Run: runReplicaPlan, Retries: 10,
		Fixed: []replicaPlan{{N: 1, Pipe: 1}, {N: 2, Pipe: 1, Cmds: []gen.Cmd{{"set", "a", "1"}, {"rpush", "b", "x", "y"}, {"spop", "a"}}, Rude: []rudeAttach{{Read: -1}, {Read: 0, Reset: true}, {Read: 5}, {Read: 5000}}, RudeAt: 2, Pads: 3000000}},
	})
}
