package sys

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/model"
	"vertexverif/resp"
)

// ---- C15: each session its own replies, in order ----

type session struct {
	Cmds   []gen.Cmd
	Rep    int   // the commands are sent this many times
	Chunks []int // sizes of the pieces the bytes are sent in; empty: request by request, waiting for each reply
	PauseU int   // between pieces, now and then
	Drop   bool  // ends without reading the second half of its replies
	Odd    []odd // in between
}

// odd is a request that is no command; its reply is an error.
type odd struct{ Every, Kind int }

var odds = []resp.Value{resp.Simple("get"), resp.Int(7), resp.Bulk("get"), resp.NullBulk(), resp.Array(), resp.Array(resp.Array(resp.Bulk("get"), resp.Bulk("a"))),
	resp.Error("ERR"), resp.Bulk(strings.Repeat("x", 2000)), resp.Array(resp.Int(1), resp.Bulk("a")), resp.Array(resp.NullBulk())}

// request is a command, or an odd request.
type request struct {
	cmd []string
	odd *resp.Value
}

func (r request) encode() []byte {
	if r.odd != nil {
		return r.odd.Encode()
	}
	return resp.Bulks(r.cmd).Encode()
}

func (r request) String() string {
	if r.odd != nil {
		return h.Short(r.odd.String(), 60)
	}
	return model.Cmd(r.cmd)
}

func (r request) check(m *model.Store, v resp.Value) error {
	if r.odd == nil {
		return m.Step(r.cmd, v)
	}
	if !v.IsErr() {
		return fmt.Errorf("%s, which is no command: the reply is %s", r, h.Short(v.String(), 60))
	}
	return nil
}

type sessionsPlan struct {
	Setup    setup
	Sessions []session
	Waves    int // the sessions come in this many waves, each on new connections
}

func genSessionsPlan(t *rapid.T) sessionsPlan {
	o := gen.Opt{Keys: []gen.B{"a", "b"}, InRangeTrim: true, Value: func(t *rapid.T, l string) gen.B {
		if rapid.IntRange(0, 15).Draw(t, "big") == 0 {
			return gen.Long(t, l)
		}
		return gen.Small(t, l)
	}}
	f := func(o gen.Opt, t *rapid.T) gen.Cmd {
		c := o.AnyCmd(t)
		if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
			c = o.Malformed(t, c)
		}
		return c
	}
	sess := rapid.Custom(func(t *rapid.T) session {
		o := o.Swarm(t)
		return session{
			Cmds:   gen.Bursts(t, func(t *rapid.T) gen.Cmd { return f(o, t) }, 1, 40),
			Rep:    gen.Sized(t, "rep", 1000, 1, 1, 1, 3, 20, 60),
			Chunks: rapid.SliceOfN(gen.SizedG(2000000, 1, 2, 3, 5, 17, 64, 1000, 4096, 65536, 1<<20), 0, 4).Draw(t, "chunks"),
			PauseU: rapid.SampledFrom([]int{0, 0, 0, 50, 1000}).Draw(t, "pause"),
			Drop:   rapid.IntRange(0, 7).Draw(t, "drop") == 0,
			Odd: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) odd {
				return odd{rapid.SampledFrom([]int{1, 2, 3, 7, 20, 50, 300}).Draw(t, "every"), rapid.IntRange(0, len(odds)-1).Draw(t, "kind")}
			}), 0, rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "maxodd")).Draw(t, "odd"),
		}
	})
	fit := rapid.Custom(func(t *rapid.T) session {
		s := sess.Draw(t, "session")
		if s.Rep > 60 { // few commands, very often
			s.Cmds = s.Cmds[:min(len(s.Cmds), 3)]
		}
		s.Rep = max(1, min(s.Rep, 5000/max(1, len(s.Cmds))))
		return s
	})
	return sessionsPlan{Setup: genSetup(t), Sessions: rapid.SliceOfN(fit, rapid.SampledFrom([]int{1, 2, 6}).Draw(t, "min"), 16).Draw(t, "sessions"), Waves: rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "waves")}
}

// own makes a command work on keys of its session only; values say whose they are.
func own(cmd gen.Cmd, id int) []string {
	args := cmd.Args()
	pre := fmt.Sprintf("s%d:", id)
	name := strings.ToLower(args[0])
	for i := 1; i < len(args); i++ {
		switch name {
		case "mget", "exists", "sdiff", "sinter", "sunion":
			args[i] = pre + args[i]
		case "mset":
			if i%2 == 1 {
				args[i] = pre + args[i]
			}
		default:
			if i == 1 {
				args[i] = pre + args[i]
			}
		}
	}
	if (name == "set" || name == "lpush" || name == "rpush" || name == "sadd") && len(args) > 2 && len(args[2]) > 0 && len(args[2])%3 == 0 {
		args[2] = pre + args[2]
	}
	return args
}

// runSession plays one session on a connection.
func runSession(c *client, m *model.Store, sess session, id int) (int, error) {
	var cmds []request
	for r := 0; r < max(sess.Rep, 1); r++ {
		for _, x := range sess.Cmds {
			cmds = append(cmds, request{cmd: own(x, id)})
			for _, x := range sess.Odd {
				if len(cmds)%max(x.Every, 1) == 0 {
					cmds = append(cmds, request{odd: &odds[x.Kind%len(odds)]})
				}
			}
		}
	}
	if len(sess.Chunks) == 0 {
		if len(cmds) > 120 {
			cmds = cmds[:120]
		}
		for i, cmd := range cmds {
			err := c.send(cmd.encode())
			var v resp.Value
			if err == nil {
				v, err = c.recv()
			}
			if err != nil {
				return i, fmt.Errorf("request %d, %s: %w", i, cmd, err)
			}
			if err := cmd.check(m, v); err != nil {
				return i, fmt.Errorf("request %d: %w", i, err)
			}
		}
		return len(cmds), nil
	}
	var b []byte
	for _, cmd := range cmds {
		b = append(b, cmd.encode()...)
	}
	expect := len(cmds)
	if sess.Drop {
		expect /= 2
	}
	errc := make(chan error, 1)
	go func() {
		errc <- func() error {
			rest := b
			small := 0
			for i := 0; len(rest) > 0; i++ {
				n := min(max(sess.Chunks[i%len(sess.Chunks)], 1), len(rest))
				if small > 1500 {
					n = len(rest)
				}
				if n < 100 {
					small++
				}
				_ = c.c.SetWriteDeadline(time.Now().Add(patience))
				if _, err := c.c.Write(rest[:n]); err != nil {
					return err
				}
				rest = rest[n:]
				if sess.PauseU > 0 && i < 12 {
					time.Sleep(time.Duration(sess.PauseU) * time.Microsecond)
				}
			}
			return nil
		}()
	}()
	for i := 0; i < expect; i++ {
		v, err := c.recv()
		if err != nil {
			return i, fmt.Errorf("reply %d of %d, to %s: %w", i, len(cmds), cmds[i], err)
		}
		if err := cmds[i].check(m, v); err != nil {
			return i, fmt.Errorf("reply %d of %d: %w", i, len(cmds), err)
		}
	}
	if sess.Drop {
		c.close()
		<-errc
		return expect, nil
	}
	if err := <-errc; err != nil {
		return expect, c.explain(err)
	}
	return expect, nil
}

func runSessionsPlan(p sessionsPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	models := map[int]*model.Store{}
	for wave := 0; wave < max(p.Waves, 1); wave++ {
		var wg sync.WaitGroup
		errs := make(chan error, len(p.Sessions))
		var mu sync.Mutex
		gate := make(chan struct{})
		for id, sess := range p.Sessions {
			c, err := s.dial()
			if err != nil {
				return h.Fail("%v", err)
			}
			defer c.close()
			m := models[id]
			if m == nil {
				m = model.New()
				models[id] = m
			}
			if sess.Drop && wave > 0 {
				continue // what of its requests was executed is open
			}
			wg.Add(1)
			go func(id int, sess session) {
				defer wg.Done()
				<-gate
				n, err := runSession(c, m, sess, id)
				mu.Lock()
				o.Steps += n
				mu.Unlock()
				if err == nil && !sess.Drop {
					// nothing more comes than was asked for, and the next reply is the right one
					mark := fmt.Sprintf("mark of session %d", id)
					if err = c.step(m, []string{"set", fmt.Sprintf("s%d:mark", id), mark}); err == nil {
						err = c.step(m, []string{"get", fmt.Sprintf("s%d:mark", id)})
					}
					if err != nil {
						err = fmt.Errorf("after all replies: %w", err)
					}
				}
				if err != nil {
					errs <- fmt.Errorf("session %d of %d: %w", id, len(p.Sessions), err)
				}
			}(id, sess)
		}
		close(gate)
		wg.Wait()
		select {
		case err := <-errs:
			return h.Fail("%v", err)
		default:
		}
	}
	if err := s.died(); err != nil {
		return h.Fail("%v", err)
	}
	for _, x := range p.Sessions {
		if len(x.Chunks) > 0 {
			o.Labels = append(o.Labels, "pipelined")
		}
		if x.Rep*len(x.Cmds) > 1100 && len(x.Chunks) > 0 {
			o.Labels = append(o.Labels, "more requests than can be pending")
		}
		if x.Drop {
			o.Labels = append(o.Labels, "dropped in the middle")
		}
		if len(x.Odd) > 0 {
			o.Labels = append(o.Labels, "requests that are no commands")
		}
	}
	o.NonTrivial = len(p.Sessions) > 1 || len(p.Sessions[0].Chunks) > 0
	return o
}

// floodPlan: very long pipelines of numbered echoes from many connections
type floodPlan struct {
	Conns, Count, Size int
	Late               bool // replies are only read after a pause
	Counters           bool `json:",omitempty"` // counters instead of lists
}

func runFloodPlan(p floodPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true}
	s, err := start(opts{})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	var wg sync.WaitGroup
	errs := make(chan error, 2*p.Conns)
	pad := strings.Repeat("x", p.Size)
	for i := 0; i < p.Conns; i++ {
		c, err := s.dial()
		if err != nil {
			return h.Fail("%v", err)
		}
		defer c.close()
		wg.Add(2)
		go func() {
			defer wg.Done()
			var b []byte
			if p.Counters {
				b = append(b, resp.Bulks([]string{"set", fmt.Sprint("n", i), "0"}).Encode()...)
			}
			for n := 0; n < p.Count; n++ {
				if p.Counters {
					b = append(b, resp.Bulks([]string{"incr", fmt.Sprint("n", i)}).Encode()...)
					b = append(b, resp.Bulks([]string{"append", fmt.Sprint("n", i), ""}).Encode()...)
					continue
				}
				b = append(b, resp.Bulks([]string{"rpush", fmt.Sprint("l", i), fmt.Sprintf("%d.%d", i, n)}).Encode()...)
				b = append(b, resp.Bulks([]string{"lindex", fmt.Sprint("l", i), "-1", pad}[:3]).Encode()...)
				if p.Size > 0 {
					b = append(b, resp.Bulks([]string{"set", fmt.Sprint("v", i), pad + fmt.Sprintf("%d.%d", i, n)}).Encode()...)
					b = append(b, resp.Bulks([]string{"get", fmt.Sprint("v", i)}).Encode()...)
				}
			}
			if err := c.send(b); err != nil {
				errs <- fmt.Errorf("connection %d: sending: %w", i, err)
			}
		}()
		go func() {
			defer wg.Done()
			if p.Late {
				time.Sleep(150 * time.Millisecond)
			}
			for n := 0; n < p.Count; n++ {
				want := []resp.Value{resp.Int(int64(n + 1)), resp.Bulk(fmt.Sprintf("%d.%d", i, n))}
				if p.Counters {
					want[1] = resp.Int(int64(len(fmt.Sprint(n + 1))))
					if n == 0 {
						want = append([]resp.Value{resp.Simple("OK")}, want...)
					}
				}
				if p.Size > 0 {
					want = append(want, resp.Simple("OK"), resp.Bulk(pad+fmt.Sprintf("%d.%d", i, n)))
				}
				for j, w := range want {
					v, err := c.recv()
					if err != nil {
						errs <- fmt.Errorf("connection %d of %d, reply %d.%d: %w", i, p.Conns, n, j, err)
						return
					}
					if !v.Equal(w) {
						errs <- fmt.Errorf("connection %d of %d, reply %d.%d is %s, not %s", i, p.Conns, n, j, h.Short(v.String(), 100), h.Short(w.String(), 100))
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return h.Fail("%v", err)
	default:
	}
	o.Steps = p.Conns * p.Count * 2
	return o
}

// stallPlan: a client that lets its replies wait for seconds before it reads
// them, while others go on
type stallPlan struct {
	Setup  setup
	Sizes  []int // of the values asked for, one after the other
	Total  int   // megabytes of replies asked for at once
	Pause  []int // milliseconds without reading, each followed by reading an equal share
	Others int
}

func genStallPlan(t *rapid.T) stallPlan {
	return stallPlan{Setup: genSetup(t), Sizes: rapid.SliceOfN(gen.SizedG(2000000, 0, 1, 100, 5000, 70000, 1<<20), 1, 5).Draw(t, "sizes"),
		Total: rapid.SampledFrom([]int{1, 12, 25}).Draw(t, "total"), Pause: rapid.SampledFrom([][]int{{6500}, {5500, 5500}, {3500, 1500, 11000}}).Draw(t, "pause"), Others: rapid.IntRange(0, 3).Draw(t, "others")}
}

func runStallPlan(p stallPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	val := func(i int) string { return strings.Repeat(fmt.Sprint(i), p.Sizes[i]) }
	for i := range p.Sizes {
		if v, err := c.do([]string{"set", fmt.Sprint("v", i), val(i)}); err != nil || v.Str != "OK" {
			return h.Fail("set: %v, %v", v, err)
		}
	}
	var req []byte
	n := 0
	for size := 0; size < p.Total<<20 && n < 4000; n++ {
		i := n % len(p.Sizes)
		req = append(req, resp.Bulks([]string{"get", fmt.Sprint("v", i)}).Encode()...)
		size += p.Sizes[i]
	}
	errc := make(chan error, 1)
	go func() {
		_ = c.c.SetWriteDeadline(time.Now().Add(2 * patience))
		_, err := c.c.Write(req)
		errc <- err
	}()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	others := make(chan error, p.Others)
	for k := 0; k < p.Others; k++ {
		x, err := s.dial()
		if err != nil {
			return h.Fail("%v", err)
		}
		defer x.close()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 1; ; j++ {
				select {
				case <-stop:
					return
				case <-time.After(200 * time.Millisecond):
				}
				v, err := x.do([]string{"append", fmt.Sprint("other", k), "x"})
				if err == nil && !v.Equal(resp.Int(int64(j))) {
					err = fmt.Errorf("reply %s, not %d", v, j)
				}
				if err != nil {
					others <- fmt.Errorf("while a client does not read its replies, request %d of another: %w", j, err)
					return
				}
			}
		}()
	}
	bad := func() error {
		read := 0
		for k, ms := range p.Pause {
			time.Sleep(time.Duration(ms) * time.Millisecond)
			for ; read < n*(k+1)/len(p.Pause); read++ {
				v, err := c.recv()
				if err != nil {
					return fmt.Errorf("reply %d of %d, read after pauses of %v ms: %w", read, n, p.Pause[:k+1], err)
				}
				if !v.Equal(resp.Bulk(val(read % len(p.Sizes)))) {
					return fmt.Errorf("reply %d of %d, read after pauses of %v ms, is %s", read, n, p.Pause[:k+1], h.Short(v.String(), 100))
				}
			}
		}
		if err := <-errc; err != nil {
			return c.explain(err)
		}
		v, err := c.do([]string{"strlen", "v0"})
		if err == nil && !v.Equal(resp.Int(int64(p.Sizes[0]))) {
			err = fmt.Errorf("the reply is %s", v)
		}
		if err != nil {
			return fmt.Errorf("the next request: %w", err)
		}
		return nil
	}()
	close(stop)
	wg.Wait()
	select {
	case err := <-others:
		return h.Fail("%v", err)
	default:
	}
	if bad != nil {
		return h.Fail("%v", bad)
	}
	o.Steps = n
	return o
}

func TestC15(t *testing.T) {
	h.Plan(3.2)
	h.Check(t, "C15", h.Prop[floodPlan]{
		Name:  "huge",
		Rule:  "1 to 3 connections each sending more than 2^15, 2^16 or 2^17 pairs of numbered requests in one go; every reply is the one of its request; all are non-trivial",
		Cases: 1, Weight: 0.2, Run: runFloodPlan, Retries: 3, Shrink: 15 * time.Second,
		Gen: func(t *rapid.T) floodPlan {
			return floodPlan{Conns: rapid.IntRange(1, 3).Draw(t, "conns"), Count: gen.HugeSize(t), Counters: true, Late: rapid.Bool().Draw(t, "late")}
		},
	})
	h.Check(t, "C15", h.Prop[slowPlan]{
		Name:  "slow",
		Rule:  "20 to 60 clients at once whose requests come in up to seven pieces with pauses of up to 12.5 seconds between them; each gets its replies; all are non-trivial",
		Cases: 1, Weight: 0.3, Run: runSlowPlan, Gen: genSlowPlan, Shrink: time.Second,
	})
	h.Check(t, "C15", h.Prop[returnPlan]{
		Name:  "return",
		Rule:  "1 to 5 clients that send up to 1500 requests, leave at any time (by RST or close) and come back from the same port up to ten times; every reply read is one to a request of the same visit; non-trivial when a port was used again",
		Cases: 40, Weight: 0.3, Run: runReturnPlan, Gen: genReturnPlan, Retries: 20,
	})
	h.Check(t, "C15", h.Prop[stallPlan]{
		Name:  "stalled",
		Rule:  "a client asks for up to 25 MB of replies and leaves them unread for 5 to 15 seconds in one to three pauses while up to three others go on; all replies come, in order, and the others get theirs in the meantime; all are non-trivial",
		Cases: 1, Weight: 0.4, Run: runStallPlan, Gen: genStallPlan,
	})
	h.Check(t, "C15", h.Prop[floodPlan]{
		Name:  "long",
		Rule:  "1 to 40 connections each sending up to 6000 numbered requests in one go, replies read at once or late; every reply is the one of its request; all are non-trivial",
		Cases: 60, Weight: 0.8, Run: runFloodPlan, Retries: 10,
		Gen: func(t *rapid.T) floodPlan {
			p := floodPlan{Conns: gen.Sized(t, "conns", 400, 1, 2, 4, 12, 40), Count: gen.Sized(t, "count", 12000, 10, 300, 600, 1500, 3000),
				Size: gen.Sized(t, "size", 300000, 0, 0, 10, 500), Late: rapid.Bool().Draw(t, "late")}
			p.Count = min(p.Count, max(5, 120000/p.Conns))
			p.Size = min(p.Size, 60<<20/(p.Conns*p.Count))
			return p
		},
		Fixed: []floodPlan{{Conns: 2, Count: 3000}},
	})
	h.Check(t, "C15", h.Prop[sessionsPlan]{
		Name:  "sessions",
		Rule:  "1 to 16 simultaneous sessions of up to 2400 commands each on keys of their own, request by request or pipelined in pieces of any size with pauses, some of them leaving in the middle or sending requests that are no commands in between, in one or two waves of connections; each session's replies are those of its own model in order; non-trivial when there are several sessions or one is pipelined",
		Cases: 200, Weight: 1.2, Gen: genSessionsPlan, Run: runSessionsPlan, Retries: 20,
		Fixed: []sessionsPlan{{Sessions: []session{{Cmds: []gen.Cmd{{"incr", "n"}, {"get", "n"}}, Rep: 300, Chunks: []int{1 << 20}, Odd: []odd{{20, 0}, {7, 4}}}, {Cmds: []gen.Cmd{{"incr", "n"}}, Rep: 50, Odd: []odd{{2, 1}}}}}},
	})
}

// ---- C16: linearizability ----

type linPlan struct {
	Setup   setup
	Init    []gen.Cmd
	Clients [][]gen.Cmd
	Pipe    bool // batches of requests in one go; they overlap themselves in program order
}

func genLinPlan(t *rapid.T) linPlan {
	keys := gen.FewKeys[:rapid.IntRange(1, 3).Draw(t, "keys")]
	o := gen.Opt{Keys: keys, Value: func(t *rapid.T, l string) gen.B {
		return rapid.SampledFrom([]gen.B{"1", "2", "a", "b", "c", "3"}).Draw(t, l)
	}, InRangeTrim: true}
	fam := rapid.IntRange(0, 6).Draw(t, "mix")
	f := func(t *rapid.T) gen.Cmd {
		switch fam {
		case 0:
			return o.CounterCmd(t)
		case 1:
			return o.ListCmd(t)
		case 2:
			return o.SetCmd(t)
		case 3:
			return o.HashCmd(t)
		case 4: // several keys at once
			switch rapid.IntRange(0, 3).Draw(t, "multi") {
			case 0, 1:
				v := o.Value(t, "v")
				c := gen.Cmd{"mset"}
				for _, k := range keys {
					c = append(c, k, v)
				}
				return c
			case 2:
				return append(gen.Cmd{"mget"}, keys...)
			}
			return o.StringCmd(t)
		case 5: // queues
			switch rapid.IntRange(0, 3).Draw(t, "queue") {
			case 0:
				return gen.Cmd{"rpush", keys[0], o.Value(t, "v"), o.Value(t, "w")}
			case 1:
				return gen.Cmd{"lpop", keys[0]}
			case 2:
				return gen.Cmd{"rpop", keys[0]}
			}
			return gen.Cmd{"lrange", keys[0], "0", "-1"}
		}
		return o.AnyCmd(t)
	}
	p := linPlan{Setup: genSetup(t), Pipe: rapid.IntRange(0, 2).Draw(t, "pipe") == 0}
	p.Init = gen.Seq(t, f, 0, 6)
	n := rapid.IntRange(2, 6).Draw(t, "clients")
	for i := 0; i < n; i++ {
		p.Clients = append(p.Clients, gen.Seq(t, f, 1, 24))
	}
	return p
}

type linIn struct{ args []string }

var linModel = porcupine.Model{
	Init: func() interface{} { return model.New() },
	Step: func(state, in, out interface{}) (bool, interface{}) {
		m := state.(*model.Store).Clone()
		if err := m.Step(in.(linIn).args, out.(resp.Value)); err != nil {
			return false, state
		}
		if _, amb := m.NeedsResync(); amb {
			return false, state
		}
		return true, m
	},
	Equal: func(a, b interface{}) bool {
		return a.(*model.Store).Fingerprint() == b.(*model.Store).Fingerprint()
	},
	DescribeOperation: func(in, out interface{}) string {
		return model.Cmd(in.(linIn).args) + " -> " + out.(resp.Value).String()
	},
}

func runLinPlan(p linPlan) h.Outcome {
	o := h.Outcome{}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	var mu sync.Mutex
	var ops []porcupine.Operation
	begin := time.Now()
	clock := func() int64 { return int64(time.Since(begin)) }
	run := func(id int, c *client, cmds []gen.Cmd) error {
		var mine []porcupine.Operation
		for _, cmd := range cmds {
			args := cmd.Args()
			call := clock()
			v, err := c.do(args)
			if err != nil {
				return fmt.Errorf("client %d, %s: %w", id, model.Cmd(args), err)
			}
			mine = append(mine, porcupine.Operation{ClientId: id, Input: linIn{args}, Call: call, Output: v, Return: clock()})
		}
		mu.Lock()
		ops = append(ops, mine...)
		mu.Unlock()
		return nil
	}
	c0, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c0.close()
	if err := run(0, c0, p.Init); err != nil {
		return h.Fail("%v", err)
	}
	var wg sync.WaitGroup
	errs := make(chan error, len(p.Clients))
	gate := make(chan struct{})
	for i, cmds := range p.Clients {
		c, err := s.dial()
		if err != nil {
			return h.Fail("%v", err)
		}
		defer c.close()
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			if err := run(i+1, c, cmds); err != nil {
				errs <- err
			}
		}()
	}
	close(gate)
	wg.Wait()
	select {
	case err := <-errs:
		return h.Fail("%v", err)
	default:
	}
	// and a last look by one client
	var last []gen.Cmd
	for _, cmd := range model.DumpCommands([]string{"a", "b", "c"}) {
		if cmd[0] == "llen" || cmd[0] == "exists" {
			continue
		}
		var g gen.Cmd
		for _, a := range cmd {
			g = append(g, gen.B(a))
		}
		last = append(last, g)
	}
	if err := run(0, c0, last); err != nil {
		return h.Fail("%v", err)
	}
	o.Steps = len(ops)
	overlap := false
	for i := range ops {
		for j := range ops {
			if i != j && ops[i].ClientId != ops[j].ClientId && ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
				overlap = true
			}
		}
	}
	o.NonTrivial = overlap
	if overlap {
		o.Labels = append(o.Labels, "overlapping")
	}
	switch porcupine.CheckOperationsTimeout(linModel, ops, 20*time.Second) {
	case porcupine.Illegal:
		return h.Fail("no sequential order explains the replies:\n%s", describe(ops))
	case porcupine.Unknown:
		o.Labels = append(o.Labels, "not decided in time")
	}
	return o
}

func describe(ops []porcupine.Operation) string {
	var sb strings.Builder
	for _, op := range ops {
		fmt.Fprintf(&sb, "client %d [%d..%d] %s\n", op.ClientId, op.Call/1000, op.Return/1000, h.Short(linModel.DescribeOperation(op.Input, op.Output), 120))
	}
	return h.Short(sb.String(), 6000)
}

// ---- C16: invariants over long concurrent runs ----

type racePlan struct {
	Clients, Count, Pipe int
	Kind                 string
}

// runRacePlan runs many operations whose combined effect is known.
func runRacePlan(p racePlan) h.Outcome {
	o := h.Outcome{NonTrivial: p.Clients > 1, Steps: p.Clients * p.Count, Labels: []string{p.Kind}}
	s, err := start(opts{})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	c0, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c0.close()
	total := p.Clients * p.Count
	var init [][]string
	switch p.Kind {
	case "counter":
		init = [][]string{{"set", "n", "0"}}
	case "pop", "spop":
		var l, t []string
		for i := 0; i < total; i++ {
			l = append(l, fmt.Sprint(i))
		}
		t = append([]string{"sadd", "t"}, l...)
		init = [][]string{append([]string{"rpush", "l"}, l...), t}
	case "pair":
		init = [][]string{{"mset", "x", "0", "y", "0", "z", "0"}}
	case "swap":
		init = [][]string{{"rpush", "l", "a", "b", "c", "d"}}
	}
	for _, cmd := range init {
		if v, err := c0.do(cmd); err != nil || v.IsErr() {
			return h.Fail("%s: %s, %v", cmd[0], v, err)
		}
	}
	cmd := func(w, i int) []string {
		switch p.Kind {
		case "counter":
			return [][]string{{"incr", "n"}, {"incrby", "n", "2"}, {"decrby", "n", "-3"}}[i%3]
		case "pop":
			return []string{[]string{"lpop", "rpop"}[(w+i)%2], "l"}
		case "spop":
			return []string{"spop", "t"}
		case "push":
			return []string{"rpush", "l", fmt.Sprintf("%d.%d", w, i), fmt.Sprintf("%d.%d'", w, i)}
		case "pair":
			if w%2 == 0 {
				x := fmt.Sprintf("%d.%d", w, i)
				return []string{"mset", "x", x, "y", x, "z", x}
			}
			return []string{"mget", "x", "y", "z"}
		case "append":
			return []string{"append", "s", fmt.Sprintf("<%d.%d>", w, i)}
		case "sadd":
			return []string{"sadd", "t", fmt.Sprint(i)}
		case "swap": // the list has four items whenever nobody is in the middle of a command
			if w%2 == 0 {
				return []string{"lset", "l", fmt.Sprint(i % 4), fmt.Sprint(w, i)}
			}
			return []string{"lrange", "l", "0", "-1"}
		}
		return nil
	}
	replies := make([][]resp.Value, p.Clients)
	var wg sync.WaitGroup
	errs := make(chan error, 2*p.Clients)
	gate := make(chan struct{})
	for w := 0; w < p.Clients; w++ {
		c, err := s.dial()
		if err != nil {
			return h.Fail("%v", err)
		}
		defer c.close()
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for at := 0; at < p.Count; at += p.Pipe {
				n := min(p.Pipe, p.Count-at)
				var b []byte
				for i := at; i < at+n; i++ {
					b = append(b, resp.Bulks(cmd(w, i)).Encode()...)
				}
				if err := c.send(b); err != nil {
					errs <- err
					return
				}
				for i := 0; i < n; i++ {
					v, err := c.recv()
					if err != nil {
						errs <- err
						return
					}
					if v.IsErr() {
						errs <- fmt.Errorf("%s: reply %s", model.Cmd(cmd(w, at+i)), v)
						return
					}
					replies[w] = append(replies[w], v)
				}
			}
		}()
	}
	close(gate)
	wg.Wait()
	select {
	case err := <-errs:
		return h.Fail("%v", err)
	default:
	}
	ask := func(args ...string) resp.Value {
		v, err := c0.do(args)
		if err != nil {
			return resp.Error(err.Error())
		}
		return v
	}
	// distinct checks that all integer replies differ and, per client, grow
	distinct := func() error {
		seen := map[int64]bool{}
		for w, vs := range replies {
			last := int64(-1 << 62)
			for i, v := range vs {
				if seen[v.Int] {
					return fmt.Errorf("two operations got the same reply %d", v.Int)
				}
				if v.Int <= last {
					return fmt.Errorf("client %d got %d after %d (operation %d)", w, v.Int, last, i)
				}
				seen[v.Int], last = true, v.Int
			}
		}
		return nil
	}
	switch p.Kind {
	case "counter":
		want := 0
		for i := 0; i < p.Count; i++ {
			want += []int{1, 2, 3}[i%3] * p.Clients
		}
		if v := ask("get", "n"); v.Str != fmt.Sprint(want) {
			return h.Fail("%d clients added %d in all, the counter is %s", p.Clients, want, v)
		}
		if err := distinct(); err != nil {
			return h.Fail("counter: %v", err)
		}
	case "pop", "spop":
		seen := map[string]bool{}
		for _, vs := range replies {
			for _, v := range vs {
				for v.Kind == '*' && len(v.Arr) == 1 {
					v = v.Arr[0]
				}
				if v.Null || v.Kind != '$' {
					return h.Fail("%s of %d items by %d clients: reply %s although items are left", p.Kind, total, p.Clients, v)
				}
				if seen[v.Str] {
					return h.Fail("%s: %s was popped twice", p.Kind, v.Str)
				}
				seen[v.Str] = true
			}
		}
		k := map[string][]string{"pop": {"llen", "l"}, "spop": {"scard", "t"}}[p.Kind]
		if v := ask(k...); v.Kind != ':' || v.Int != 0 {
			return h.Fail("%s: %s items are left", p.Kind, v)
		}
	case "push":
		if err := distinct(); err != nil {
			return h.Fail("push: %v", err)
		}
		v := ask("lrange", "l", "0", "-1")
		if len(v.Arr) != 2*total {
			return h.Fail("push: %d items, not %d", len(v.Arr), 2*total)
		}
		next := make([]int, p.Clients)
		for i := 0; i+1 < len(v.Arr); i += 2 {
			var w, n int
			_, _ = fmt.Sscanf(v.Arr[i].Str, "%d.%d", &w, &n)
			if v.Arr[i+1].Str != v.Arr[i].Str+"'" {
				return h.Fail("push: %s is followed by %s: two commands mixed", v.Arr[i], v.Arr[i+1])
			}
			if next[w] != n {
				return h.Fail("push: number %d of client %d comes when its number %d is due", n, w, next[w])
			}
			if r := replies[w][n]; r.Int != int64(i+2) {
				return h.Fail("push: %s is at %d, but the reply was %s", v.Arr[i], i, r)
			}
			next[w]++
		}
	case "append":
		if err := distinct(); err != nil {
			return h.Fail("append: %v", err)
		}
		v := ask("get", "s")
		parts := strings.Split(strings.TrimSuffix(strings.TrimPrefix(v.Str, "<"), ">"), "><")
		if len(parts) != total {
			return h.Fail("append: %d parts, not %d", len(parts), total)
		}
		next := make([]int, p.Clients)
		for _, x := range parts {
			var w, n int
			_, _ = fmt.Sscanf(x, "%d.%d", &w, &n)
			if w < 0 || w >= p.Clients || next[w] != n {
				return h.Fail("append: part %q out of order", x)
			}
			next[w]++
		}
	case "sadd":
		sum := int64(0)
		for _, vs := range replies {
			for _, v := range vs {
				sum += v.Int
			}
		}
		if v := ask("scard", "t"); v.Int != int64(p.Count) || sum != int64(p.Count) {
			return h.Fail("sadd: %d members were added by %d clients, %d additions reported, scard is %s", p.Count, p.Clients, sum, v)
		}
	case "pair":
		for w, vs := range replies {
			for _, v := range vs {
				if w%2 == 1 && (len(v.Arr) != 3 || v.Arr[0].Str != v.Arr[1].Str || v.Arr[1].Str != v.Arr[2].Str) {
					return h.Fail("mget saw a half-applied mset: %s", v)
				}
			}
		}
	case "swap":
		for w, vs := range replies {
			for _, v := range vs {
				if w%2 == 1 && len(v.Arr) != 4 {
					return h.Fail("lrange during lset shows %s", v)
				}
			}
		}
	}
	return o
}

func TestC16(t *testing.T) {
	h.Plan(2)
	h.Check(t, "C16", h.Prop[racePlan]{
		Name:  "invariants",
		Rule:  "2 to 12 clients doing up to 400 operations each whose combined effect is known: no lost update, no double pop, no mixed or half-applied command, replies unique and growing; all are non-trivial",
		Cases: 100, Weight: 0.8, Run: runRacePlan, Retries: 20,
		Gen: func(t *rapid.T) racePlan {
			return racePlan{Clients: rapid.IntRange(2, 12).Draw(t, "clients"), Count: gen.Sized(t, "count", 3000, 10, 50, 150, 400), Pipe: rapid.SampledFrom([]int{1, 1, 5, 50}).Draw(t, "pipe"),
				Kind: rapid.SampledFrom([]string{"counter", "pop", "spop", "push", "pair", "append", "sadd", "swap"}).Draw(t, "kind")}
		},
	})
	h.Check(t, "C16", h.Prop[linPlan]{
		Name:  "linearizable",
		Rule:  "2 to 6 clients each executing up to 24 commands on one to three shared keys (mixed families, or counters, lists, sets, hashes, multi-key commands, queues), then a read of everything; porcupine searches an order against the model; non-trivial when commands overlapped in time",
		Cases: 250, Weight: 1.2, Gen: genLinPlan, Run: runLinPlan, Retries: 30,
	})
}

// ---- C17: bad clients ----

type badClient struct {
	Kind  string
	Bytes h.Bytes
	Frag  int // sends in pieces of this size, 0 for all at once
	Reset bool
	Ms    int // when it ends, after it has sent
}

type badPlan struct {
	Setup setup
	Bad   []badClient
	Good  []session
	After int
}

// genGarbage draws bytes that no RESP value starts with, or that break off a value in a way
// nothing can repair. The protocol comes in lines, so they end with a line break.
func genGarbage(t *rapid.T) h.Bytes { return genGarbageText(t) + "\r\n" }

func genGarbageText(t *rapid.T) h.Bytes {
	switch rapid.IntRange(0, 5).Draw(t, "garbage") {
	case 0:
		return rapid.SampledFrom([]h.Bytes{"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "ping\r\n", "\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "!", "set a b\r\n", "\x00", "quit"}).Draw(t, "text")
	case 1: // an unknown type inside an array
		return h.Bytes("*2\r\n$3\r\nget\r\n") + rapid.SampledFrom([]h.Bytes{"a", "!", "3\r\n", "\r\n", "\x00"}).Draw(t, "el")
	case 2: // malformed lengths and numbers
		return rapid.SampledFrom([]h.Bytes{"*x\r\n", "*-5\r\n", "$-7\r\nabc\r\n", "$abc\r\n", ":12a\r\n", "*1\r\n$x\r\n", "*1\r\n:\r\n", "$9999999999999999999\r\n", "*1\r\n$-2\r\n"}).Draw(t, "len")
	case 3: // bulk strings that do not end where they should
		return rapid.SampledFrom([]h.Bytes{"$3\r\nabcd\r\n", "*1\r\n$3\r\nabcdef\r\n", "$0\r\nxx", "*2\r\n$3\r\nget\r\n$1\r\nabc"}).Draw(t, "bulk")
	case 4:
		b := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "bytes")
		if strings.IndexByte("+-:$*", b[0]) >= 0 {
			b[0] = '!'
		}
		return h.Bytes(b)
	}
	return h.Bytes(resp.Bulks([]string{"set", "bad", "1"}).Encode()) + rapid.SampledFrom([]h.Bytes{"garbage", "\r\n", "!", "\xff"}).Draw(t, "tail")
}

func genBadPlan(t *rapid.T) badPlan {
	o := gen.Opt{Keys: []gen.B{"a", "b"}, InRangeTrim: true, Value: gen.Small}
	bad := rapid.Custom(func(t *rapid.T) badClient {
		b := badClient{Kind: rapid.SampledFrom([]string{"garbage", "garbage", "odd", "odd", "half", "gone", "flood", "silent", "half-stay", "hoard", "connect"}).Draw(t, "kind"),
			Frag: rapid.SampledFrom([]int{0, 0, 1, 3, 100}).Draw(t, "frag"), Reset: rapid.Bool().Draw(t, "reset"), Ms: rapid.SampledFrom([]int{0, 0, 1, 5, 30}).Draw(t, "ms")}
		switch b.Kind {
		case "garbage":
			b.Bytes = genGarbage(t)
		case "odd": // well-formed, but not what any command expects
			k := rapid.IntRange(1, 30).Draw(t, "requests")
			for i := 0; i < k; i++ {
				b.Bytes += h.Bytes(genOddRequest(t).value().Encode())
			}
		case "half", "half-stay":
			full := resp.Bulks(o.AnyCmd(t).Args()).Encode()
			n := rapid.IntRange(1, len(full)-1).Draw(t, "cut")
			b.Bytes = h.Bytes(full[:n])
		}
		return b
	})
	good := rapid.Custom(func(t *rapid.T) session {
		s := session{Cmds: gen.Seq(t, o.Swarm(t).AnyCmd, 3, 30), Rep: gen.Sized(t, "rep", 1000, 1, 3, 10),
			Chunks: rapid.SliceOfN(gen.SizedG(300000, 1, 50, 1000, 100000), 0, 2).Draw(t, "chunks")}
		s.Rep = max(1, min(s.Rep, 1000/len(s.Cmds)))
		return s
	})
	return badPlan{Setup: genSetup(t), Bad: rapid.SliceOfN(bad, 1, 12).Draw(t, "bad"), Good: rapid.SliceOfN(good, 1, 4).Draw(t, "good"), After: rapid.IntRange(0, 10).Draw(t, "after")}
}

func (b badClient) write(c net.Conn, data []byte) error {
	_ = c.SetWriteDeadline(time.Now().Add(patience))
	if b.Frag <= 0 || len(data) > 10000 {
		_, err := c.Write(data)
		return err
	}
	for len(data) > 0 {
		n := min(b.Frag, len(data))
		if _, err := c.Write(data[:n]); err != nil {
			return err
		}
		data = data[n:]
	}
	return nil
}

// end closes the connection, politely or not.
func (b badClient) end(c *net.TCPConn) {
	time.Sleep(time.Duration(b.Ms) * time.Millisecond)
	if b.Reset {
		_ = c.SetLinger(0)
	}
	_ = c.Close()
}

// run plays the bad client; what it returns is a violation on its own connection.
func (b badClient) run(s *srv, id int, done <-chan struct{}) error {
	nc, err := net.DialTimeout("tcp", s.addr(), patience)
	if err != nil {
		if d := s.died(); d != nil {
			return d
		}
		return fmt.Errorf("connect: %w", err)
	}
	c := nc.(*net.TCPConn)
	defer c.Close()
	list := fmt.Sprint("bad-list", id)
	switch b.Kind {
	case "garbage":
		// the server closes the connection, which may reset what is not read yet
		if err := b.write(c, []byte(b.Bytes)); err != nil {
			return nil
		}
		_ = c.SetReadDeadline(time.Now().Add(patience))
		if _, err := io.Copy(io.Discard, c); err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				return fmt.Errorf("a connection that sent %q, which is not RESP, is still open after %v", h.Short(string(b.Bytes), 100), patience)
			}
		}
		return nil
	case "odd":
		if err := b.write(c, []byte(b.Bytes)); err == nil {
			// until it has been dealt with, whatever the replies are
			_ = c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
			_, _ = io.Copy(io.Discard, c)
		}
		b.end(c)
	case "half", "connect":
		_ = b.write(c, []byte(b.Bytes))
		b.end(c)
	case "half-stay", "silent":
		_ = b.write(c, []byte(b.Bytes))
		<-done
		b.end(c)
	case "gone": // leaves before its replies
		var data []byte
		for i := 0; i < 50; i++ {
			data = append(data, resp.Bulks([]string{"rpush", list, fmt.Sprint(i)}).Encode()...)
			data = append(data, resp.Bulks([]string{"lrange", list, "0", "-1"}).Encode()...)
		}
		_ = b.write(c, data)
		b.end(c)
	case "flood", "hoard": // sends on and on, never reads
		big := strings.Repeat("x", 2000)
		if b.Kind == "hoard" {
			big = strings.Repeat("x", 60000)
		}
		data := resp.Bulks([]string{"set", list, big}).Encode()
		for i := 0; i < 200; i++ {
			data = append(data, resp.Bulks([]string{"get", list}).Encode()...)
		}
		go func() {
			<-done
			b.end(c)
		}()
		for i := 0; i < 40; i++ {
			_ = c.SetWriteDeadline(time.Now().Add(patience))
			if _, err := c.Write(data); err != nil {
				break
			}
		}
		<-done
	}
	return nil
}

func runBadPlan(p badPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true, Steps: len(p.Bad)}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	done := make(chan struct{})
	var bad, good sync.WaitGroup
	errs := make(chan error, len(p.Bad)+len(p.Good))
	var mu sync.Mutex
	for i, b := range p.Bad {
		bad.Add(1)
		o.Labels = append(o.Labels, b.Kind)
		go func() {
			defer bad.Done()
			if err := b.run(s, i, done); err != nil {
				errs <- fmt.Errorf("%s client: %w", b.Kind, err)
			}
		}()
	}
	for id, sess := range p.Good {
		good.Add(1)
		go func() {
			defer good.Done()
			c, err := s.dial()
			if err == nil {
				defer c.close()
				m := model.New()
				var n int
				n, err = runSession(c, m, sess, id)
				mu.Lock()
				o.Steps += n
				mu.Unlock()
				if err == nil {
					err = c.dump(m, []string{fmt.Sprintf("s%d:a", id), fmt.Sprintf("s%d:b", id)})
				}
			}
			if err != nil {
				errs <- fmt.Errorf("good client %d beside %d bad ones: %w", id, len(p.Bad), err)
			}
		}()
	}
	good.Wait()
	close(done)
	bad.Wait()
	select {
	case err := <-errs:
		return h.Fail("%v", err)
	default:
	}
	// a newcomer is served as well, and the server can still be stopped
	c, err := s.dial()
	if err != nil {
		return h.Fail("a connection after the bad clients: %v", err)
	}
	defer c.close()
	m := model.New()
	for i := 0; i < p.After+1; i++ {
		for _, cmd := range [][]string{{"rpush", "after", fmt.Sprint(i)}, {"lrange", "after", "0", "-1"}} {
			if err := c.step(m, cmd); err != nil {
				return h.Fail("a client after the bad ones: %v", err)
			}
		}
	}
	if err := s.died(); err != nil {
		return h.Fail("%v", err)
	}
	if err := s.stop(sig(0)); err != nil {
		return h.Fail("after the bad clients: %v", err)
	}
	return o
}

// manyPlan: very many connections of one kind
type manyPlan struct {
	Kind  string
	Count int
	Reset bool
	Hold  bool
	Files int // the server may have that many files open, 0 for plenty
}

// manyMax is how many connections are safe to open here.
func manyMax() int {
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l) != nil || l.Cur < 4000 {
		return 300
	}
	return 1200
}

func runManyPlan(p manyPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true, Steps: p.Count, Labels: []string{p.Kind}}
	s, err := start(opts{nofile: p.Files})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	if p.Files > 0 {
		o.Labels = append(o.Labels, "few files")
		if p.Hold {
			o.Labels = append(o.Labels, "exhausted files")
		}
	}
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	m := model.New()
	if err := c.step(m, []string{"llen", "l"}); err != nil { // it has been accepted
		return h.Fail("%v", err)
	}
	var held []net.Conn
	defer func() {
		for _, x := range held {
			_ = x.Close()
		}
	}()
	for i := 0; i < p.Count; i++ {
		nc, err := net.DialTimeout("tcp", s.addr(), patience)
		if err != nil {
			return h.Fail("connection %d: %v", i, err)
		}
		switch p.Kind {
		case "garbage":
			_, _ = nc.Write([]byte("garbage\r\n"))
		case "half":
			_, _ = nc.Write([]byte("*2\r\n$3\r\nget\r\n$100\r\nabc"))
		case "gone":
			_, _ = nc.Write(resp.Bulks([]string{"get", "x"}).Encode())
		}
		if p.Reset {
			_ = nc.(*net.TCPConn).SetLinger(0)
		}
		if p.Hold {
			held = append(held, nc)
		} else {
			_ = nc.Close()
		}
		if i%10 == 0 {
			if err := c.step(m, []string{"rpush", "l", fmt.Sprint(i)}); err != nil {
				return h.Fail("after %d connections (%s): %v", i+1, p.Kind, err)
			}
		}
	}
	if err := c.dump(m, []string{"l"}); err != nil {
		return h.Fail("after %d connections (%s): %v", p.Count, p.Kind, err)
	}
	// newcomers are served while the others are held, unless there is no room for them
	if p.Files > 0 {
		for _, x := range held {
			_ = x.Close()
		}
	}
	for i := 0; i < 2; i++ {
		d, err := s.dial()
		if err != nil {
			return h.Fail("a newcomer after %d connections (%s): %v", p.Count, p.Kind, err)
		}
		defer d.close()
		if err := d.step(m, []string{"rpush", "l", fmt.Sprint("new", i)}); err != nil {
			return h.Fail("a newcomer after %d connections (%s, held %v): %v", p.Count, p.Kind, p.Hold, err)
		}
	}
	if err := s.stop(sig(1)); err != nil {
		return h.Fail("after %d connections (%s): %v", p.Count, p.Kind, err)
	}
	return o
}

func TestC17(t *testing.T) {
	h.Plan(2)
	h.Check(t, "C17", h.Prop[manyPlan]{
		Name:  "many",
		Rule:  "up to 1200 connections that send garbage, half a request, a request whose reply they do not read, or nothing, closed, reset or held, to servers that may open any number or only 40 to 120 files, beside a model-checked client; all are non-trivial",
		Cases: 20, Weight: 0.4, Run: runManyPlan, Retries: 5,
		Gen: func(t *rapid.T) manyPlan {
			return manyPlan{Kind: rapid.SampledFrom([]string{"garbage", "half", "gone", "connect"}).Draw(t, "kind"), Count: gen.Sized(t, "count", manyMax(), 20, 100, 300, manyMax()), Reset: rapid.Bool().Draw(t, "reset"), Hold: rapid.Bool().Draw(t, "hold"), Files: rapid.SampledFrom([]int{0, 0, 40, 120}).Draw(t, "files")}
		},
		Fixed: []manyPlan{{Kind: "garbage", Count: 100, Files: 40}, {Kind: "half", Count: 100, Files: 40, Reset: true}, {Kind: "gone", Count: 100, Files: 40}, {Kind: "connect", Count: 100, Files: 40, Hold: true}},
	})
	h.Check(t, "C17", h.Prop[badPlan]{
		Name:  "bad",
		Rule:  "1 to 12 bad clients (garbage, well-formed requests that no command expects, half requests, leaving before the replies, floods that never read, silence; in pieces, ended politely or by reset) beside 1 to 4 model-checked clients, then a newcomer and a clean stop; garbage connections must be closed; all are non-trivial",
		Cases: 200, Weight: 1.6, Gen: genBadPlan, Run: runBadPlan, Retries: 10,
		Fixed: []badPlan{{Bad: []badClient{{Kind: "flood"}, {Kind: "hoard", Reset: true}, {Kind: "garbage", Bytes: "garbage\r\n"}, {Kind: "garbage", Bytes: "$-5\r\n"}, {Kind: "silent"}}, Good: []session{{Cmds: []gen.Cmd{{"set", "a", "1"}, {"get", "a"}}, Rep: 20, Chunks: []int{1 << 20}}}}},
	})
}
