package sys

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/model"
	"vertexverif/resp"
)

// hugePlan: histories far beyond what a counter, a length field or a buffer of
// the usual sizes takes: very many small records, very wide ones, very long
// ones, in any order.
type hugePlan struct {
	Lives [][]hugeStep
	Sig   int
}

type hugeStep struct {
	Kind int // 0 many small records, 1 a wide one, 2 a long one
	N    int
}

func genHugePlan(t *rapid.T) hugePlan {
	step := rapid.Custom(func(t *rapid.T) hugeStep {
		s := hugeStep{Kind: rapid.IntRange(0, 2).Draw(t, "kind")}
		switch s.Kind {
		case 2:
			s.N = gen.Sized(t, "bytes", 40<<20, 70000, 1<<20, 1<<22, 17<<20, 1<<24)
		default:
			s.N = gen.HugeSize(t)
		}
		return s
	})
	p := hugePlan{Sig: rapid.IntRange(0, 1).Draw(t, "sig")}
	for i := rapid.IntRange(1, 2).Draw(t, "lives"); i > 0; i-- {
		p.Lives = append(p.Lives, rapid.SliceOfN(step, 1, 2).Draw(t, "steps"))
	}
	return p
}

var hugeKeys = []string{"log", "n", "last", "h", "s", "wide", "wset", "long", "end"}

// hugeRun performs the steps on one connection, each pipelined, and follows
// them in m.
func hugeRun(c *client, m *model.Store, tag string, steps []hugeStep) error {
	for i, st := range steps {
		var cmds [][]string
		var want []resp.Value
		add := func(v resp.Value, args ...string) {
			cmds = append(cmds, args)
			want = append(want, v)
		}
		name := fmt.Sprintf("%s.%d", tag, i)
		if m.Hash["h"] == nil {
			m.Hash["h"] = map[string]string{}
			m.Set["s"] = map[string]struct{}{}
			m.Set["wset"] = map[string]struct{}{}
		}
		switch st.Kind {
		case 0:
			if m.Str["n"] == "" {
				m.Str["n"] = "0"
				add(resp.Simple("OK"), "set", "n", "0")
			}
			n, _ := strconv.Atoi(m.Str["n"])
			for j := 0; j < st.N; j++ {
				x := fmt.Sprintf("%s.%d", name, j)
				switch j % 5 {
				case 0:
					m.List["log"] = append(m.List["log"], x)
					add(resp.Int(int64(len(m.List["log"]))), "rpush", "log", x)
				case 1, 2:
					n++
					add(resp.Int(int64(n)), "incr", "n")
				case 3:
					m.Str["last"] = x
					add(resp.Simple("OK"), "set", "last", x)
				case 4:
					f := strconv.Itoa(j % 1000)
					created := int64(1)
					if _, ok := m.Hash["h"][f]; ok {
						created = 0
					}
					m.Hash["h"][f] = x
					add(resp.Int(created), "hset", "h", f, x)
				}
			}
			m.Str["n"] = strconv.Itoa(n)
		case 1:
			push, sadd := []string{"rpush", "wide"}, []string{"sadd", "wset"}
			for j := 0; j < st.N; j++ {
				x := strconv.Itoa(j)
				if j%7 == 0 {
					x = name + "." + x
				}
				push = append(push, x)
				sadd = append(sadd, x)
				m.List["wide"] = append(m.List["wide"], x)
			}
			before := len(m.Set["wset"])
			for _, x := range sadd[2:] {
				m.Set["wset"][x] = struct{}{}
			}
			add(resp.Int(int64(len(m.List["wide"]))), push...)
			add(resp.Int(int64(len(m.Set["wset"])-before)), sadd...)
		case 2:
			x := strings.Repeat(name+"-", st.N/(len(name)+1)+1)[:st.N]
			m.Str["long"] = x
			add(resp.Simple("OK"), "set", "long", x)
		}
		m.Str["end"] = name
		add(resp.Simple("OK"), "set", "end", name)
		var buf []byte
		for _, cmd := range cmds {
			buf = append(buf, resp.Bulks(cmd).Encode()...)
		}
		errc := make(chan error, 1)
		go func() { errc <- c.send(buf) }()
		for j, cmd := range cmds {
			v, err := c.recv()
			if err != nil {
				return fmt.Errorf("request %d of %d, %s: %w", j, len(cmds), h.Short(strings.Join(cmd[:2], " "), 50), err)
			}
			if !v.Equal(want[j]) {
				return fmt.Errorf("reply %d of %d, to %s: %s, not %s", j, len(cmds), h.Short(strings.Join(cmd[:2], " "), 50), h.Short(v.String(), 100), h.Short(want[j].String(), 100))
			}
		}
		if err := <-errc; err != nil {
			return err
		}
	}
	return nil
}

// hugeEquals reads everything back and compares.
func hugeEquals(c *client, m *model.Store) error {
	st, err := c.state(hugeKeys)
	if err != nil {
		return err
	}
	for _, k := range hugeKeys {
		if st.Str[k] != m.Str[k] {
			return fmt.Errorf("the string %s is %s (%d bytes), not %s (%d bytes)", k, h.Short(st.Str[k], 60), len(st.Str[k]), h.Short(m.Str[k], 60), len(m.Str[k]))
		}
		if len(st.List[k]) != len(m.List[k]) {
			return fmt.Errorf("the list %s has %d elements, not %d", k, len(st.List[k]), len(m.List[k]))
		}
		for i, x := range m.List[k] {
			if st.List[k][i] != x {
				return fmt.Errorf("element %d of the list %s is %s, not %s", i, k, h.Short(st.List[k][i], 60), x)
			}
		}
		if len(st.Hash[k]) != len(m.Hash[k]) || len(st.Set[k]) != len(m.Set[k]) {
			return fmt.Errorf("%s: %d fields and %d members, not %d and %d", k, len(st.Hash[k]), len(st.Set[k]), len(m.Hash[k]), len(m.Set[k]))
		}
		for f, x := range m.Hash[k] {
			if st.Hash[k][f] != x {
				return fmt.Errorf("field %s of %s is %s, not %s", f, k, h.Short(st.Hash[k][f], 60), x)
			}
		}
		for x := range m.Set[k] {
			if _, ok := st.Set[k][x]; !ok {
				return fmt.Errorf("%s is not in the set %s", x, k)
			}
		}
	}
	return nil
}

func (p hugePlan) steps() (n int) {
	for _, l := range p.Lives {
		for _, s := range l {
			if s.Kind == 0 {
				n += s.N
			} else {
				n += 2
			}
		}
	}
	return n
}

// runHugePlan: for C10, lives of one server with a restart after each.
func runHugePlan(p hugePlan) h.Outcome {
	o := h.Outcome{NonTrivial: true, Steps: p.steps()}
	dir := newDir()
	defer removeDir(dir)
	m := model.New()
	for run := 0; run <= len(p.Lives)+1; run++ {
		err := func() error {
			s, err := start(opts{dir: dir, db: dbName})
			if err != nil {
				return err
			}
			defer s.end()
			c, err := s.dial()
			if err != nil {
				return err
			}
			defer c.close()
			if run > 0 {
				if err := hugeEquals(c, m); err != nil {
					return fmt.Errorf("read back after the start: %w", err)
				}
			}
			if run < len(p.Lives) {
				if err := hugeRun(c, m, strconv.Itoa(run), p.Lives[run]); err != nil {
					return err
				}
			}
			return s.stop(sig(p.Sig + run))
		}()
		if err != nil {
			return h.Fail("run %d of the server on the same database file: %v", run, err)
		}
	}
	return o
}

// runHugeReplicaPlan: for C14, replicas of a master with such a history, made
// in its own time and in an earlier life.
func runHugeReplicaPlan(p hugePlan) h.Outcome {
	o := h.Outcome{NonTrivial: true, Steps: p.steps()}
	dir := newDir()
	defer removeDir(dir)
	m := model.New()
	for run := range p.Lives {
		err := func() error {
			s, err := start(opts{dir: dir, db: dbName, replica: true})
			if err != nil {
				return err
			}
			defer s.end()
			c, err := s.dial()
			if err != nil {
				return err
			}
			defer c.close()
			if err := hugeRun(c, m, strconv.Itoa(run), p.Lives[run]); err != nil {
				return err
			}
			for i := 0; i < 2; i++ {
				if err := hugeReplica(s, m); err != nil {
					return fmt.Errorf("replica %d: %w", i, err)
				}
				// a record of its own between them
				m.Str["end"] = fmt.Sprint("after ", i)
				if v, err := c.do([]string{"set", "end", m.Str["end"]}); err != nil || !v.Equal(resp.Simple("OK")) {
					return fmt.Errorf("set on the master after the transfer: %s, %v", v, err)
				}
			}
			if err := hugeEquals(c, m); err != nil {
				return fmt.Errorf("the master itself: %w", err)
			}
			return s.stop(sig(p.Sig + run))
		}()
		if err != nil {
			return h.Fail("run %d of the master: %v", run, err)
		}
	}
	return o
}

func hugeReplica(s *srv, m *model.Store) error {
	r, err := start(opts{db: dbName, master: s.replicaAddr()})
	if err != nil {
		return err
	}
	defer r.end()
	c, err := r.dial()
	if err != nil {
		return err
	}
	defer c.close()
	if err := hugeEquals(c, m); err != nil {
		return err
	}
	return r.stop(sig(0))
}
