package sys

import (
	"fmt"
	"net"
	"strings"
	"time"

	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/model"
)

// scarcePlan: a master that has run out of files for some time, because of
// connections to either of its ports.
type scarcePlan struct {
	Files  int
	Cmds   []gen.Cmd
	Rounds []scarceRound
	Sig    int
}

type scarceRound struct {
	Clients  int // connections to the port for clients that are held
	Replicas int // connections to the port for replicas made and held meanwhile
	Reset    bool
	Cmds     []gen.Cmd // meanwhile, on a connection made before
	Ms       int       // time to wait meanwhile
}

func genScarcePlan(t *rapid.T) scarcePlan {
	pick := gen.Opt{Keys: gen.FewKeys, InRangeTrim: true}.Swarm(t)
	p := scarcePlan{Files: rapid.IntRange(20, 80).Draw(t, "files"), Cmds: gen.Seq(t, pick.AnyCmd, 1, 10), Sig: rapid.IntRange(0, 1).Draw(t, "sig")}
	p.Rounds = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) scarceRound {
		return scarceRound{Clients: rapid.SampledFrom([]int{0, p.Files, p.Files + 20, 5}).Draw(t, "clients"), Replicas: rapid.IntRange(0, 3).Draw(t, "replicas") * rapid.SampledFrom([]int{1, 1, 30}).Draw(t, "times"),
			Reset: rapid.Bool().Draw(t, "reset"), Cmds: gen.Seq(t, pick.AnyCmd, 0, 5), Ms: rapid.IntRange(0, 50).Draw(t, "ms")}
	}), 1, 3).Draw(t, "rounds")
	return p
}

func runScarcePlan(p scarcePlan) h.Outcome {
	var o h.Outcome
	dir := newDir()
	defer removeDir(dir)
	s, err := start(opts{dir: dir, db: dbName, replica: true, nofile: p.Files})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	m := model.New()
	keys := few()
	run := func(cmds []gen.Cmd) error {
		for _, cmd := range cmds {
			o.Steps++
			if err := c.step(m, cmd.Args()); err != nil {
				return err
			}
		}
		return nil
	}
	if err := run(p.Cmds); err != nil {
		return h.Fail("%v", err)
	}
	for i, r := range p.Rounds {
		var held []net.Conn
		release := func() {
			for _, x := range held {
				if r.Reset {
					_ = x.(*net.TCPConn).SetLinger(0)
				}
				_ = x.Close()
			}
			held = nil
		}
		open := func(n int, addr string) error {
			for j := 0; j < n; j++ {
				x, err := net.DialTimeout("tcp", addr, patience)
				if err != nil {
					return fmt.Errorf("connect to %s: %w", addr, err)
				}
				held = append(held, x)
			}
			return nil
		}
		err := open(r.Clients, s.addr())
		if err == nil {
			err = open(r.Replicas, s.replicaAddr())
		}
		if err == nil {
			time.Sleep(time.Duration(r.Ms) * time.Millisecond)
			err = run(r.Cmds)
		}
		release()
		if err != nil {
			return h.Fail("round %d, while %d and %d connections are held: %v", i, r.Clients, r.Replicas, err)
		}
		if r.Clients >= p.Files {
			o.Labels = append(o.Labels, "out of files")
			o.NonTrivial = true
		}
	}
	// Now there is room again, soon
	limit := time.Now().Add(patience)
	for {
		err := replicaEquals(s, m, keys)
		if err == nil {
			break
		}
		// A transfer while the held ones were still being closed
		if time.Now().After(limit) || strings.Contains(err.Error(), "does not answer") {
			return h.Fail("a replica after the master had run out of files: %v", err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err := run([]gen.Cmd{{"rpush", "a", "after"}}); err != nil {
		return h.Fail("%v", err)
	}
	if err := c.dump(m, keys); err != nil {
		return h.Fail("the master itself: %v", err)
	}
	if err := s.stop(sig(p.Sig)); err != nil {
		return h.Fail("%v", err)
	}
	again, err := start(opts{dir: dir, db: dbName})
	if err != nil {
		return h.Fail("%v", err)
	}
	defer again.end()
	d, err := again.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer d.close()
	if err := d.dump(m, keys); err != nil {
		return h.Fail("the master after a restart: %v", err)
	}
	return o
}
