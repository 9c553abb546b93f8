package sys

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/model"
	"vertexverif/resp"
)

// ---- C15: requests whose fragments are seconds apart ----

type slowPlan struct {
	Setup   setup
	Clients []slowClient
}

type slowClient struct {
	Cmds   []gen.Cmd
	Cuts   []int // where the bytes of the requests are cut, in thousandths
	Pauses []int // milliseconds, one before each piece
}

func genSlowPlan(t *rapid.T) slowPlan {
	o := gen.Opt{Keys: gen.FewKeys, InRangeTrim: true, Value: gen.Small}
	return slowPlan{genSetup(t), rapid.SliceOfN(rapid.Custom(func(t *rapid.T) slowClient {
		c := slowClient{Cmds: gen.Seq(t, o.Swarm(t).AnyCmd, 1, 4), Cuts: rapid.SliceOfN(rapid.IntRange(0, 999), 1, 6).Draw(t, "cuts")}
		left := 13000
		for range c.Cuts {
			ms := rapid.SampledFrom([]int{0, 10, 150, 600, 1100, 2200, 3300, 5500, 10500, 12500}).Draw(t, "ms")
			ms = min(ms, left)
			left -= ms
			c.Pauses = append(c.Pauses, ms)
		}
		return c
	}), 20, 60).Draw(t, "clients")}
}

func runSlowPlan(p slowPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	errs := make([]error, len(p.Clients))
	var wg sync.WaitGroup
	for id, x := range p.Clients {
		c, err := s.dial()
		if err != nil {
			return h.Fail("%v", err)
		}
		defer c.close()
		o.Steps += len(x.Cmds)
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[id] = func() error {
				var cmds [][]string
				var b []byte
				for _, cmd := range x.Cmds {
					cmds = append(cmds, own(cmd, id))
					b = append(b, resp.Bulks(cmds[len(cmds)-1]).Encode()...)
				}
				cuts := append([]int(nil), x.Cuts...)
				for i := range cuts {
					cuts[i] = cuts[i] * len(b) / 1000
				}
				sortInts(cuts)
				at := 0
				for i, cut := range cuts {
					if err := c.send(b[at:cut]); err != nil {
						return fmt.Errorf("after pauses of %v ms, at byte %d of %d: %w", x.Pauses[:i], at, len(b), err)
					}
					at = cut
					time.Sleep(time.Duration(x.Pauses[i]) * time.Millisecond)
				}
				if err := c.send(b[at:]); err != nil {
					return fmt.Errorf("after pauses of %v ms, at byte %d of %d: %w", x.Pauses, at, len(b), err)
				}
				m := model.New()
				for i, cmd := range cmds {
					v, err := c.recv()
					if err == nil {
						err = m.Step(cmd, v)
					}
					if err != nil {
						return fmt.Errorf("reply %d of %d to requests sent with pauses of %v ms: %w", i, len(cmds), x.Pauses, err)
					}
				}
				return c.step(m, []string{"set", fmt.Sprintf("s%d:mark", id), "x"})
			}()
		}()
	}
	wg.Wait()
	for id, err := range errs {
		if err != nil {
			return h.Fail("client %d: %v", id, err)
		}
	}
	if err := s.died(); err != nil {
		return h.Fail("%v", err)
	}
	return o
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// ---- C15: clients that leave and come back from the same port ----

type returnPlan struct {
	Setup   setup
	Size    int // of the values asked for
	Clients [][]visit
}

type visit struct {
	Count int // requests
	Heavy int // every so many of them asks for the big list
	Read  int // replies read before it goes, in quarters
	How   int // 0: RST, 1: close
	GapU  int // microseconds before the next
}

func genReturnPlan(t *rapid.T) returnPlan {
	return returnPlan{genSetup(t), rapid.SampledFrom([]int{1, 10, 1000, 20000}).Draw(t, "size"), rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) visit {
		return visit{Count: rapid.SampledFrom([]int{1, 3, 20, 20, 200, 1500}).Draw(t, "count"), Heavy: rapid.SampledFrom([]int{0, 1, 2, 10}).Draw(t, "heavy"), Read: rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "read"),
			How: rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "how"), GapU: rapid.SampledFrom([]int{0, 0, 100, 2000, 20000}).Draw(t, "gap")}
	}), 2, 10), 1, 5).Draw(t, "clients")}
}

// dialFrom connects from the given local port, or from any if that is not possible.
func (s *srv) dialFrom(port int) (*client, error) {
	if port > 0 {
		d := net.Dialer{Timeout: patience, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}, Control: func(_, _ string, c syscall.RawConn) error {
			return c.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) })
		}}
		c, err := d.Dial("tcp", s.addr())
		if err == nil {
			return s.wrap(c), nil
		}
		if !errors.Is(err, syscall.EADDRNOTAVAIL) && !errors.Is(err, syscall.EADDRINUSE) && !errors.Is(err, syscall.ECONNRESET) {
			if d := s.died(); d != nil {
				return nil, d
			}
			return nil, fmt.Errorf("connect: %w", err)
		}
	}
	return s.dial()
}

func runReturnPlan(p returnPlan) h.Outcome {
	o := h.Outcome{}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	const elements = 100
	heavy := []string{"rpush", "heavy"}
	var list []string
	for i := 0; i < elements; i++ {
		list = append(list, fmt.Sprint(i))
	}
	if v, err := c.do(append(heavy, list...)); err != nil || !v.Equal(resp.Int(elements)) {
		return h.Fail("rpush: %v, %v", v, err)
	}
	value := func(id, k int) string {
		x := fmt.Sprintf("client %d visit %d ", id, k)
		for len(x) < p.Size {
			x += x
		}
		return x
	}
	for id, visits := range p.Clients {
		for k := range visits {
			if v, err := c.do([]string{"set", fmt.Sprintf("v%d.%d", id, k), value(id, k)}); err != nil || v.Str != "OK" {
				return h.Fail("set: %v, %v", v, err)
			}
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	errs := make([]error, len(p.Clients))
	same := 0
	for id, visits := range p.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[id] = func() error {
				port := 0
				for k := 0; k <= len(visits); k++ {
					last := k == len(visits) // the last one stays as long as it takes
					x := visit{Count: 3, Read: 4, How: 1}
					key := "nothing"
					want := resp.NullBulk()
					if !last {
						x = visits[k]
						key, want = fmt.Sprintf("v%d.%d", id, k), resp.Bulk(value(id, k))
					}
					c, err := s.dialFrom(port)
					if err != nil {
						return fmt.Errorf("visit %d: %w", k, err)
					}
					if now := c.c.LocalAddr().(*net.TCPAddr).Port; now == port {
						mu.Lock()
						same++
						mu.Unlock()
					} else {
						port = now
					}
					var b []byte
					for i := 0; i < x.Count; i++ {
						if x.Heavy > 0 && i%x.Heavy == 0 {
							b = append(b, resp.Bulks([]string{"lrange", "heavy", "0", "-1"}).Encode()...)
						} else {
							b = append(b, resp.Bulks([]string{"get", key}).Encode()...)
						}
					}
					sent := make(chan error, 1)
					go func() {
						_ = c.c.SetWriteDeadline(time.Now().Add(patience))
						_, err := c.c.Write(b)
						sent <- err
					}()
					for i := 0; i < x.Count*x.Read/4; i++ {
						v, err := c.recv()
						if err != nil {
							c.close()
							return fmt.Errorf("visit %d, reply %d of %d: %w", k, i, x.Count, err)
						}
						w := want
						if x.Heavy > 0 && i%x.Heavy == 0 {
							w = resp.Bulks(list)
						}
						if !v.Equal(w) {
							c.close()
							return fmt.Errorf("visit %d (before it, a client from the same port left), reply %d of %d is %s and not %s", k, i, x.Count, h.Short(v.String(), 100), h.Short(w.String(), 100))
						}
					}
					if x.How == 0 {
						_ = c.c.(*net.TCPConn).SetLinger(0)
					}
					if x.GapU > 0 {
						time.Sleep(time.Duration(x.GapU) * time.Microsecond)
					}
					c.close()
					<-sent
				}
				return nil
			}()
		}()
	}
	wg.Wait()
	for id, err := range errs {
		if err != nil {
			return h.Fail("client %d: %v", id, err)
		}
		o.Steps += len(p.Clients[id])
	}
	if err := s.died(); err != nil {
		return h.Fail("%v", err)
	}
	o.NonTrivial = same > 0
	return o
}

// ---- C14: masters of some age, and slow transfers ----

type agedReplicaPlan struct {
	Lives []life
	Slow  slowTransfer
}

// slowTransfer is a long transfer whose receivers, and the replicas it is passed on to, are slow.
type slowTransfer struct {
	MB     int
	Read   [][]int // per receiver, the pauses in milliseconds, each followed by reading an equal share
	Feed   [][]int // per replica, the pauses before each equal share of the stream is sent to it
	Writes int     // to the master in the meantime, one each 100 ms
}

func genAgedReplicaPlan(t *rapid.T) agedReplicaPlan {
	pauses := func(label string) [][]int {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []int {
			return rapid.SampledFrom([][]int{{1200, 300}, {2500, 2500}, {5500}, {0, 6000, 6000}, {11000}, {100, 3300, 600, 2200}, {0, 12500}}).Draw(t, "pauses")
		}), 1, 3).Draw(t, label)
	}
	return agedReplicaPlan{genLives(t, true).Lives, slowTransfer{MB: rapid.SampledFrom([]int{1, 16, 24}).Draw(t, "mb"), Read: pauses("read"), Feed: pauses("feed"), Writes: rapid.IntRange(0, 60).Draw(t, "writes")}}
}

func runAgedReplicaPlan(p agedReplicaPlan) h.Outcome {
	slow := make(chan error, 1)
	go func() { slow <- runSlowTransfer(p.Slow) }()
	o := runAgedPlan(agedPlan{p.Lives})
	if err := <-slow; err != nil && o.Violation == "" {
		return h.Fail("%v", err)
	}
	return o
}

func runSlowTransfer(p slowTransfer) error {
	s, err := start(opts{replica: true, db: dbName})
	if err != nil {
		return err
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return err
	}
	defer c.close()
	m := model.New()
	for i := 0; i < p.MB; i++ {
		if err := c.step(m, []string{"set", fmt.Sprint("k", i), strings.Repeat(string(rune('a'+i)), 1<<20)}); err != nil {
			return err
		}
	}
	keys := []string{"during"}
	for i := 0; i < p.MB; i++ {
		keys = append(keys, fmt.Sprint("k", i))
	}
	rc, err := s.attach()
	if err != nil {
		return err
	}
	_ = rc.SetReadDeadline(time.Now().Add(patience))
	stream, err := io.ReadAll(rc)
	_ = rc.Close()
	if err != nil || len(stream) < p.MB<<20 {
		return fmt.Errorf("a transfer of %d MB gives %d bytes, %v", p.MB, len(stream), err)
	}
	var wg sync.WaitGroup
	errs := make(chan error, len(p.Read)+len(p.Feed)+1)
	for _, pauses := range p.Read {
		rc, err := s.attach()
		if err != nil {
			return err
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer rc.Close()
			got := make([]byte, 0, len(stream))
			_ = rc.SetReadDeadline(time.Now().Add(2 * patience))
			for i, ms := range pauses {
				time.Sleep(time.Duration(ms) * time.Millisecond)
				n := len(stream)*(i+1)/len(pauses) - len(got)
				buf := make([]byte, n)
				k, err := io.ReadFull(rc, buf)
				got = append(got, buf[:k]...)
				if err != nil {
					errs <- fmt.Errorf("a replica that reads with pauses of %v ms gets %d of at least %d bytes: %w", pauses, len(got), len(stream), err)
					return
				}
			}
			rest, err := io.ReadAll(rc)
			got = append(got, rest...)
			if err != nil || len(got) < 4 || len(got)-4 != int(binary.LittleEndian.Uint32(got)) || !bytes.Equal(got[4:len(stream)], stream[4:]) {
				errs <- fmt.Errorf("a replica that reads with pauses of %v ms gets %d bytes that are not the master's data at that time, %v", pauses, len(got), err)
			}
		}()
	}
	for _, pauses := range p.Feed {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := slowReplica(stream, pauses, m.Clone(), keys); err != nil {
				errs <- fmt.Errorf("a replica whose master sends with pauses of %v ms: %w", pauses, err)
			}
		}()
	}
	for i := 1; i <= p.Writes; i++ {
		time.Sleep(100 * time.Millisecond)
		if err := c.step(m, []string{"append", "during", "x"}); err != nil {
			errs <- fmt.Errorf("during slow transfers, the master: %w", err)
			break
		}
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	if err := c.dump(m, keys); err != nil {
		return err
	}
	return s.stop(sig(0))
}

func slowReplica(stream []byte, pauses []int, m *model.Store, keys []string) error {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		h.Internal("listen: %v", err)
	}
	defer l.Close()
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		at := 0
		for i, ms := range pauses {
			time.Sleep(time.Duration(ms) * time.Millisecond)
			end := len(stream) * (i + 1) / len(pauses)
			if i == 0 {
				end = min(end, 100) // the first share is small, so that the next pause is in the middle of a record
			}
			if len(pauses) == 1 {
				end = len(stream)
			}
			if _, err := c.Write(stream[at:end]); err != nil {
				break
			}
			at = end
		}
		_ = c.Close()
	}()
	r, err := start(opts{db: dbName, master: l.Addr().String()})
	if err != nil {
		return err
	}
	defer r.end()
	c, err := r.dial()
	if err != nil {
		return err
	}
	defer c.close()
	return c.dump(m, keys)
}
