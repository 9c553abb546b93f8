package conc

import (
	"errors"
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lxdlam/vertex/pkg/network"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/resp"
)

const ms = time.Millisecond

// promptly is how long an operation on a closed connection may take, in
// virtual time: closing may send a farewell to a peer that does not read.
const promptly = 5 * time.Second

// ---- one timeline of operations against a timed model ----

type connOp struct {
	Wait int // permille of the idle limit to wait before the operation
	Op   string
	N    int // how many at once, or which value
}

type connPlan struct {
	Limit   int64 // idle limit in milliseconds; 0 is NewConn's default, ten minutes
	Stalled bool
	Ops     []connOp
}

var connLimits = []int{0, 3, 10, 250, 1000, 30000, 50000, 60001, 3600000, 90000000}

func genConnPlan(t *rapid.T) connPlan {
	p := connPlan{Limit: int64(gen.Dur(t, "limit", ms, 100*24*3600*1000, connLimits...)), Stalled: rapid.IntRange(0, 7).Draw(t, "stalled") == 0}
	ops := []string{"write", "write", "read", "read", "feed", "feed", "check", "info", "close", "hangup", "stall", "unstall", "garbage", "partial"}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) connOp {
		return connOp{
			Wait: rapid.SampledFrom([]int{0, 0, 1, 10, 300, 500, 501, 700, 950, 999, 999, 1060, 2500}).Draw(t, "wait"),
			Op:   rapid.SampledFrom(ops).Draw(t, "op"),
			N:    gen.Sized(t, "n", 300, 1, 1, 2, 3, 1, 2, 3, 9, 40),
		}
	}), 1, 14).Draw(t, "ops")
	if rapid.IntRange(0, 7).Draw(t, "again") == 0 {
		// a few of the operations again and again
		from := rapid.IntRange(0, len(p.Ops)-1).Draw(t, "from")
		part := p.Ops[from:min(len(p.Ops), from+rapid.IntRange(1, 3).Draw(t, "of"))]
		part = append([]connOp(nil), part...)
		for _, x := range part {
			switch x.Op {
			case "close", "hangup", "garbage", "partial", "stall":
				return p
			}
		}
		var many []connOp
		for i, k := 0, gen.Sized(t, "times", 1500, 4, 20, 70, 150); i < k; i++ {
			many = append(many, part...)
		}
		p.Ops = append(append(append([]connOp(nil), p.Ops[:from]...), many...), p.Ops[from:]...)
	}
	return p
}

var connValues = []resp.Value{resp.Simple("one"), resp.Bulk("two\r\nlines"), resp.Int(-3), resp.Array(resp.Bulk("GET"), resp.Bulk("k")), resp.NullBulk()}

type pending struct {
	what  string
	start time.Time
	done  chan struct{}
	err   error
	data  string
	end   time.Time
}

func (p *pending) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// async runs one operation in its own goroutine.
func async(what string, f func() (string, error)) *pending {
	p := &pending{what: what, start: time.Now(), done: make(chan struct{})}
	go func() {
		p.data, p.err = f()
		p.end = time.Now()
		close(p.done)
	}()
	return p
}

func runConnPlan(t *testing.T, p connPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Ops)}
	bad := ""
	crash := h.Bubble(t, func() { bad = connTimeline(p, &o) })
	if crash != "" {
		bad = crash
	}
	o.Violation = bad
	return o
}

func connTimeline(p connPlan, o *h.Outcome) string {
	fake := newFakeConn()
	fake.stalled = p.Stalled
	limit := time.Duration(p.Limit) * ms
	var c network.Conn
	if p.Limit == 0 {
		limit = 10 * time.Minute
		c = network.NewConn(fake)
	} else {
		c = network.NewConnWithExpire(fake, limit)
	}
	slack := limit / 20
	synctest.Wait()

	start := time.Now()
	last, lastEnd := start, start // start of the last operation, end of the last completed one
	closed := false
	var wrote strings.Builder // what successful sequential writes must have put on the wire
	exact := true             // whether wrote is still known exactly
	var fed []resp.Value
	var read *pending
	var writes []*pending
	stalled := p.Stalled
	seq := 0
	at := func() string { return time.Since(start).String() }
	lo := func() time.Time { return last.Add(limit) }
	hi := func() time.Time {
		if lastEnd.After(last) {
			return lastEnd.Add(limit + slack)
		}
		return last.Add(limit + slack)
	}
	// finishRead judges a read that has ended.
	finishRead := func() string {
		if read == nil || !read.ended() {
			return ""
		}
		r := read
		read = nil
		if r.err == nil {
			if len(fed) == 0 || r.data != string(fed[0].Encode()) {
				return fmt.Sprintf("Read returned %q, which is not the next value the peer sent (%v)", r.data, fed)
			}
			fed = fed[1:]
			if r.end.After(lastEnd) {
				lastEnd = r.end
			}
			return ""
		}
		return ""
	}
	settle := func() string {
		synctest.Wait()
		for i := 0; i < len(writes); i++ {
			if w := writes[i]; w.ended() {
				if w.err == nil && w.end.After(lastEnd) {
					lastEnd = w.end
				}
				writes = append(writes[:i], writes[i+1:]...)
				i--
			}
		}
		return finishRead()
	}
	// nowClosed checks everything that holds once the connection is closed.
	nowClosed := func(why string) string {
		o.Labels = append(o.Labels, "closed-by-"+why)
		if !c.IsClosed() {
			return fmt.Sprintf("at %s the connection must be closed (%s) but says it is open", at(), why)
		}
		time.Sleep(promptly)
		synctest.Wait()
		if w := finishRead(); w != "" {
			return w
		}
		if read != nil {
			return fmt.Sprintf("a Read that was waiting is still blocked %v after the close (%s)", promptly, why)
		}
		for _, w := range writes {
			if !w.ended() {
				return fmt.Sprintf("a Write that was waiting is still blocked %v after the close (%s)", promptly, why)
			}
		}
		if tcp, _ := fake.isClosed(); !tcp {
			return fmt.Sprintf("the connection is closed (%s) but the network connection below it is still open", why)
		}
		var ops []*pending
		for i := 0; i < 2; i++ {
			ops = append(ops, async("Read", func() (string, error) { _, err := c.Read(); return "", err }),
				async("Write", func() (string, error) { return "", c.Write("+late\r\n") }),
				async("Close", func() (string, error) { return "", c.Close() }))
			time.Sleep(promptly)
			synctest.Wait()
			for _, op := range ops {
				if !op.ended() {
					return fmt.Sprintf("%s on a closed connection (%s) blocks", op.what, why)
				}
				if op.err == nil {
					return fmt.Sprintf("%s on a closed connection (%s) reports success", op.what, why)
				}
				if op.what == "Close" && !errors.Is(op.err, network.ErrConnIsClosed) {
					return fmt.Sprintf("closing again (%s) reports %v", why, op.err)
				}
			}
			ops = nil
		}
		if !c.IsClosed() {
			return "a closed connection says it is open again"
		}
		if strings.Contains(fake.written(), "late") {
			return "a write to a closed connection reached the peer"
		}
		if exact && !strings.HasPrefix(fake.written(), wrote.String()) {
			return fmt.Sprintf("the peer got %q, although %q was written", fake.written(), wrote.String())
		}
		return ""
	}
	id, addr := c.ID(), c.Addr()
	if id == "" || addr != "peer:2" {
		return fmt.Sprintf("ID %q Addr %q", id, addr)
	}

	for _, op := range p.Ops {
		time.Sleep(limit * time.Duration(op.Wait) / 1000)
		if w := settle(); w != "" {
			return w
		}
		now := time.Now()
		if now.After(hi()) {
			if closed = c.IsClosed(); !closed {
				return fmt.Sprintf("the connection is still open after being idle for %v, its limit is %v", now.Sub(last), limit)
			}
			return nowClosed("idle")
		}
		if !now.Before(lo()) {
			break // too close to the limit, or a matter of what counts as an operation
		}
		if c.IsClosed() {
			return fmt.Sprintf("at %s the connection is closed after %v, its limit is %v", at(), now.Sub(last), limit)
		}
		switch op.Op {
		case "write":
			last = now
			if stalled {
				o.Labels = append(o.Labels, "stalled-write")
				exact = false
				writes = append(writes, async("Write", func() (string, error) { return "", c.Write("+stalled\r\n") }))
				synctest.Wait()
				continue
			}
			var ws []*pending
			for i := 0; i < op.N; i++ {
				seq++
				s := fmt.Sprintf("+w%d\r\n", seq)
				ws = append(ws, async("Write", func() (string, error) { return "", c.Write(s) }))
				if op.N == 1 {
					wrote.WriteString(s)
				} else {
					exact = false
				}
			}
			synctest.Wait()
			for _, w := range ws {
				if !w.ended() {
					return "a Write on an open connection whose peer reads blocks"
				}
				if w.err != nil {
					return fmt.Sprintf("a Write on an open connection failed: %v", w.err)
				}
			}
			for i := 0; i < op.N; i++ {
				if !strings.Contains(fake.written(), fmt.Sprintf("+w%d\r\n", seq-i)) {
					return fmt.Sprintf("a Write reported success, but the peer has only %q", fake.written())
				}
			}
		case "read":
			if read != nil {
				continue
			}
			last = now
			read = async("Read", func() (string, error) {
				obj, err := c.Read()
				if err != nil {
					return "", err
				}
				return string(obj.Byte()), nil
			})
			synctest.Wait()
			if len(fed) > 0 {
				if !read.ended() {
					return "Read blocks although the peer has sent a value"
				}
				if read.err != nil {
					return fmt.Sprintf("Read failed although the peer has sent a value: %v", read.err)
				}
			} else if read.ended() {
				return fmt.Sprintf("Read returned (%q, %v) although the peer has sent nothing", read.data, read.err)
			}
			if w := finishRead(); w != "" {
				return w
			}
		case "feed":
			v := connValues[seq%len(connValues)]
			seq++
			waiting := read != nil
			fed = append(fed, v)
			fake.feed(v.Encode())
			synctest.Wait()
			if waiting {
				o.Labels = append(o.Labels, "read-woken")
				if !read.ended() || read.err != nil {
					return fmt.Sprintf("a waiting Read did not get the value the peer sent (ended %v, %v)", read.ended(), read.err)
				}
			}
			if w := finishRead(); w != "" {
				return w
			}
		case "check":
		case "info":
			if c.ID() != id || c.Addr() != addr {
				return "ID or Addr changed"
			}
		case "stall":
			stalled = true
			fake.setStalled(true)
		case "unstall":
			stalled = false
			fake.setStalled(false)
			synctest.Wait()
			for _, w := range writes {
				if !w.ended() || w.err != nil {
					return fmt.Sprintf("a Write did not go on when the peer read again (ended %v, %v)", w.ended(), w.err)
				}
			}
		case "close":
			var cs []*pending
			for i := 0; i < op.N; i++ {
				cs = append(cs, async("Close", func() (string, error) { return "", c.Close() }))
			}
			time.Sleep(promptly)
			synctest.Wait()
			ok := 0
			for _, x := range cs {
				if !x.ended() {
					return "Close blocks"
				}
				if x.err == nil {
					ok++
				} else if !errors.Is(x.err, network.ErrConnIsClosed) {
					return fmt.Sprintf("a second Close reports %v", x.err)
				}
			}
			if op.N > 1 {
				o.Labels = append(o.Labels, "concurrent-close")
			}
			if ok != 1 {
				return fmt.Sprintf("%d of %d concurrent Close calls on an open connection report success", ok, op.N)
			}
			if stalled {
				o.Labels = append(o.Labels, "close-stalled")
			}
			o.NonTrivial = true
			return nowClosed("close")
		case "hangup", "partial", "garbage":
			switch op.Op {
			case "partial":
				fake.feed([]byte("*2\r\n$3\r\nGE"))
			case "garbage":
				fake.feed([]byte("?what\r\n"))
			}
			if op.Op != "garbage" {
				fake.hangup()
			}
			o.NonTrivial = true
			for i := 0; ; i++ {
				if read == nil {
					read = async("Read", func() (string, error) {
						obj, err := c.Read()
						if err != nil {
							return "", err
						}
						return string(obj.Byte()), nil
					})
				}
				time.Sleep(limit / 1000)
				synctest.Wait()
				if !read.ended() {
					return fmt.Sprintf("Read blocks after the peer's %s", op.Op)
				}
				if read.err == nil && len(fed) == 0 {
					return fmt.Sprintf("Read returned %q after the peer's %s", read.data, op.Op)
				}
				if read.err != nil && len(fed) > 0 {
					return fmt.Sprintf("Read failed with %v although the peer had sent values before its %s", read.err, op.Op)
				}
				failed := read.err != nil
				if w := finishRead(); w != "" {
					return w
				}
				if failed {
					break
				}
			}
			read = nil
			if op.Op == "hangup" {
				time.Sleep(promptly)
				synctest.Wait()
				return nowClosed("hangup")
			}
			if !c.IsClosed() {
				_ = c.Close()
			}
			return nowClosed(op.Op)
		}
	}
	// let it run out
	if w := settle(); w != "" {
		return w
	}
	now := time.Now()
	if d := lo().Sub(now); d > 1 {
		time.Sleep(d - 1)
		if w := settle(); w != "" {
			return w
		}
		if c.IsClosed() {
			return fmt.Sprintf("the connection was closed before it was idle for %v", limit)
		}
	}
	o.NonTrivial = true
	if d := hi().Sub(time.Now()); d >= 0 {
		time.Sleep(d + 1)
	}
	synctest.Wait()
	if !c.IsClosed() {
		return fmt.Sprintf("the connection is still open after being idle for %v, its limit is %v", time.Since(last), limit)
	}
	return nowClosed("idle")
}

// ---- concurrent operations ----

type connActor struct {
	Kind string
	At   []int // absolute times in milliseconds
}

type connConc struct {
	Limit  int
	Actors []connActor
	Stall  int // 0 never, otherwise the time at which the peer stops reading
}

func genConnConc(t *rapid.T) connConc {
	p := connConc{Limit: gen.Dur(t, "limit", ms, 3600000, 40, 100, 100000)}
	if rapid.IntRange(0, 3).Draw(t, "stalls") == 0 {
		p.Stall = rapid.IntRange(1, 200).Draw(t, "stall")
	}
	kinds := []string{"write", "write", "write", "reader", "check", "feed"}
	if rapid.Bool().Draw(t, "ends") {
		kinds = append(kinds, "close", "close", "hangup")
	}
	n := rapid.IntRange(2, 8).Draw(t, "actors")
	reader := false
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		if k == "reader" {
			if reader {
				k = "write"
			}
			reader = true
		}
		a := connActor{Kind: k, At: rapid.SliceOfN(rapid.IntRange(0, 200), 1, 8).Draw(t, "at")}
		sort.Ints(a.At)
		if k == "hangup" {
			a.At = a.At[:1]
		}
		p.Actors = append(p.Actors, a)
	}
	return p
}

// aliveUntil is the time in milliseconds until which writes alone keep the
// connection open, 0 if anything else may close it or hold a write up.
func aliveUntil(p connConc) int {
	if p.Stall > 0 {
		return 0
	}
	var at []int
	for _, a := range p.Actors {
		switch a.Kind {
		case "close", "hangup":
			return 0
		case "write":
			at = append(at, a.At...)
		}
	}
	sort.Ints(at)
	end := p.Limit
	for _, x := range at {
		if x >= end {
			break
		}
		end = x + p.Limit
	}
	return end
}

func runConnConc(t *testing.T, p connConc) h.Outcome {
	o := h.Outcome{}
	var mu sync.Mutex
	var bad string
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	crash := h.Bubble(t, func() {
		fake := newFakeConn()
		limit := time.Duration(p.Limit) * ms
		c := network.NewConnWithExpire(fake, limit)
		start := time.Now()
		var oks, closers int32
		var closedSeen atomic.Bool // some caller knows that it is closed
		var active int32
		// judge checks an operation that began when the connection was known to be closed or not.
		judge := func(what string, known bool, err error) {
			if known && err == nil {
				fail("%s begun after the connection was known to be closed reports success", what)
			}
		}
		// as long as the writers never pause for the limit, and nobody closes it, it must be open
		alive := aliveUntil(p)
		mustLive := func() bool { return time.Since(start) < time.Duration(alive)*ms }
		var wg sync.WaitGroup
		for _, a := range p.Actors {
			wg.Add(1)
			a := a
			go func() {
				defer wg.Done()
				for _, x := range a.At {
					if d := start.Add(time.Duration(x) * ms).Sub(time.Now()); d > 0 {
						time.Sleep(d)
					}
					known := closedSeen.Load()
					atomic.AddInt32(&active, 1)
					switch a.Kind {
					case "write":
						err := c.Write("+x\r\n")
						judge("Write", known, err)
						if err != nil && mustLive() {
							fail("a Write failed with %v, although the connection was in use all the time", err)
						}
					case "reader":
						obj, err := c.Read()
						judge("Read", known, err)
						if err == nil && string(obj.Byte()) != "$3\r\nabc\r\n" {
							fail("Read returned %q, the peer sent abc", obj.Byte())
						}
					case "close":
						atomic.AddInt32(&closers, 1)
						err := c.Close()
						judge("Close", known, err)
						if err == nil {
							atomic.AddInt32(&oks, 1)
						} else if !errors.Is(err, network.ErrConnIsClosed) {
							fail("a second Close reports %v", err)
						}
						closedSeen.Store(true)
						if !c.IsClosed() {
							fail("IsClosed() is false after Close returned %v", err)
						}
					case "check":
						if c.IsClosed() {
							if mustLive() {
								fail("the connection is closed, although it was in use all the time")
							}
							closedSeen.Store(true)
						} else if known {
							fail("IsClosed() went back to false")
						}
					case "feed":
						fake.feed([]byte("$3\r\nabc\r\n"))
					case "hangup":
						fake.hangup()
					}
					atomic.AddInt32(&active, -1)
				}
			}()
		}
		if p.Stall > 0 {
			time.AfterFunc(time.Duration(p.Stall)*ms, func() { fake.setStalled(true) })
		}
		// everything is over soon after the connection was closed, by idleness at the latest
		time.Sleep(200*ms + limit + 2*promptly)
		synctest.Wait()
		if !c.IsClosed() {
			fail("the connection is open long after its idle limit")
		}
		if n := atomic.LoadInt32(&active); n > 0 {
			fail("%d operations are still blocked although the connection is closed", n)
			_ = fake.Close() // best effort to let the goroutines end
			return
		}
		wg.Wait()
		if n := atomic.LoadInt32(&oks); n > 1 {
			fail("%d Close calls report that they closed the connection", n)
		}
		if tcp, _ := fake.isClosed(); !tcp {
			fail("the network connection was not closed")
		}
		if err := c.Close(); !errors.Is(err, network.ErrConnIsClosed) {
			fail("closing again reports %v", err)
		}
	})
	kinds := map[string]int{}
	for _, a := range p.Actors {
		kinds[a.Kind]++
		o.Steps += len(a.At)
	}
	for k := range kinds {
		o.Labels = append(o.Labels, k)
	}
	if p.Stall > 0 {
		o.Labels = append(o.Labels, "stall")
	}
	o.NonTrivial = len(p.Actors) >= 2 && len(kinds) >= 2
	if crash != "" && (bad == "" || strings.Contains(crash, "panic")) {
		bad = crash
	}
	o.Violation = bad
	return o
}

// ---- real sockets ----

type connReal struct {
	Writers, Closers int
	PeerReads        bool
	Size             int
	Yields           int
	PeerCloses       bool
}

func runConnReal(p connReal) h.Outcome {
	o := h.Outcome{NonTrivial: true, Steps: p.Writers + p.Closers}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		h.Internal("listen: %v", err)
	}
	defer ln.Close()
	peer, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		h.Internal("dial: %v", err)
	}
	defer peer.Close()
	srv, err := ln.Accept()
	if err != nil {
		h.Internal("accept: %v", err)
	}
	defer srv.Close()
	c := network.NewConnWithExpire(srv, time.Hour)
	if p.PeerReads {
		go func() {
			b := make([]byte, 1<<16)
			for {
				if _, err := peer.Read(b); err != nil {
					return
				}
			}
		}()
	}
	body := strings.Repeat("x", p.Size)
	var wg sync.WaitGroup
	var oks int32
	var bad atomic.Value
	for i := 0; i < p.Writers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c.Write(body) == nil {
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			if _, err := c.Read(); err != nil {
				return
			}
		}
	}()
	for i := 0; i < p.Yields; i++ {
		runtime.Gosched()
	}
	if p.PeerCloses {
		_ = peer.Close()
	}
	for i := 0; i < p.Closers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := c.Close(); err == nil {
				atomic.AddInt32(&oks, 1)
			} else if !errors.Is(err, network.ErrConnIsClosed) {
				bad.Store(err)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		return h.Fail("operations on a closed connection are still blocked after 30 s")
	}
	if e := bad.Load(); e != nil {
		return h.Fail("a second Close reports %v", e)
	}
	if oks != 1 && !(p.PeerCloses && oks == 0) {
		return h.Fail("%d of %d concurrent Close calls report success", oks, p.Closers)
	}
	if !c.IsClosed() {
		return h.Fail("a closed connection says it is open")
	}
	if err := c.Close(); !errors.Is(err, network.ErrConnIsClosed) {
		return h.Fail("closing again reports %v", err)
	}
	if !p.PeerReads {
		o.Labels = append(o.Labels, "peer-does-not-read")
	}
	return o
}

func TestC18(t *testing.T) {
	h.Plan(4)
	h.Check(t, "C18", h.Prop[connPlan]{
		Name:  "timeline",
		Rule:  "1 to 14 operations (reads, writes, several at once, values and garbage and hang-ups from the peer, a peer that stops and resumes reading, closes) at generated virtual times around the idle limit, against a timed model; non-trivial if the connection's end was reached and checked",
		Cases: 9000, Weight: 2, Gen: genConnPlan, Run: func(p connPlan) h.Outcome { return runConnPlan(t, p) },
	})
	h.Check(t, "C18", h.Prop[connConc]{
		Name:  "concurrent",
		Rule:  "2 to 8 concurrent actors (writers, one reader, closers, observers, the peer) with coinciding virtual times; non-trivial if at least two kinds act",
		Cases: 9000, Retries: 50, Weight: 1, Gen: genConnConc, Run: func(p connConc) h.Outcome { return runConnConc(t, p) },
	})
	h.Check(t, "C18", h.Prop[connReal]{
		Name:  "sockets",
		Rule:  "concurrent writers, a reader and closers on a real socket whose peer may not read; all are non-trivial",
		Cases: 25, Retries: 20, Weight: 1,
		Gen: func(t *rapid.T) connReal {
			return connReal{Writers: rapid.IntRange(0, 3).Draw(t, "writers"), Closers: rapid.IntRange(1, 4).Draw(t, "closers"),
				PeerReads: rapid.Bool().Draw(t, "reads"), Size: gen.Sized(t, "size", 1<<20, 1, 1000, 100000),
				Yields: rapid.IntRange(0, 2000).Draw(t, "yields"), PeerCloses: rapid.IntRange(0, 3).Draw(t, "pc") == 0}
		},
		Run: runConnReal,
	})
}
