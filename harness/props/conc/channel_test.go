package conc

import (
	"fmt"
	"slices"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
)

// ---- a timeline: what must have happened after every single event ----

type chanOp struct {
	Op string // "send", "recv", "close"
	N  int    // how often, one after the other; 0 is once
	Dt int    // microseconds since the previous operation
}

type chanPlan struct {
	Size   int // -1 is NewDataChannel: no buffer, default expiry
	Expire int // microseconds
	Ops    []chanOp
}

func genChanPlan(t *rapid.T) chanPlan {
	p := chanPlan{Size: gen.Sized(t, "size", 3000, -1, -1, -1, 0, 1, 1, 1, 2, 2, 3, 3, 5, 5, 17, 70, 70, 200), Expire: gen.Dur(t, "expire", time.Microsecond, 100*3600*1000000, 0, 7, 100, 1000, 50000, 2500000, 70000000, 3*3600*1000000)}
	waits := []int{0, 0, 1, 3, 10, 50, 90, 500, 3000, 12000}
	if p.Expire > 50000 {
		waits = append(waits, p.Expire/10, p.Expire/3, p.Expire/2, p.Expire-10, p.Expire-10, p.Expire+10)
	}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) chanOp {
		n := 0
		if p.Size > 5 && rapid.IntRange(0, 2).Draw(t, "burst") == 0 {
			n = rapid.SampledFrom([]int{p.Size - 1, p.Size, p.Size + 2, p.Size/2 + 1}).Draw(t, "n")
		}
		return chanOp{
			N:  n,
			Op: rapid.SampledFrom([]string{"send", "send", "send", "send", "recv", "recv", "recv", "recv", "close"}).Draw(t, "op"),
			Dt: rapid.SampledFrom(waits).Draw(t, "dt"),
		}
	}), 2, 30).Draw(t, "ops")
	if rapid.IntRange(0, 7).Draw(t, "again") == 0 {
		// a few of the operations again and again
		from := rapid.IntRange(0, len(p.Ops)-1).Draw(t, "from")
		part := append([]chanOp(nil), p.Ops[from:min(len(p.Ops), from+rapid.IntRange(1, 3).Draw(t, "of"))]...)
		cost := 0
		for _, x := range part {
			if x.Op == "close" {
				return p
			}
			cost += max(x.N, 1)
		}
		var many []chanOp
		for i, k := 0, min(gen.Sized(t, "times", 1000, 4, 20, 70), 1+1500/cost); i < k; i++ {
			many = append(many, part...)
		}
		p.Ops = append(append(append([]chanOp(nil), p.Ops[:from]...), many...), p.Ops[from:]...)
	}
	return p
}

type sendCall struct {
	id     int
	start  time.Duration
	end    time.Duration
	status int
	done   bool
	seen   bool
}

type recvCall struct {
	start time.Duration
	ev    concurrency.Event
	err   error
	done  bool
	seen  bool
}

func runChanPlan(t *testing.T, p chanPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Ops)}
	bad := ""
	crash := h.Bubble(t, func() { bad = chanTimeline(p, &o) })
	if crash != "" && bad == "" {
		bad = crash
	}
	o.Violation = bad
	return o
}

func chanTimeline(p chanPlan, o *h.Outcome) string {
	var r concurrency.Receiver
	var s concurrency.Sender
	expire := time.Duration(p.Expire) * time.Microsecond
	size := p.Size
	if p.Size < 0 {
		r, s = concurrency.NewDataChannel()
		expire, size = concurrency.DefaultExpireTime, 0
	} else {
		r, s = concurrency.NewDataChannelWithOption(p.Size, expire)
	}
	// what a size of 0 means is left open: without a buffer, or with an unlimited one
	anySize := p.Size == 0
	start := time.Now()
	var mu sync.Mutex
	var sends []*sendCall
	var recvs []*recvCall
	nSends, nRecvs := 0, 0
	var recvBusy bool
	var accepted []int // reported sent, not received yet, in order
	closed := false
	rendezvous, expired, blockedSends := 0, 0, 0
	now := func() time.Duration { return time.Since(start) }
	// step looks at everything that ended since the last look and checks the whole state.
	step := func(what string) string {
		synctest.Wait()
		mu.Lock()
		defer mu.Unlock()
		at := now()
		var got []int
		for _, c := range sends {
			if c.seen || !c.done {
				continue
			}
			c.seen = true
			switch c.status {
			case concurrency.Success:
				if closed && what != "close" {
					return fmt.Sprintf("after %s at %v: the send of %d begun at %v reports success, but the channel is closed", what, at, c.id, c.start)
				}
				got = append(got, c.id)
			case concurrency.Expired:
				expired++
				if closed {
					return fmt.Sprintf("after %s at %v: the send of %d begun at %v reports expiry, but the channel is closed", what, at, c.id, c.start)
				}
				if c.end != c.start+expire {
					return fmt.Sprintf("the send of %d begun at %v reports expiry at %v, the limit is %v", c.id, c.start, c.end, expire)
				}
			case concurrency.Closed:
				if !closed {
					return fmt.Sprintf("the send of %d reports closed, but the channel is open", c.id)
				}
			default:
				return fmt.Sprintf("a send reports status %d", c.status)
			}
		}
		if len(got) > 1 && !closed {
			// one event of the timeline makes room for one send at most
			return fmt.Sprintf("after %s at %v: the sends %v all report success at once", what, at, got)
		}
		if !closed {
			accepted = append(accepted, got...)
		}
		for i, c := range recvs {
			if c.seen || !c.done {
				continue
			}
			c.seen = true
			if c.err != nil {
				if !closed {
					return fmt.Sprintf("Receive reports %v, but the channel is open", c.err)
				}
				if c.err != concurrency.ErrChannelClosed {
					return fmt.Sprintf("Receive on a closed channel reports %v", c.err)
				}
				continue
			}
			if closed {
				return fmt.Sprintf("receive %d returned an event, but the channel is closed", i)
			}
			id, ok := c.ev.Data().(int)
			if len(accepted) == 0 || !ok || accepted[0] != id {
				return fmt.Sprintf("after %s at %v: received %v, the events sent and not received yet are %v", what, at, c.ev.Data(), accepted)
			}
			accepted = accepted[1:]
		}
		var waiting []int
		for _, c := range sends {
			if !c.done {
				waiting = append(waiting, c.id)
				if at > c.start+expire {
					return fmt.Sprintf("the send of %d begun at %v is still waiting at %v, the limit is %v", c.id, c.start, at, expire)
				}
			}
		}
		reader := false
		for _, c := range recvs {
			reader = reader || !c.done
		}
		if closed && (len(waiting) > 0 || reader) {
			return fmt.Sprintf("after %s at %v: the channel is closed, but sends %v wait and a receive waits: %v", what, at, waiting, reader)
		}
		if reader && len(accepted) > 0 {
			return fmt.Sprintf("a receive waits, but events %v are there", accepted)
		}
		if reader && len(waiting) > 0 {
			return fmt.Sprintf("after %s at %v: a receive waits, and so do the sends %v", what, at, waiting)
		}
		if len(waiting) > 0 && len(accepted) < size {
			return fmt.Sprintf("after %s at %v: the sends %v wait, but only %d of %d places are taken", what, at, waiting, len(accepted), size)
		}
		if !anySize && len(accepted) > size {
			return fmt.Sprintf("%d events are buffered, the size is %d", len(accepted), size)
		}
		// those that were looked at need no second look
		sends = slices.DeleteFunc(sends, func(c *sendCall) bool { return c.seen })
		recvs = slices.DeleteFunc(recvs, func(c *recvCall) bool { return c.seen })
		if len(waiting) > 0 {
			blockedSends++
		}
		return ""
	}
	launchRecv := func() {
		recvBusy = true
		c := &recvCall{start: now()}
		recvs = append(recvs, c)
		nRecvs++
		go func() {
			ev, err := r.Receive()
			mu.Lock()
			defer mu.Unlock()
			c.ev, c.err, c.done = ev, err, true
			recvBusy = false
		}()
	}
	finish := func(w string) string {
		r.Close()
		return w
	}
	var ops []chanOp
	for _, op := range p.Ops {
		k := max(1, op.N)
		if op.Op == "close" {
			k = 1
		}
		if k > 1 {
			o.Labels = append(o.Labels, "burst")
		}
		for ; k > 0; k-- {
			ops = append(ops, op)
			op.Dt = 0
		}
	}
	o.Steps = len(ops)
	for i, op := range ops {
		// no two events at the same time: deadlines are half a microsecond off
		next := now() + time.Duration(op.Dt)*time.Microsecond
		if next%1000 != 0 {
			next += 1000 - next%1000
		}
		if d := next + 1000 - now(); d > 0 {
			// stop at every deadline on the way
			for {
				mu.Lock()
				dl := time.Duration(-1)
				for _, c := range sends {
					if e := c.start + expire; !c.done && e > now() && e < next+1000 && (dl < 0 || e < dl) {
						dl = e
					}
				}
				mu.Unlock()
				if dl < 0 {
					break
				}
				time.Sleep(dl - now())
				if w := step("the deadline"); w != "" {
					return finish(w)
				}
			}
			time.Sleep(next + 1000 - now())
		}
		if w := step("waiting"); w != "" {
			return finish(w)
		}
		switch op.Op {
		case "send":
			// an odd offset, unlike all others, so that no deadline meets an event
			time.Sleep(time.Duration(1 + i))
			c := &sendCall{id: i, start: now()}
			sends = append(sends, c)
			nSends++
			mu.Lock()
			free := !closed && (len(accepted) < size || recvBusy)
			mu.Unlock()
			go func() {
				st := s.Send(concurrency.NewEvent("topic", c.id, nil))
				mu.Lock()
				defer mu.Unlock()
				c.status, c.end, c.done = st, now(), true
			}()
			if w := step(fmt.Sprintf("send %d", i)); w != "" {
				return finish(w)
			}
			mu.Lock()
			done, status := c.done, c.status
			mu.Unlock()
			if free && (!done || status != concurrency.Success) {
				return finish(fmt.Sprintf("a send at %v with a reader or room for it does not succeed at once (ended %v, status %d)", c.start, done, status))
			}
			if free && size == 0 {
				rendezvous++
			}
		case "recv":
			mu.Lock()
			busy := recvBusy
			mu.Unlock()
			if busy {
				continue
			}
			mu.Lock()
			have := len(accepted)
			for _, c := range sends {
				if !c.done {
					have++
				}
			}
			mu.Unlock()
			launchRecv()
			if w := step(fmt.Sprintf("recv %d", i)); w != "" {
				return finish(w)
			}
			if have > 0 && recvBusy {
				return finish(fmt.Sprintf("a receive waits although %d events are there", have))
			}
		case "close":
			mu.Lock()
			if recvBusy {
				o.Labels = append(o.Labels, "close-wakes-receiver")
			}
			if len(accepted) > 0 {
				o.Labels = append(o.Labels, "close-drops")
			}
			closed = true
			mu.Unlock()
			r.Close()
			if w := step("close"); w != "" {
				return finish(w)
			}
		}
	}
	// every send ends in time
	time.Sleep(expire + time.Millisecond)
	if w := step("the end"); w != "" {
		return finish(w)
	}
	mu.Lock()
	left := len(accepted)
	mu.Unlock()
	for i := 0; i < left && !closed; i++ {
		launchRecv()
		if w := step("draining"); w != "" {
			return finish(w)
		}
	}
	closed = true
	r.Close()
	if w := step("the final close"); w != "" {
		return w
	}
	if expired > 0 {
		o.Labels = append(o.Labels, "expired")
	}
	if rendezvous > 0 {
		o.Labels = append(o.Labels, "rendezvous")
	}
	if blockedSends > 0 {
		o.Labels = append(o.Labels, "blocked-sender")
	}
	o.NonTrivial = nSends > 0 && nRecvs > 0
	return ""
}

// ---- real races ----

type chanRace struct {
	Size     int
	ExpireUs int
	Senders  int
	Each     int
	// CloseAfter: the receiver closes after that many events; -1: after all senders are done
	CloseAfter int
	CloseBy    string
	Slow       int // yields of the receiver between two receives
	SendSpin   int
}

func genChanRace(t *rapid.T) chanRace {
	p := chanRace{
		Size: gen.Sized(t, "size", 3000, 0, 1, 2, 8, 64), ExpireUs: rapid.SampledFrom([]int{1, 20, 200, 10000000}).Draw(t, "expire"),
		Senders: rapid.IntRange(1, 6).Draw(t, "senders"), Each: min(gen.Sized(t, "each2", 2000, 1, 40, 40, 40, 200), rapid.IntRange(1, 40).Draw(t, "each")*50),
		CloseAfter: rapid.IntRange(-1, 40).Draw(t, "closeafter"), Slow: rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(t, "slow"),
		SendSpin: rapid.SampledFrom([]int{0, 0, 3}).Draw(t, "spin"), CloseBy: rapid.SampledFrom([]string{"receiver", "other"}).Draw(t, "by"),
	}
	if rapid.Bool().Draw(t, "noclose") {
		p.CloseAfter = -1
	}
	return p
}

func runChanRace(p chanRace) h.Outcome {
	o := h.Outcome{Steps: p.Senders * p.Each, NonTrivial: p.Senders*p.Each > 1}
	r, s := concurrency.NewDataChannelWithOption(p.Size, time.Duration(p.ExpireUs)*time.Microsecond)
	if p.Size == 0 {
		r, s = concurrency.NewDataChannel()
	}
	type rec struct{ sender, n, status int }
	var mu sync.Mutex
	var recs []rec
	var closedAt sync.Once
	isClosed := make(chan struct{}) // closed after Close has returned
	doClose := func() { r.Close(); closedAt.Do(func() { close(isClosed) }) }
	bad := ""
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < p.Senders; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < p.Each; n++ {
				known := false
				select {
				case <-isClosed:
					known = true
				default:
				}
				st := s.Send(concurrency.NewEvent("t", [2]int{i, n}, nil))
				if known && st != concurrency.Closed {
					fail("a send begun after Close returned reports status %d", st)
				}
				mu.Lock()
				recs = append(recs, rec{i, n, st})
				mu.Unlock()
				spin(p.SendSpin)
			}
		}()
	}
	var received [][2]int
	sendersDone := make(chan struct{})
	go func() { wg.Wait(); close(sendersDone) }()
	recvDone := make(chan struct{})
	want := make(chan struct{}, 1)
	go func() {
		defer close(recvDone)
		for {
			known := false
			select {
			case <-isClosed:
				known = true
			default:
			}
			ev, err := r.Receive()
			if err != nil {
				if err != concurrency.ErrChannelClosed {
					fail("Receive reports %v", err)
				}
				return
			}
			if known {
				fail("Receive begun after Close returned gave an event")
			}
			mu.Lock()
			received = append(received, ev.Data().([2]int))
			n := len(received)
			mu.Unlock()
			if n == p.CloseAfter {
				if p.CloseBy == "receiver" {
					doClose()
				} else {
					want <- struct{}{}
				}
			}
			spin(p.Slow)
		}
	}()
	timeout := time.After(150 * time.Second)
	for waiting := true; waiting; {
		select {
		case <-want:
			doClose()
		case <-sendersDone:
			waiting = false
		case <-timeout:
			return h.Fail("senders are still blocked after 150 s")
		}
	}
	early := false
	select {
	case <-isClosed:
		early = true
	default:
	}
	succeeded := func() int {
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for _, x := range recs {
			if x.status == concurrency.Success {
				n++
			}
		}
		return n
	}
	if !early {
		// everything reported sent must still come
		need := succeeded()
		limit := time.Now().Add(20 * time.Second)
		for {
			select {
			case <-want:
				doClose()
			default:
			}
			select {
			case <-isClosed:
				early = true
			default:
			}
			mu.Lock()
			n := len(received)
			mu.Unlock()
			if n >= need || early || bad != "" {
				break
			}
			if time.Now().After(limit) {
				return h.Fail("%d sends report success, but only %d events are received", need, n)
			}
			time.Sleep(50 * time.Microsecond)
		}
		select {
		case <-isClosed:
			early = true
		default:
		}
	}
	doClose()
	select {
	case <-recvDone:
	case <-time.After(30 * time.Second):
		return h.Fail("a waiting Receive is still blocked 30 s after Close")
	}
	if st := s.Send(concurrency.NewEvent("t", 1, nil)); st != concurrency.Closed {
		return h.Fail("a send after Close reports status %d", st)
	}
	if _, err := r.Receive(); err != concurrency.ErrChannelClosed {
		return h.Fail("Receive after Close reports %v", err)
	}
	r.Close()
	mu.Lock()
	defer mu.Unlock()
	if bad != "" {
		return h.Fail("%s", bad)
	}
	status := map[[2]int]int{}
	succ := 0
	for _, x := range recs {
		status[[2]int{x.sender, x.n}] = x.status
		if x.status == concurrency.Success {
			succ++
		}
		switch x.status {
		case concurrency.Expired:
			o.Labels = append(o.Labels, "expired")
		case concurrency.Closed:
			o.Labels = append(o.Labels, "closed")
		}
	}
	lastN := map[int]int{}
	seen := map[[2]int]bool{}
	for _, x := range received {
		if seen[x] {
			return h.Fail("event %v was received twice", x)
		}
		seen[x] = true
		if status[x] != concurrency.Success {
			return h.Fail("event %v was received although its send reports status %d", x, status[x])
		}
		if l, ok := lastN[x[0]]; ok && l >= x[1] {
			return h.Fail("event %v was received after event %d of the same sender", x, l)
		}
		lastN[x[0]] = x[1]
	}
	if !early && len(received) != succ {
		return h.Fail("%d sends report success, %d events were received", succ, len(received))
	}
	if p.CloseAfter < 0 {
		o.Labels = append(o.Labels, "drained")
	}
	sort.Strings(o.Labels)
	return o
}

func TestC20(t *testing.T) {
	h.Plan(3.3)
	h.Check(t, "C20", h.Prop[chanRace]{
		Name:  "huge",
		Rule:  "2^15 or 2^16 events (or a few more) through one channel, from 1 to 3 senders on real threads, with a receiver that keeps up or not; all are non-trivial",
		Cases: 1, Retries: 3, Weight: 0.3, Run: runChanRace, Shrink: 10 * time.Second,
		Gen: func(t *rapid.T) chanRace {
			n := rapid.IntRange(1, 3).Draw(t, "senders")
			return chanRace{Size: rapid.SampledFrom([]int{1, 8, 1000, 100000}).Draw(t, "size"), ExpireUs: 10000000, Senders: n, Each: min(gen.HugeSize(t), 70000)/n + 1, CloseAfter: -1}
		},
	})
	h.Check(t, "C20", h.Prop[chanPlan]{
		Name:  "timeline",
		Rule:  "2 to 30 sends, receives and closes at generated virtual times with generated capacity and expiry; after every single event the whole state (who waits, who ended and how, what is buffered) is checked; non-trivial with a send and a receive",
		Cases: 9000, Retries: 50, Weight: 2, Gen: genChanPlan, Run: func(p chanPlan) h.Outcome { return runChanPlan(t, p) },
	})
	h.Check(t, "C20", h.Prop[chanRace]{
		Name:  "race",
		Rule:  "1 to 6 senders of up to 40 events each on real threads against one receiver, closed at a generated point or drained; non-trivial with at least two events",
		Cases: 2500, Retries: 200, Weight: 1, Gen: genChanRace, Run: runChanRace,
	})
}
