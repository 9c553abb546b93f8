package conc

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
)

var errTask = errors.New("the task's own error")

// futResult makes the task's outcome: its result and its error.
func futResult(kind int) (interface{}, error) {
	switch kind % 7 {
	case 0:
		return kind, nil
	case 1:
		return nil, errTask
	case 2:
		return "both", errTask
	case 3:
		return nil, nil
	case 4:
		return nil, concurrency.ErrCancelled
	case 5:
		return "odd", concurrency.ErrTimeout
	}
	return nil, fmt.Errorf("wrapped: %w", concurrency.ErrFulfilled)
}

type futOp struct {
	At int // microseconds since the start
	Op string
	D  int // duration in microseconds of a timed wait
}

type futPlan struct {
	Task int // microseconds the task takes, -1: it ends only when everything else is over
	Kind int
	Ctor int // which task constructor
	Unit int // nanoseconds instead of microseconds, if not 0
	Ops  []futOp
}

func genFutPlan(t *rapid.T) futPlan {
	times := []int{0, 1, 10, 50, 99, 100, 101, 500, 1000}
	p := futPlan{
		Task: rapid.SampledFrom([]int{-1, 0, 1, 100, 100, 100, 500, 1000}).Draw(t, "task"),
		Kind: rapid.IntRange(0, 6).Draw(t, "kind"),
		Ctor: rapid.IntRange(0, 2).Draw(t, "ctor"),
	}
	p.Unit = gen.Dur(t, "unit", 1, int(1000*time.Hour), 0, 0, 0, 1, int(ms), int(time.Second), int(time.Minute))
	if rapid.Bool().Draw(t, "hundreds") {
		p.Unit /= rapid.SampledFrom([]int{50, 100, 200, 500, 1000}).Draw(t, "part")
	}
	most := gen.Sized(t, "most", 400, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 70, 150)
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) futOp {
		return futOp{
			At: rapid.SampledFrom(times).Draw(t, "at"),
			Op: rapid.SampledFrom([]string{"get", "wait", "waitfor", "waitfor", "cancel", "cancel"}).Draw(t, "op"),
			D:  rapid.SampledFrom([]int{-5, 0, 1, 50, 100, 200, 5000}).Draw(t, "d"),
		}
	}), 1, 9).Draw(t, "ops")
	if most > 9 {
		for n := len(p.Ops); len(p.Ops) < most; {
			p.Ops = append(p.Ops, p.Ops[len(p.Ops)%n])
		}
	}
	return p
}

func makeTask(ctor int, kind int, body func()) (concurrency.Task, interface{}, error) {
	v, e := futResult(kind)
	switch {
	case ctor == 1:
		return concurrency.NewNoErrorTask(func() interface{} { body(); return v }), v, nil
	default:
		return concurrency.NewTask(func() (interface{}, error) { body(); return v, e }), v, e
	}
}

type futCall struct {
	op         futOp
	start, end time.Duration
	val        interface{}
	err        error
	done       bool
}

func runFutPlan(t *testing.T, p futPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Ops)}
	bad := ""
	crash := h.Bubble(t, func() { bad = futTimeline(p, &o) })
	if crash != "" && bad == "" {
		bad = crash
	}
	o.Violation = bad
	return o
}

func futTimeline(p futPlan, o *h.Outcome) string {
	us := time.Microsecond
	if p.Unit > 0 {
		us = time.Duration(p.Unit)
	}
	start := time.Now()
	var runs int32
	gate := make(chan struct{})
	task, wantV, wantE := makeTask(p.Ctor, p.Kind, func() {
		atomic.AddInt32(&runs, 1)
		if p.Task < 0 {
			<-gate
		} else if p.Task > 0 {
			time.Sleep(time.Duration(p.Task) * us)
		}
	})
	fut := concurrency.NewFuture(task)
	calls := make([]*futCall, len(p.Ops))
	var mu sync.Mutex
	for i, op := range p.Ops {
		c := &futCall{op: op}
		calls[i] = c
		go func() {
			if op.At > 0 {
				time.Sleep(time.Duration(op.At) * us)
			}
			c.start = time.Since(start)
			var v interface{}
			var err error
			switch op.Op {
			case "get":
				v, err = fut.Get()
			case "wait":
				err = fut.Wait()
			case "waitfor":
				err = fut.WaitFor(time.Duration(op.D) * us)
			case "cancel":
				err = fut.Cancel()
			}
			mu.Lock()
			defer mu.Unlock()
			c.val, c.err, c.end, c.done = v, err, time.Since(start), true
		}()
	}
	time.Sleep(20000 * us)
	synctest.Wait()
	// when and how did it settle?
	cancelAt := time.Duration(-1)
	for _, c := range calls {
		if c.op.Op == "cancel" {
			at := time.Duration(c.op.At) * us
			if cancelAt < 0 || at < cancelAt {
				cancelAt = at
			}
		}
	}
	taskAt := time.Duration(p.Task) * us
	const (
		fulfilled = 1
		cancelled = 2
	)
	can := 0 // possible outcomes
	var settle time.Duration
	switch {
	case p.Task < 0 && cancelAt < 0:
		settle = -1
	case p.Task < 0:
		settle, can = cancelAt, cancelled
	case cancelAt < 0:
		settle, can = taskAt, fulfilled
	case taskAt < cancelAt:
		settle, can = taskAt, fulfilled
	case cancelAt < taskAt:
		settle, can = cancelAt, cancelled
	default:
		settle, can = taskAt, fulfilled|cancelled
		o.Labels = append(o.Labels, "tie")
	}
	got := 0
	conflict := ""
	saw := func(i, how int) {
		if conflict != "" {
			return
		}
		if can&how == 0 || (got != 0 && got != how) {
			conflict = fmt.Sprintf("operation %d (%+v) saw the future %s at %v, which contradicts the others (%s possible)", i, calls[i].op, name(how), calls[i].end, name(can))
			return
		}
		got = how
	}
	success := 0
	kinds := map[string]bool{}
	judge := func(i int) string {
		c := calls[i]
		kinds[c.op.Op] = true
		if !c.done {
			if c.op.Op == "cancel" || c.op.Op == "waitfor" || settle >= 0 {
				return fmt.Sprintf("operation %d (%+v) still blocks, the future settled at %v", i, c.op, settle)
			}
			return ""
		}
		switch c.op.Op {
		case "cancel":
			if c.end != c.start {
				return fmt.Sprintf("operation %d: Cancel took until %v", i, c.end)
			}
			switch {
			case c.err == nil:
				success++
				saw(i, cancelled)
				if c.start > settle {
					return fmt.Sprintf("operation %d: Cancel at %v succeeded although the future settled at %v", i, c.start, settle)
				}
			case errors.Is(c.err, concurrency.ErrCancelled):
				saw(i, cancelled)
			case errors.Is(c.err, concurrency.ErrFulfilled):
				saw(i, fulfilled)
			default:
				return fmt.Sprintf("operation %d: Cancel reports %v", i, c.err)
			}
			return ""
		case "waitfor":
			end := c.start + time.Duration(c.op.D)*us
			if end < c.start {
				end = c.start
			}
			if c.err == concurrency.ErrTimeout {
				o.Labels = append(o.Labels, "timeout")
				if settle >= 0 && settle < end {
					return fmt.Sprintf("operation %d: a timed wait of %v begun at %v reports a timeout, although the future settled at %v", i, time.Duration(c.op.D)*us, c.start, settle)
				}
				if c.end != end {
					return fmt.Sprintf("operation %d: a timed wait until %v reports its timeout at %v", i, end, c.end)
				}
				return ""
			}
			if settle < 0 || settle > end {
				return fmt.Sprintf("operation %d: a timed wait from %v until %v reports %v, although the future had not settled (it does at %v)", i, c.start, end, c.err, settle)
			}
		case "get":
			if settle >= 0 && (got == fulfilled || can == fulfilled) {
				break
			}
		}
		if settle < 0 {
			return fmt.Sprintf("operation %d (%+v) returned although the future has not settled", i, c.op)
		}
		want := settle
		if c.start > settle {
			want = c.start
		}
		if c.end != want {
			return fmt.Sprintf("operation %d (%+v) returned at %v, the future settled at %v", i, c.op, c.end, settle)
		}
		if c.op.Op == "get" {
			// the task's own error may look like a cancellation
			if can == cancelled {
				if c.val != nil || c.err != concurrency.ErrCancelled {
					return fmt.Sprintf("operation %d: Get of a cancelled future gives (%v, %v)", i, c.val, c.err)
				}
			} else if can == fulfilled {
				if c.val != wantV || c.err != wantE {
					return fmt.Sprintf("operation %d: Get gives (%v, %v), the task returned (%v, %v)", i, c.val, c.err, wantV, wantE)
				}
			} else {
				isF := c.val == wantV && c.err == wantE
				isC := c.val == nil && c.err == concurrency.ErrCancelled
				if !isF && !isC {
					return fmt.Sprintf("operation %d: Get gives (%v, %v), the task returned (%v, %v)", i, c.val, c.err, wantV, wantE)
				}
				if isF != isC {
					if isF {
						saw(i, fulfilled)
					} else {
						saw(i, cancelled)
					}
				}
			}
			return ""
		}
		switch c.err {
		case nil:
			saw(i, fulfilled)
		case concurrency.ErrCancelled:
			saw(i, cancelled)
		default:
			return fmt.Sprintf("operation %d (%+v) reports %v", i, c.op, c.err)
		}
		return ""
	}
	mu.Lock()
	for i := range calls {
		if w := judge(i); w != "" {
			mu.Unlock()
			close(gate)
			return w
		}
	}
	mu.Unlock()
	if conflict == "" && got == cancelled && success != 1 {
		conflict = fmt.Sprintf("the future was cancelled, but %d Cancel calls report that they did it", success)
	}
	if conflict == "" && got == fulfilled && success != 0 {
		conflict = "the future was fulfilled, but a Cancel succeeded"
	}
	close(gate)
	synctest.Wait()
	if n := atomic.LoadInt32(&runs); n != 1 && conflict == "" {
		conflict = fmt.Sprintf("the task ran %d times", n)
	}
	// and afterwards everyone agrees for ever
	if conflict == "" {
		if got == 0 && can == fulfilled || settle < 0 {
			got = fulfilled
		} else if got == 0 && can == cancelled {
			got = cancelled
		}
		for i := 0; i < 2 && got != 0 && conflict == ""; i++ {
			v, err := fut.Get()
			werr, wf := fut.Wait(), fut.WaitFor(0)
			cerr := fut.Cancel()
			if got == fulfilled && (v != wantV || err != wantE || werr != nil || wf != nil || cerr != concurrency.ErrFulfilled) ||
				got == cancelled && (v != nil || err != concurrency.ErrCancelled || werr != concurrency.ErrCancelled || wf != concurrency.ErrCancelled || cerr != concurrency.ErrCancelled) {
				conflict = fmt.Sprintf("the future is %s, but later Get gives (%v, %v), Wait %v, WaitFor %v, Cancel %v", name(got), v, err, werr, wf, cerr)
			}
		}
		o.Labels = append(o.Labels, name(got))
	}
	o.NonTrivial = len(p.Ops) >= 2 && len(kinds) >= 2
	return conflict
}

func name(how int) string {
	return []string{"unsettled", "fulfilled", "cancelled", "either"}[how]
}

// ---- real races ----

type futRace struct {
	Kind      int
	Cancels   int
	Gets      int
	Waits     int
	Timed     int
	TimedUs   int
	TaskSpins int
	CallSpins []int
	Rounds    int
}

func genFutRace(t *rapid.T) futRace {
	return futRace{
		Kind: rapid.IntRange(0, 3).Draw(t, "kind"), Cancels: rapid.IntRange(0, 4).Draw(t, "cancels"),
		Gets: gen.Sized(t, "gets", 200, 0, 1, 2, 3, 0, 1, 2, 3, 30), Waits: rapid.IntRange(0, 2).Draw(t, "waits"),
		Timed: rapid.IntRange(0, 3).Draw(t, "timed"), TimedUs: rapid.SampledFrom([]int{0, 1, 5, 20, 1000000}).Draw(t, "us"),
		TaskSpins: rapid.SampledFrom([]int{0, 0, 1, 3, 10, 40}).Draw(t, "spins"),
		CallSpins: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 20}), 4, 4).Draw(t, "callspins"),
		Rounds:    20,
	}
}

func spin(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

func runFutRace(p futRace) h.Outcome {
	o := h.Outcome{Steps: p.Rounds * (p.Cancels + p.Gets + p.Waits + p.Timed)}
	o.NonTrivial = p.Cancels+p.Gets+p.Waits+p.Timed >= 2
	for r := 0; r < p.Rounds; r++ {
		wantV, wantE := futResult(p.Kind)
		var runs int32
		start := make(chan struct{})
		fut := concurrency.NewFuture(concurrency.NewTask(func() (interface{}, error) {
			atomic.AddInt32(&runs, 1)
			<-start
			spin(p.TaskSpins)
			return wantV, wantE
		}))
		var mu sync.Mutex
		ok, asC, asF := 0, 0, 0
		var odd string
		note := func(what string, isC, isF bool) {
			mu.Lock()
			defer mu.Unlock()
			if isC {
				asC++
			} else if isF {
				asF++
			} else if odd == "" {
				odd = what
			}
		}
		var wg sync.WaitGroup
		launch := func(n int, f func()) {
			for i := 0; i < n; i++ {
				wg.Add(1)
				k := p.CallSpins[i%len(p.CallSpins)]
				go func() { defer wg.Done(); <-start; spin(k); f() }()
			}
		}
		launch(p.Cancels, func() {
			err := fut.Cancel()
			if err == nil {
				mu.Lock()
				ok++
				mu.Unlock()
			}
			note(fmt.Sprintf("Cancel reports %v", err), err == nil || err == concurrency.ErrCancelled, err == concurrency.ErrFulfilled)
			// once settled, a timed wait never times out
			if e := fut.WaitFor(0); e == concurrency.ErrTimeout {
				note("a timed wait after a Cancel reports a timeout", false, false)
			}
		})
		launch(p.Gets, func() {
			v, err := fut.Get()
			note(fmt.Sprintf("Get gives (%v, %v)", v, err), v == nil && err == concurrency.ErrCancelled, v == wantV && err == wantE)
		})
		launch(p.Waits, func() {
			err := fut.Wait()
			note(fmt.Sprintf("Wait gives %v", err), err == concurrency.ErrCancelled, err == nil)
		})
		launch(p.Timed, func() {
			err := fut.WaitFor(time.Duration(p.TimedUs) * time.Microsecond)
			if err != concurrency.ErrTimeout {
				note(fmt.Sprintf("WaitFor gives %v", err), err == concurrency.ErrCancelled, err == nil)
			}
		})
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			return h.Fail("callers are still blocked 30 s after the future settled")
		}
		if odd != "" {
			return h.Fail("%s", odd)
		}
		if asC > 0 && asF > 0 {
			return h.Fail("callers disagree: %d saw the future cancelled, %d fulfilled", asC, asF)
		}
		if asC > 0 && ok != 1 {
			return h.Fail("%d Cancel calls succeeded on a cancelled future", ok)
		}
		if err := fut.Wait(); (err == concurrency.ErrCancelled) != (asC > 0) && asC+asF > 0 {
			return h.Fail("a later Wait gives %v, but earlier callers saw another outcome", err)
		}
		if n := atomic.LoadInt32(&runs); n > 1 {
			return h.Fail("the task ran %d times", n)
		}
		if asC > 0 {
			o.Labels = append(o.Labels, "cancelled")
		} else if asF > 0 {
			o.Labels = append(o.Labels, "fulfilled")
		}
	}
	return o
}

func TestC19(t *testing.T) {
	h.Plan(3)
	h.Check(t, "C19", h.Prop[futPlan]{
		Name:  "timeline",
		Rule:  "a task of generated duration and outcome, and 1 to 9 concurrent Get, Wait, WaitFor and Cancel calls at generated, often coinciding virtual times, against a timed model of settlement; non-trivial with at least two kinds of calls",
		Cases: 12000, Retries: 100, Weight: 2, Gen: genFutPlan, Run: func(p futPlan) h.Outcome { return runFutPlan(t, p) },
		Fixed: []futPlan{{Task: 100, Ops: []futOp{{At: 100, Op: "cancel"}, {At: 100, Op: "cancel"}, {At: 100, Op: "get"}}}},
	})
	h.Check(t, "C19", h.Prop[futRace]{
		Name:  "race",
		Rule:  "20 futures per case whose task and up to 12 callers start at the same instant on real threads, with generated numbers of yields; all callers must agree; non-trivial with at least two callers",
		Cases: 2500, Retries: 200, Weight: 1, Gen: genFutRace, Run: runFutRace,
	})
}
