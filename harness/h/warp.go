package h

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Wait is a span of virtual time that passes before step At of a plan.
type Wait struct {
	At int
	Ms int64
}

var (
	warpT   *testing.T
	warpOff bool // something under test goes on for ever, so virtual time is of no use
	waits   []Wait
	steps   int
)

// GenWaits draws where time passes in a plan of n steps: mostly nowhere.
func GenWaits(t *rapid.T, n int) []Wait {
	if n == 0 || rapid.IntRange(0, 7).Draw(t, "waits") > 0 {
		return nil
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Wait {
		return Wait{rapid.IntRange(0, n-1).Draw(t, "wait-at"), rapid.SampledFrom([]int64{1, 60, 250, 1100, 5500, 11000, 31000, 61000, 301000, 601000, 3601000, 90000000, 40000000000}).Draw(t, "wait-ms")}
	}), 1, 4).Draw(t, "wait")
}

// Tick tells that the next step of the plan comes; its waits pass.
func Tick() {
	if len(waits) == 0 {
		return
	}
	for _, w := range waits {
		if w.At == steps {
			time.Sleep(time.Duration(w.Ms) * time.Millisecond)
		}
	}
	steps++
}

// Warp runs a plan in virtual time, in which Tick waits as ws says. Without
// waits it just runs it.
func Warp(ws []Wait, run func() Outcome) Outcome {
	if len(ws) == 0 || warpOff || warpT == nil {
		return run()
	}
	var o Outcome
	var trouble any
	done, ended := make(chan struct{}), make(chan string, 1)
	go func() {
		defer func() {
			bad := ""
			if r := recover(); r != nil {
				bad = fmt.Sprint(r)
			}
			ended <- bad
		}()
		synctest.Test(warpT, func(*testing.T) {
			defer close(done)
			waits, steps = ws, 0
			o, trouble = runCounted(func(struct{}) Outcome { return run() }, struct{}{})
		})
	}()
	select {
	case <-done:
		select {
		case <-ended: // goroutines that stay behind are none of our business
		case <-time.After(3 * time.Second):
			warpOff = true
		}
	case bad := <-ended:
		select {
		case <-done:
		default:
			waits = nil
			if !strings.Contains(bad, "deadlock") {
				Internal("virtual time: %s", bad)
			}
			return Fail("an operation waits for ever: %s", bad)
		}
	}
	waits = nil
	if trouble != nil {
		panic(trouble)
	}
	if o.Violation != "" {
		o.Violation = fmt.Sprintf("(with time passing: %v) %s", ws, o.Violation)
	}
	o.Labels = append(o.Labels, "time passes")
	return o
}

// Timed is a plan during which virtual time passes.
type Timed[P any] struct {
	Plan  P
	Waits []Wait `json:",omitempty"`
}

// WithTime lets time pass during the plans of a property whose Run calls Tick.
func WithTime[P any](prop Prop[P]) Prop[Timed[P]] {
	q := Prop[Timed[P]]{Name: prop.Name, Rule: prop.Rule + "; now and then time passes between the steps", Cases: prop.Cases, Journal: prop.Journal, Retries: prop.Retries, Weight: prop.Weight, Shrink: prop.Shrink,
		Gen: func(t *rapid.T) Timed[P] { return Timed[P]{prop.Gen(t), GenWaits(t, 30)} },
		Run: func(p Timed[P]) Outcome { return Warp(p.Waits, func() Outcome { return prop.Run(p.Plan) }) },
	}
	for _, p := range prop.Fixed {
		q.Fixed = append(q.Fixed, Timed[P]{Plan: p})
	}
	return q
}
