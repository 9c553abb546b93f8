package conc

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/lxdlam/vertex/pkg/concurrency"
	"pgregory.net/rapid"

	"vertexverif/h"
)

// ---- topics created, removed and looked for at the same time ----

// busReg is what several goroutines do to the same few topics: the k-th operations of all are released together.
type busReg struct {
	Actors [][]regOp
	Topics int
	Rounds int // how often all of it is done, with new topics
}

type regOp struct {
	Op    string
	Topic int
	Spin  int
}

func genBusReg(t *rapid.T) busReg {
	kinds := []string{"new", "new", "new", "remove", "exist", "subscribe", "publish"}
	switch rapid.IntRange(0, 4).Draw(t, "mix") {
	case 0:
		kinds = []string{"new"}
	case 1:
		kinds = []string{"new", "remove"}
	case 2:
		kinds = []string{"new", "subscribe"}
	}
	topics := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "topics")
	length := rapid.IntRange(1, 4).Draw(t, "length")
	op := rapid.Custom(func(t *rapid.T) regOp {
		return regOp{Op: rapid.SampledFrom(kinds).Draw(t, "op"), Topic: rapid.IntRange(0, topics-1).Draw(t, "topic"), Spin: rapid.SampledFrom([]int{0, 0, 0, 1, 5, 30}).Draw(t, "spin")}
	})
	p := busReg{Topics: topics, Rounds: rapid.SampledFrom([]int{20, 60, 200}).Draw(t, "rounds")}
	p.Actors = rapid.SliceOfN(rapid.SliceOfN(op, length, length), 2, 6).Draw(t, "actors")
	return p
}

type regOut struct {
	OK  bool
	Err string
}

var regModel = porcupine.Model{
	Partition: func(history []porcupine.Operation) [][]porcupine.Operation {
		by := map[int][]porcupine.Operation{}
		for _, o := range history {
			k := o.Input.(regOp).Topic
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range by {
			out = append(out, v)
		}
		return out
	},
	Init: func() interface{} { return false },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		exists, out := state.(bool), output.(regOut)
		switch input.(regOp).Op {
		case "new":
			return out.OK == !exists, true
		case "remove":
			return out.OK == exists, false
		default: // exist, subscribe and publish tell if there is one
			return out.OK == exists, exists
		}
	},
}

func runBusReg(p busReg) h.Outcome {
	o := h.Outcome{Steps: p.Rounds * len(p.Actors) * len(p.Actors[0]), NonTrivial: len(p.Actors) > 1}
	bus := concurrency.GetEventBus()
	overlap := false
	for round := 0; round < p.Rounds; round++ {
		serial := busSerial.Add(1)
		name := func(topic int) string { return fmt.Sprintf("c21-reg-%d-%d", serial, topic) }
		histories := make([][]porcupine.Operation, len(p.Actors))
		receivers := make([][]concurrency.Receiver, len(p.Actors))
		var clock, arrived atomic.Int64
		var wg sync.WaitGroup
		for a, ops := range p.Actors {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, op := range ops {
					arrived.Add(1)
					for arrived.Load() < int64((k+1)*len(p.Actors)) {
						runtime.Gosched()
					}
					spin(op.Spin)
					var out regOut
					call := clock.Add(1)
					switch op.Op {
					case "new":
						out.OK = bus.NewTopic(name(op.Topic))
					case "remove":
						out.OK = bus.RemoveTopic(name(op.Topic))
					case "exist":
						out.OK = bus.ExistTopic(name(op.Topic))
					case "subscribe":
						r, err := bus.SubscribeWithOptions(name(op.Topic), fmt.Sprint(a, "-", k), 100, time.Minute)
						if err == nil {
							out.OK = true
							receivers[a] = append(receivers[a], r)
						} else if err != concurrency.ErrNoSuchTopic {
							out.Err = fmt.Sprintf("subscribing gives %v", err)
						}
					case "publish":
						if v, err := bus.Publish(name(op.Topic), k, nil).Get(); err == nil {
							if _, ok := v.(int); !ok {
								out.Err = fmt.Sprintf("publishing gives (%v, %v)", v, err)
							}
							out.OK = true
						} else if err != concurrency.ErrNoSuchTopic {
							out.Err = fmt.Sprintf("publishing gives (%v, %v)", v, err)
						}
					}
					histories[a] = append(histories[a], porcupine.Operation{ClientId: a, Input: op, Call: call, Output: out, Return: clock.Add(1)})
				}
			}()
		}
		wg.Wait()
		for topic := 0; topic < p.Topics; topic++ {
			exists := bus.ExistTopic(name(topic))
			if removed := bus.RemoveTopic(name(topic)); removed != exists {
				return h.Fail("round %d: ExistTopic gives %v, then RemoveTopic gives %v", round, exists, removed)
			}
		}
		var ops []porcupine.Operation
		for _, mine := range histories {
			for _, op := range mine {
				if e := op.Output.(regOut).Err; e != "" {
					return h.Fail("round %d: %s", round, e)
				}
				if len(ops) > 0 && ops[len(ops)-1].Return > op.Call {
					overlap = true
				}
				ops = append(ops, op)
			}
		}
		if porcupine.CheckOperationsTimeout(regModel, ops, 20*time.Second) == porcupine.Illegal {
			text := ""
			for _, op := range ops {
				text += fmt.Sprintf("\n  goroutine %d [%d, %d]: %s of topic %d gives %v", op.ClientId, op.Call, op.Return, op.Input.(regOp).Op, op.Input.(regOp).Topic, op.Output.(regOut).OK)
			}
			return h.Fail("round %d: no order of these operations explains what they give:%s", round, text)
		}
		// every topic is removed by now, and whoever had subscribed has been told
		for a := range receivers {
			for _, r := range receivers[a] {
				told := false
				for !told {
					got := make(chan error, 1)
					go func() {
						ev, err := r.Receive()
						if err == nil {
							err = ev.Error()
						}
						got <- err
					}()
					select {
					case err := <-got:
						if err == concurrency.ErrChannelClosed {
							return h.Fail("round %d: a subscription that nobody closed is closed", round)
						}
						told = err == concurrency.ErrTopicRemoved
					case <-time.After(20 * time.Second):
						return h.Fail("round %d: a subscriber of goroutine %d has not been told that its topic is removed", round, a)
					}
				}
				r.Close()
			}
		}
	}
	if overlap {
		o.Labels = append(o.Labels, "overlap")
	}
	return o
}
