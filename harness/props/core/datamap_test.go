package core

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/lxdlam/vertex/pkg/types"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
)

var mapKinds = []string{"simple", "locked", "sync"}

func newMap(kind string) types.DataMap {
	switch kind {
	case "simple":
		return types.NewSimpleDataMap()
	case "locked":
		return types.NewLockedDataMap()
	}
	return types.NewSyncDataMap()
}

type mapOp struct {
	Op  string
	Key h.Bytes
	// Val selects a value; 0 is nil.
	Val int
}

type mapSeq struct {
	Fill int `json:",omitempty"` // so many other keys are there from the start
	Ops  []mapOp
}

type opaque struct{ n int }

var sliceVals = [][]int{{1}, {1}, nil, {}}
var mapVals = []map[string]int{{"a": 1}, {"a": 1}, nil}
var funcVal = func() {}
var chanVal = make(chan int)

// mapVal is the i-th value. Some of them cannot be compared with ==.
func mapVal(i int) interface{} {
	switch i % 12 {
	case 0:
		return nil
	case 1:
		return i
	case 2:
		return fmt.Sprint("v", i)
	case 3:
		return opaque{i}
	case 4:
		return true
	case 6:
		return sliceVals[i/12%len(sliceVals)]
	case 7:
		return mapVals[i/12%len(mapVals)]
	case 8:
		return funcVal
	case 9:
		return chanVal
	case 10:
		return struct {
			n int
			s []int
		}{i, sliceVals[0]}
	case 11:
		return math.NaN()
	}
	return (*opaque)(nil)
}

// sameVal tells whether two values are the same one, whatever they are.
func sameVal(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Slice:
		return x.Pointer() == y.Pointer() && x.Len() == y.Len()
	case reflect.Map, reflect.Func, reflect.Chan:
		return x.Pointer() == y.Pointer()
	case reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	case reflect.Struct:
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

func runMapSeq(p mapSeq) h.Outcome {
	maps := map[string]types.DataMap{}
	for _, k := range mapKinds {
		maps[k] = newMap(k)
	}
	want := map[string]interface{}{}
	keys := map[string]bool{"never": true}
	o := h.Outcome{Steps: len(p.Ops)}
	for i := 0; i < p.Fill; i++ {
		k := fmt.Sprint("fill", i)
		for _, kind := range mapKinds {
			maps[kind].Set(k, mapVal(i))
		}
		want[k] = mapVal(i)
		if i%100 == 0 || i == p.Fill-1 {
			keys[k] = true
		}
	}
	check := func(i int) string {
		for _, kind := range mapKinds {
			m := maps[kind]
			if m.Len() != len(want) {
				return fmt.Sprintf("%s map after operation %d: Len() is %d, want %d", kind, i, m.Len(), len(want))
			}
			for k := range keys {
				w, ok := want[k]
				v, got := m.Get(k)
				if got != ok || !sameVal(v, w) {
					return fmt.Sprintf("%s map after operation %d: Get(%q) is %v, %v, want %v, %v", kind, i, k, v, got, w, ok)
				}
				if m.Has(k) != ok {
					return fmt.Sprintf("%s map after operation %d: Has(%q) is %v, want %v", kind, i, k, m.Has(k), ok)
				}
			}
		}
		return ""
	}
	if w := check(-1); w != "" {
		return h.Fail("%s", w)
	}
	for i, op := range p.Ops {
		h.Tick()
		k := string(op.Key)
		keys[k] = true
		for _, kind := range mapKinds {
			if op.Op == "set" {
				maps[kind].Set(k, mapVal(op.Val))
			} else {
				maps[kind].Remove(k)
			}
		}
		if op.Op == "set" {
			if _, ok := want[k]; ok {
				o.Labels = append(o.Labels, "overwrite")
			}
			if mapVal(op.Val) == nil {
				o.Labels = append(o.Labels, "nil-value")
			}
			want[k] = mapVal(op.Val)
		} else {
			if _, ok := want[k]; !ok {
				o.Labels = append(o.Labels, "remove-missing")
			}
			delete(want, k)
		}
		if w := check(i); w != "" {
			return h.Fail("%s", w)
		}
	}
	o.NonTrivial = len(p.Ops) >= 2
	return o
}

type mapConc struct {
	Kind   string
	Rounds int
	Vals   int // 0: each stored value is another one, 1: one per key, 2: nil, 3: each another one that == cannot compare
	// Each worker runs its operations in order, Rounds times.
	Workers [][]mapOp
}

type stamp struct {
	key    string
	worker int
	n      int
}

func runMapConc(p mapConc) h.Outcome {
	m := newMap(p.Kind)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad string
	report := func(f string, a ...interface{}) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	type last struct {
		val     interface{}
		present bool
	}
	lasts := make([]map[string]last, len(p.Workers))
	all := map[string]bool{}
	for w, ops := range p.Workers {
		for _, op := range ops {
			all[keyOf(w, op)] = true
		}
	}
	start := make(chan struct{})
	for w, ops := range p.Workers {
		lasts[w] = map[string]last{}
		wg.Add(1)
		go func(w int, ops []mapOp) {
			defer wg.Done()
			<-start
			n := 0
			for r := 0; r < p.Rounds; r++ {
				for _, op := range ops {
					k := keyOf(w, op)
					private := strings.HasPrefix(k, "p")
					switch op.Op {
					case "set":
						n++
						var v interface{} = stamp{k, w, n}
						if p.Vals == 1 {
							v = stamp{k, -1, 0}
						} else if p.Vals == 2 {
							v = nil
						} else if p.Vals == 3 {
							v = []stamp{{k, w, n}}
						}
						m.Set(k, v)
						lasts[w][k] = last{v, true}
					case "remove":
						m.Remove(k)
						lasts[w][k] = last{}
					case "get":
						v, ok := m.Get(k)
						if ok && p.Vals == 2 {
							if v != nil {
								report("%s map: Get(%q) returned %v, which was never stored for it", p.Kind, k, v)
							}
						} else if ok {
							s, isS := v.(stamp)
							if l, many := v.([]stamp); many && len(l) == 1 {
								s, isS = l[0], true
							}
							if !isS || s.key != k {
								report("%s map: Get(%q) returned %v, which was never stored for it", p.Kind, k, v)
							} else if s.worker == w && s.n > n {
								report("%s map: Get(%q) returned a value that was not stored yet", p.Kind, k)
							}
						}
						if private {
							l := lasts[w][k]
							if ok != l.present || (ok && !sameVal(v, l.val)) {
								report("%s map: worker %d alone uses %q: Get returned %v, %v, want %v, %v", p.Kind, w, k, v, ok, l.val, l.present)
							}
						}
					case "has":
						ok := m.Has(k)
						if private && ok != lasts[w][k].present {
							report("%s map: worker %d alone uses %q: Has returned %v", p.Kind, w, k, ok)
						}
					case "len":
						// while others run Len is only bounded
						if n := m.Len(); n < 0 || n > len(all) {
							report("%s map: Len() is %d with at most %d keys in use", p.Kind, n, len(all))
						}
					}
				}
			}
		}(w, ops)
	}
	close(start)
	wg.Wait()
	if bad != "" {
		return h.Fail("%s", bad)
	}
	present := 0
	for k := range all {
		v, ok := m.Get(k)
		if ok {
			present++
		}
		if m.Has(k) != ok {
			return h.Fail("%s map, once quiet: Has(%q) and Get disagree", p.Kind, k)
		}
		// the final state is what some worker did last
		match, touched := false, false
		for w := range lasts {
			if l, done := lasts[w][k]; done {
				touched = true
				if l.present == ok && (!ok || sameVal(v, l.val)) {
					match = true
				}
			}
		}
		if !touched {
			match = !ok
		}
		if !match {
			return h.Fail("%s map, once quiet: key %q holds %v (present %v), which is no worker's last operation on it", p.Kind, k, v, ok)
		}
	}
	if m.Len() != present {
		return h.Fail("%s map, once quiet: Len() is %d but %d keys are present", p.Kind, m.Len(), present)
	}
	return h.Outcome{NonTrivial: len(p.Workers) >= 2, Steps: p.Rounds * len(p.Workers), Labels: []string{p.Kind}}
}

func keyOf(w int, op mapOp) string {
	if strings.HasPrefix(string(op.Key), "p") {
		return fmt.Sprintf("%s-%d", op.Key, w)
	}
	return string(op.Key)
}

func TestC22(t *testing.T) {
	h.Plan(3)
	seq := h.Prop[mapSeq]{
		Name: "sequence", Cases: 1500, Run: runMapSeq,
		Rule: "random Set and Remove histories with nil, repeated and uncomparable values on the three variants, Get, Has and Len of every key compared with a Go map after each operation; non-trivial from two operations on",
		Gen: func(t *rapid.T) mapSeq {
			keys := []h.Bytes{"", "a", "b", "c", "\xff", "日本"}
			if rapid.Bool().Draw(t, "alike") {
				keys = gen.Pool(t)
			}
			return mapSeq{Fill: gen.Sized(t, "fill", 20000, 0, 0, 0, 0, 0, 0, 0, 0, 10, 10, 100, 2000), Ops: gen.Repeat(t, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mapOp {
				return mapOp{Op: rapid.SampledFrom([]string{"set", "set", "remove"}).Draw(t, "op"), Key: rapid.SampledFrom(keys).Draw(t, "key"), Val: rapid.IntRange(0, 47).Draw(t, "val")}
			}), 1, 40).Draw(t, "ops"), 300)}
		},
	}
	h.Check(t, "C22", h.WithTime(seq))
	h.Check(t, "C22", hugeProp(seq))
	h.Check(t, "C22", h.Prop[mapConc]{
		Name: "concurrent", Cases: 500, Run: runMapConc, Journal: true, Retries: 200, Weight: 2, Shrink: 5e9,
		Rule: "two to eight workers, now and then more, running random operations on shared and private keys of a shared variant at once, under the race detector; every read must be of that key, private keys exact, and once quiet Len equals the keys present and each key is as some worker left it; non-trivial with at least two workers",
		Gen: func(t *rapid.T) mapConc {
			p := mapConc{Kind: rapid.SampledFrom(mapKinds[1:]).Draw(t, "kind"), Rounds: gen.Sized(t, "rounds", 3000, 1, 10, 100, 300), Vals: rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "vals")}
			keys := []h.Bytes{"s0", "s1", "s2", "p0", "p1"}[:rapid.IntRange(1, 5).Draw(t, "keys")]
			if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
				for i, k := 0, gen.Sized(t, "shared", 300, 8, 40, 100); i < k; i++ {
					keys = append(keys, h.Bytes(fmt.Sprint("s", 3+i)), h.Bytes(fmt.Sprint("p", 2+i)))
				}
			}
			n := rapid.IntRange(2, gen.Sized(t, "most", 64, 8, 8, 8, 24)).Draw(t, "workers")
			for w := 0; w < n; w++ {
				p.Workers = append(p.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mapOp {
					return mapOp{Op: rapid.SampledFrom([]string{"set", "set", "remove", "remove", "get", "has", "len"}).Draw(t, "op"), Key: rapid.SampledFrom(keys).Draw(t, "key")}
				}), 1, 10).Draw(t, "ops"))
			}
			return p
		},
		Fixed: []mapConc{
			{Kind: "sync", Rounds: 20000, Workers: [][]mapOp{{{Op: "set", Key: "s"}, {Op: "remove", Key: "s"}}, {{Op: "set", Key: "s"}, {Op: "remove", Key: "s"}}, {{Op: "set", Key: "s"}}, {{Op: "remove", Key: "s"}}}},
			{Kind: "locked", Rounds: 2000, Vals: 1, Workers: [][]mapOp{{{Op: "set", Key: "s"}}, {{Op: "set", Key: "s"}}, {{Op: "get", Key: "s"}}, {{Op: "has", Key: "s"}}, {{Op: "len"}}}},
			{Kind: "sync", Rounds: 2000, Vals: 1, Workers: [][]mapOp{{{Op: "set", Key: "s"}}, {{Op: "set", Key: "s"}}, {{Op: "get", Key: "s"}}, {{Op: "has", Key: "s"}}, {{Op: "len"}}}},
			{Kind: "locked", Rounds: 5000, Workers: [][]mapOp{{{Op: "set", Key: "s"}, {Op: "remove", Key: "s"}}, {{Op: "get", Key: "s"}, {Op: "len"}}, {{Op: "has", Key: "s"}, {Op: "set", Key: "t"}}, {{Op: "remove", Key: "t"}}}},
		},
	})
}
