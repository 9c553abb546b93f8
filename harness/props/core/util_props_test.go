package core

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/pkg/util"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
)

// ---------------------------------------------------------------- C23

type idxPlan struct{ I, L, R, Size int }

func runIdx(p idxPlan) h.Outcome {
	o := h.Outcome{NonTrivial: true, Steps: 3}
	size := big.NewInt(int64(p.Size))
	pos := func(i int) *big.Int {
		b := big.NewInt(int64(i))
		if i < 0 {
			b.Add(b, size)
		}
		return b
	}
	inside := func(b *big.Int) bool { return b.Sign() >= 0 && b.Cmp(size) < 0 }
	idx := util.NewIndex(p.I)
	w := pos(p.I)
	if got := idx.ResolveRaw(p.Size); w.Cmp(big.NewInt(int64(got))) != 0 {
		return h.Fail("index %d of size %d: raw position %d, want %v", p.I, p.Size, got, w)
	}
	want := -1
	if inside(w) {
		want = int(w.Int64())
		o.Labels = append(o.Labels, "in-range")
	}
	for k := 0; k < 2; k++ { // resolving has no memory
		if got := idx.Resolve(p.Size); got != want {
			return h.Fail("index %d of size %d: resolved to %d, want %d", p.I, p.Size, got, want)
		}
	}
	s := util.NewSlice(p.L, p.R)
	wl, wr := pos(p.L), pos(p.R)
	gl, gr := s.ResolveRaw(p.Size)
	if wl.Cmp(big.NewInt(int64(gl))) != 0 || wr.Cmp(big.NewInt(int64(gr))) != 0 {
		return h.Fail("segment [%d, %d] of size %d: raw positions %d, %d, want %v, %v", p.L, p.R, p.Size, gl, gr, wl, wr)
	}
	l, r := -1, -1
	if wl.Sign() >= 0 && wr.Sign() >= 0 && wl.Cmp(size) < 0 && wl.Cmp(wr) <= 0 {
		l = int(wl.Int64())
		if wr.Cmp(size) < 0 {
			r = int(wr.Int64())
		} else {
			r = p.Size - 1
			o.Labels = append(o.Labels, "clamped")
		}
		o.Labels = append(o.Labels, "valid-segment")
	}
	for k := 0; k < 2; k++ {
		if gl, gr := s.Resolve(p.Size); gl != l || gr != r {
			return h.Fail("segment [%d, %d] of size %d: resolved to %d, %d, want %d, %d", p.L, p.R, p.Size, gl, gr, l, r)
		}
	}
	return o
}

type block struct{ From, To int }

func runBlock(p block) h.Outcome {
	o := h.Outcome{NonTrivial: true}
	for size := p.From; size <= p.To; size++ {
		for l := -2*size - 3; l <= 2*size+3; l++ {
			for r := -2*size - 3; r <= 2*size+3; r++ {
				if x := runIdx(idxPlan{I: l, L: l, R: r, Size: size}); x.Violation != "" {
					return x
				}
				o.Steps++
			}
		}
	}
	return o
}

func TestC23(t *testing.T) {
	h.Plan(2)
	h.Check(t, "C23", h.Prop[block]{Name: "exhaustive", Cases: 1, Run: runBlock,
		Rule:  "every index and every pair of bounds from -2n-3 to 2n+3 for every size n from 0 to 16; always non-trivial",
		Fixed: []block{{0, 8}, {9, 12}, {13, 16}}, Gen: func(t *rapid.T) block { n := rapid.IntRange(17, 24).Draw(t, "n"); return block{n, n} }})
	ext := func(t *rapid.T, l string) int {
		switch rapid.IntRange(0, 4).Draw(t, l+"-k") {
		case 4:
			return int(gen.Int(t, l))
		case 0:
			return rapid.SampledFrom([]int{math.MinInt, math.MinInt + 1, math.MaxInt, math.MaxInt - 1, math.MinInt32, math.MaxInt32, -1 << 32, 1 << 32, -1, 0, 1}).Draw(t, l)
		case 1:
			return rapid.Int().Draw(t, l)
		}
		return rapid.IntRange(-200, 200).Draw(t, l)
	}
	h.Check(t, "C23", h.Prop[idxPlan]{Name: "random", Cases: 20000, Run: runIdx,
		Rule: "random indexes, bounds and sizes with a taste for the extremes of the integer range, compared with unbounded arithmetic; always non-trivial",
		Gen: func(t *rapid.T) idxPlan {
			p := idxPlan{I: ext(t, "i"), L: ext(t, "l"), R: ext(t, "r")}
			switch rapid.IntRange(0, 3).Draw(t, "sk") {
			case 3:
				if p.Size = int(gen.Int(t, "size")); p.Size < 0 {
					p.Size = ^p.Size
				}
			case 0:
				p.Size = rapid.SampledFrom([]int{0, 1, math.MaxInt, math.MaxInt - 1, math.MaxInt32, 1 << 32}).Draw(t, "size")
			default:
				p.Size = rapid.IntRange(0, 150).Draw(t, "size")
			}
			// often right at the edges
			if rapid.Bool().Draw(t, "edge") {
				e := func(l string) int {
					d := rapid.IntRange(-1, 1).Draw(t, l)
					if p.Size > 1<<40 {
						d = 0
					}
					if rapid.Bool().Draw(t, l+"s") {
						return p.Size + d
					}
					return -p.Size + d
				}
				p.I, p.L, p.R = e("i"), e("l"), e("r")
			}
			return p
		}})
}

// ---------------------------------------------------------------- C24

type texts struct{ A, B, C gen.B }

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func runCompare(p texts) h.Outcome {
	s := []string{string(p.A), string(p.B), string(p.C)}
	for _, x := range s {
		for _, y := range s {
			got := util.LexicalCompare(x, y)
			if sign(got) != strings.Compare(x, y) {
				return h.Fail("LexicalCompare(%s, %s) is %d, byte order says %d", h.Short(x, 60), h.Short(y, 60), got, strings.Compare(x, y))
			}
			if (got == 0) != (x == y) || sign(got) != -sign(util.LexicalCompare(y, x)) {
				return h.Fail("LexicalCompare(%s, %s) is %d, not a consistent order", h.Short(x, 60), h.Short(y, 60), got)
			}
		}
	}
	return h.Outcome{NonTrivial: p.A != p.B, Steps: 9}
}

type readPlan struct {
	Data   gen.B
	Rep    int `json:",omitempty"` // the data is there that many times
	Count  []int
	Sizes  []int
	EOF    bool
	Source int // 0: a buffered reader; bytes.Reader, bytes.Buffer, strings.Reader
}

func runExact(p readPlan) h.Outcome {
	data := []byte(p.Data)
	for i := 1; i < p.Rep; i++ {
		data = append(data, []byte(p.Data)...)
	}
	size := 16
	if p.Rep > 1 {
		size = 4096
	}
	var r interface {
		io.ByteReader
		io.Reader
	} = bufio.NewReaderSize(&chunked{data: data, sizes: p.Sizes, eof: p.EOF}, size)
	switch p.Source {
	case 1:
		r = bytes.NewReader(data)
	case 2:
		r = bytes.NewBuffer(append([]byte(nil), data...))
	case 3:
		r = strings.NewReader(string(data))
	}
	rest := string(data)
	var reads [][]byte
	// what was read stays what it was
	kept := func() string {
		at := 0
		for i, got := range reads {
			if want := string(data)[at : at+len(got)]; string(got) != want {
				return fmt.Sprintf("after all reads, what read %d gave has become %s, it was %s", i, h.Short(string(got), 60), h.Short(want, 60))
			}
			at += len(got)
		}
		return ""
	}
	o := h.Outcome{NonTrivial: len(p.Data) > 0, Steps: len(p.Count)}
	for i, n := range p.Count {
		got, err := util.ReadExactBytes(r, n)
		if n > len(rest) {
			if err == nil {
				return h.Fail("read %d asks for %d bytes with %d left: no error, %s", i, n, len(rest), h.Short(string(got), 60))
			}
			if w := kept(); w != "" {
				return h.Fail("%s", w)
			}
			o.Labels = append(o.Labels, "short")
			return o
		}
		if err != nil {
			return h.Fail("read %d of %d bytes with %d left: %v", i, n, len(rest), err)
		}
		if string(got) != rest[:n] {
			return h.Fail("read %d of %d bytes: got %s, want %s", i, n, h.Short(string(got), 60), h.Short(rest[:n], 60))
		}
		rest = rest[n:]
		reads = append(reads, got)
	}
	left, _ := io.ReadAll(r)
	if w := kept(); w != "" {
		return h.Fail("%s", w)
	}
	if string(left) != rest {
		return h.Fail("after reading exactly, %s is left, want %s", h.Short(string(left), 60), h.Short(rest, 60))
	}
	return o
}

type joinPlan struct {
	Items []gen.B
	Sep   gen.B
}

func runJoin(p joinPlan) h.Outcome {
	s := util.QuoteJoin(h.Strs(p.Items), string(p.Sep))
	rest := s
	for i, it := range p.Items {
		if i > 0 {
			if !strings.HasPrefix(rest, string(p.Sep)) {
				return h.Fail("QuoteJoin gave %s: no separator before item %d", h.Short(s, 200), i)
			}
			rest = rest[len(p.Sep):]
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			return h.Fail("QuoteJoin gave %s: item %d is not quoted", h.Short(s, 200), i)
		}
		u, err := strconv.Unquote(q)
		if err != nil || u != string(it) {
			return h.Fail("QuoteJoin gave %s: item %d reads %s, want %s", h.Short(s, 200), i, h.Short(u, 60), h.Short(string(it), 60))
		}
		rest = rest[len(q):]
	}
	if rest != "" {
		return h.Fail("QuoteJoin gave %s: %s is left over", h.Short(s, 200), h.Short(rest, 60))
	}
	return h.Outcome{NonTrivial: len(p.Items) > 0, Steps: 1}
}

type uuidPlan struct{ Workers, Each int }

var seenIDs = map[string]bool{}

func runUUID(p uuidPlan) h.Outcome {
	got := make([][]string, p.Workers)
	var wg sync.WaitGroup
	for w := 0; w < p.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < p.Each; i++ {
				got[w] = append(got[w], util.GenNewUUID())
			}
		}(w)
	}
	wg.Wait()
	for w := range got {
		for _, id := range got[w] {
			if id == "" {
				return h.Fail("an empty identifier was generated")
			}
			if seenIDs[id] {
				return h.Fail("identifier %s was generated twice", id)
			}
			seenIDs[id] = true
		}
	}
	return h.Outcome{NonTrivial: p.Workers*p.Each > 1, Steps: p.Workers * p.Each}
}

// prefixed makes texts that share prefixes.
func prefixed(t *rapid.T, l string) gen.B {
	s := ""
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, l+"-n"); i < n; i++ {
		s += rapid.SampledFrom([]string{"a", "b", "\x00", "\xff", "aa", "\x7f", "\x80", "é"}).Draw(t, l)
	}
	if rapid.IntRange(0, 20).Draw(t, l+"-long") == 0 {
		s = strings.Repeat("x", gen.Sized(t, l+"-len", 300000, 1, 7, 8, 16, 63, 255, 256, 300, 4096, 70000)) + s
	}
	return gen.B(s)
}

func TestC24(t *testing.T) {
	h.Plan(4)
	h.Check(t, "C24", h.Prop[texts]{Name: "compare", Cases: 10000, Run: runCompare, Rule: "triples of byte strings sharing prefixes, all nine ordered pairs compared with standard byte order and with each other; non-trivial when two differ",
		Gen: func(t *rapid.T) texts {
			p := texts{prefixed(t, "a"), prefixed(t, "b"), prefixed(t, "c")}
			if rapid.IntRange(0, 3).Draw(t, "alike") == 0 {
				f := gen.Of(gen.Pool(t))
				return texts{f(t, "a"), f(t, "b"), f(t, "c")}
			}
			switch rapid.IntRange(0, 3).Draw(t, "rel") {
			case 0:
				p.B = p.A + p.B
			case 1:
				p.B = p.A
			}
			return p
		},
		Fixed: []texts{{"", "a", "b"}, {"a", "", "\x00"}, {"", "\x00", "\x00\x00"}}})
	h.Check(t, "C24", h.Prop[readPlan]{Name: "exact", Cases: 5000, Run: runExact, Rule: "a source of several kinds, cut into arbitrary reads, then a series of exact reads within or beyond its end; bytes (also after the last read), rest and errors compared; non-trivial when the source is not empty",
		Gen: func(t *rapid.T) readPlan {
			if rapid.IntRange(0, 5).Draw(t, "large") == 0 {
				p := readPlan{Data: gen.B(rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "data")), Rep: gen.Sized(t, "rep", 10000, 2, 100, 3000), Sizes: genSizes(t), EOF: rapid.Bool().Draw(t, "eof"), Source: max(0, rapid.IntRange(-3, 3).Draw(t, "source"))}
				if len(p.Sizes) > 0 {
					p.Sizes = append(p.Sizes, 4097, 70000)
				}
				p.Count = rapid.SliceOfN(gen.SizedG(300000, 0, 1, 4, 16, 100, 300, 1000, 4095, 4096, 4097, 8192, 40000, 65536, 100000), 1, 6).Draw(t, "count")
				return p
			}
			return readPlan{Data: gen.B(rapid.SliceOfN(rapid.Byte(), 0, 150).Draw(t, "data")), Count: rapid.SliceOfN(rapid.IntRange(0, 25), 1, 6).Draw(t, "count"), Sizes: genSizes(t), EOF: rapid.Bool().Draw(t, "eof"), Source: max(0, rapid.IntRange(-3, 3).Draw(t, "source"))}
		}})
	h.Check(t, "C24", h.Prop[readPlan]{Name: "huge", Cases: 1, Run: runExact, Weight: 0.2, Shrink: 5 * time.Second, Rule: "exact reads of up to 24 MB, compared as above; always non-trivial",
		Gen: func(t *rapid.T) readPlan {
			p := readPlan{Data: gen.B(rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "data")), Source: rapid.IntRange(0, 3).Draw(t, "source")}
			n := rapid.SampledFrom([]int{1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24}).Draw(t, "count") + rapid.IntRange(-2, 5000).Draw(t, "more")
			p.Rep = n/len(p.Data) + rapid.SampledFrom([]int{0, 1, 1, 1, 2000}).Draw(t, "rep")
			p.Count = []int{n, 1, 4, 70000}
			return p
		}})
	h.Check(t, "C24", h.Prop[joinPlan]{Name: "join", Cases: 4000, Run: runJoin, Rule: "lists of arbitrary byte strings joined with quotes and taken apart again by an independent unquoter; non-trivial when not empty",
		Gen: func(t *rapid.T) joinPlan {
			p := joinPlan{Sep: rapid.SampledFrom([]gen.B{",", ", ", "", " ", "\"", "x"}).Draw(t, "sep")}
			if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
				f := gen.Of(gen.Pool(t))
				for i, n := 0, gen.Sized(t, "count", 3000, 16, 33, 65, 129, 257); i < n; i++ {
					p.Items = append(p.Items, f(t, "item"))
				}
				return p
			}
			if gen.Wordy(t, "sep") {
				p.Sep = gen.Word(t, "sep")
			}
			for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
				p.Items = append(p.Items, gen.Value(t, "item"))
			}
			return p
		}})
	h.Check(t, "C24", h.Prop[uuidPlan]{Name: "uuid", Cases: 20, Run: runUUID, Rule: "up to 16 workers generating identifiers at once, all distinct within the whole run; non-trivial from two identifiers on",
		Gen: func(t *rapid.T) uuidPlan {
			return uuidPlan{rapid.IntRange(1, 16).Draw(t, "w"), rapid.IntRange(1, 1500).Draw(t, "n")}
		}})
}

// ---------------------------------------------------------------- C29

type pipePlan struct {
	Stages []bool // true: the stage fails
	Fill   int    `json:",omitempty"` // so many stages that do not fail come first
	Runs   int
	// Later stages are added after the first run.
	Later []bool
	Nil   bool
	// Odd names the stage that does in each run the opposite of what it does
	// otherwise, fail or not; -1 for none.
	Odd []int `json:",omitempty"`
}

var errStage = errors.New("stage error")

type stageErr struct{ n int }

func (s *stageErr) Error() string { return fmt.Sprint("stage ", s.n) }

func runPipe(p pipePlan) h.Outcome {
	var ran []int
	var seen []types.DataMap
	outs := map[int]types.DataMap{}
	var fails []error
	run := 0
	broken := func(i int, fail bool) bool {
		return fail != (len(p.Odd) > 0 && p.Odd[run%len(p.Odd)] == i)
	}
	mk := func(i int, fail bool) util.Handler {
		e := error(&stageErr{i})
		fails = append(fails, e)
		return func(in types.DataMap) (types.DataMap, error) {
			ran = append(ran, i)
			seen = append(seen, in)
			if broken(i, fail) {
				if i%2 == 1 {
					return types.NewSimpleDataMap(), e
				}
				return nil, e
			}
			var out types.DataMap = types.NewSimpleDataMap()
			if i%3 == 2 && in != nil {
				out = in // passing the same map on is allowed
			}
			if p.Nil && i%4 == 3 {
				out = nil
			}
			if out != nil {
				out.Set(fmt.Sprint("stage", i), i)
			}
			outs[i] = out
			return out, nil
		}
	}
	pl := util.NewPipeline()
	stages := append(make([]bool, p.Fill), p.Stages...)
	for i, f := range stages {
		if got := pl.AddHandler(mk(i, f)); got == nil {
			return h.Fail("AddHandler gave nil")
		} else if i%2 == 0 {
			pl = got // chained use
		}
	}
	o := h.Outcome{NonTrivial: len(stages) > 1, Steps: len(stages)}
	for r := 0; r < p.Runs; r++ {
		run = r
		if r == 1 {
			for _, f := range p.Later {
				pl.AddHandler(mk(len(stages), f))
				stages = append(stages, f)
			}
		}
		ran, seen = nil, nil
		in := types.NewSimpleDataMap()
		in.Set("in", r)
		out, err := pl.Run(in)
		n := len(stages)
		var wantErr error
		for i, f := range stages {
			if broken(i, f) {
				n, wantErr = i+1, fails[i]
				break
			}
		}
		if len(ran) != n {
			return h.Fail("run %d of stages %v ran %v", r, stages, ran)
		}
		var prev types.DataMap = in
		for i := 0; i < n; i++ {
			if ran[i] != i {
				return h.Fail("run %d of stages %v ran in order %v", r, stages, ran)
			}
			if seen[i] != prev {
				return h.Fail("run %d: stage %d did not receive the result of the stage before it", r, i)
			}
			prev = outs[i]
		}
		if wantErr != nil {
			if !errors.Is(err, wantErr) {
				return h.Fail("run %d of stages %v: error %v, want the one of stage %d", r, stages, err, n-1)
			}
			o.Labels = append(o.Labels, "failing")
			continue
		}
		if err != nil {
			return h.Fail("run %d of stages %v: error %v", r, stages, err)
		}
		if out != prev {
			return h.Fail("run %d of stages %v: the result is not that of the last stage", r, stages)
		}
	}
	return o
}

type castPlan struct {
	Before, After int
	Val           int
	Stress        bool
	// Wait picks how long it takes until the value is set, until more ask for
	// it, and until they must have it.
	Wait [3]int
	More time.Duration `json:",omitempty"` // waited on top each time
}

func (p castPlan) wait(i int) time.Duration {
	return []time.Duration{0, time.Microsecond, 20 * time.Millisecond, 3 * time.Second, 2 * time.Minute, 49 * time.Hour}[mod(p.Wait[i], 6)] + p.More
}

func runCast(t *testing.T) func(p castPlan) h.Outcome {
	return func(p castPlan) h.Outcome {
		want := mapVal(p.Val)
		var bad string
		var mu sync.Mutex
		fail := func(f string, a ...interface{}) {
			mu.Lock()
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
			mu.Unlock()
		}
		if p.Stress {
			for i := 0; i < 20; i++ {
				bc := concurrency.NewBroadCaster()
				var wg sync.WaitGroup
				for g := 0; g < p.Before+p.After; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < 3; k++ {
							if v := bc.Get(); !sameVal(v, want) {
								fail("Get returned %v, want %v", v, want)
							}
						}
					}()
				}
				bc.Set(want)
				wg.Wait()
			}
		} else {
			stuck := h.Bubble(t, func() {
				bc := concurrency.NewBroadCaster()
				got := 0
				get := func() {
					v := bc.Get()
					if !sameVal(v, want) {
						fail("Get returned %v, want %v", v, want)
					}
					mu.Lock()
					got++
					mu.Unlock()
				}
				for g := 0; g < p.Before; g++ {
					go get()
				}
				time.Sleep(p.wait(0))
				synctest.Wait()
				mu.Lock()
				if got != 0 {
					bad = fmt.Sprintf("%d getters returned before a value was set", got)
				}
				mu.Unlock()
				bc.Set(want)
				time.Sleep(p.wait(1))
				for g := 0; g < p.After; g++ {
					go get()
				}
				time.Sleep(p.wait(2))
				synctest.Wait()
				mu.Lock()
				if got != p.Before+p.After && bad == "" {
					bad = fmt.Sprintf("%d of %d getters returned after the value was set", got, p.Before+p.After)
				}
				mu.Unlock()
			})
			if bad == "" {
				bad = stuck
			}
		}
		if bad != "" {
			return h.Fail("%s", bad)
		}
		return h.Outcome{NonTrivial: p.Before+p.After > 0, Steps: p.Before + p.After}
	}
}

func TestC29(t *testing.T) {
	h.Plan(2)
	h.Check(t, "C29", h.Prop[pipePlan]{Name: "pipeline", Cases: 3000, Run: runPipe, Rule: "pipelines of up to ten stages, any of them failing, now and then behind up to 150 that do not, run several times, with stages that fail in some runs only, and extended in between; order, hand-over, result and error compared; non-trivial with two stages or more",
		Gen: func(t *rapid.T) pipePlan {
			st := rapid.Custom(func(t *rapid.T) bool { return rapid.IntRange(0, 6).Draw(t, "fails") == 0 })
			var odd []int
			if rapid.IntRange(0, 2).Draw(t, "hasodd") == 0 {
				odd = rapid.SliceOfN(rapid.IntRange(-1, 8), 1, 4).Draw(t, "odd")
			}
			return pipePlan{Odd: odd, Stages: rapid.SliceOfN(st, 0, 10).Draw(t, "stages"), Fill: gen.Sized(t, "fill", 3000, 0, 0, 0, 0, 10, 40, 150), Runs: gen.Sized(t, "runs", 300, 1, 1, 2, 2, 3, 3, 3, 20), Later: rapid.SliceOfN(st, 0, 3).Draw(t, "later"), Nil: rapid.Bool().Draw(t, "nil")}
		}})
	h.Check(t, "C29", h.Prop[castPlan]{Name: "broadcast", Cases: 800, Run: runCast(t), Journal: true, Retries: 50, Rule: "getters blocked before and started after the single Set, in virtual time and as a real race under the race detector; all must return that value and none before it; non-trivial with any getter",
		Gen: func(t *rapid.T) castPlan {
			n := gen.Sized(t, "max", 1500, 8, 8, 8, 70, 300)
			return castPlan{More: time.Duration(gen.Dur(t, "more", time.Millisecond, 360000000, 0, 0, 0, 1000)) * time.Millisecond,
				Before: rapid.IntRange(0, n).Draw(t, "before"), After: rapid.IntRange(0, n).Draw(t, "after"), Val: rapid.IntRange(0, 47).Draw(t, "val"), Stress: rapid.IntRange(0, 3).Draw(t, "stress") == 0,
				Wait: [3]int{rapid.IntRange(0, 5).Draw(t, "w0"), rapid.IntRange(0, 5).Draw(t, "w1"), rapid.IntRange(0, 2).Draw(t, "w2")}}
		}})
}

var _ = bytes.Equal
