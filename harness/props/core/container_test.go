package core

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/lxdlam/vertex/pkg/container"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/model"
)

func str(s gen.B) *container.StringContainer { return container.NewString(string(s)) }

func strs(b []gen.B) []*container.StringContainer {
	out := make([]*container.StringContainer, 0, len(b))
	for _, x := range b {
		out = append(out, str(x))
	}
	return out
}

func texts2(c []*container.StringContainer) []string {
	out := []string{}
	for _, x := range c {
		if x == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, x.String())
	}
	return out
}

func q(s []string) string { return h.Short(fmt.Sprintf("%q", s), 400) }

func sameBag(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "\x00|") == strings.Join(b, "\x00|") && eqs(a, b)
}

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C25

type zop struct {
	Op    string
	E     []gen.B
	S     []fl
	After bool `json:",omitempty"`
}

// fl is a float that survives JSON, infinities included.
type fl float64

func (f fl) MarshalJSON() ([]byte, error) {
	return []byte(strconv.Quote(strconv.FormatFloat(float64(f), 'g', -1, 64))), nil
}

func (f *fl) UnmarshalJSON(b []byte) error {
	s, err := strconv.Unquote(string(b))
	if err != nil {
		return err
	}
	x, err := strconv.ParseFloat(s, 64)
	*f = fl(x)
	return err
}

type zplan struct {
	// Fill adds entries e0..e(Fill-1) with scores (i*Mul) mod Mod first.
	Fill, Mul, Mod int
	Ops            []zop
	Every          int
	Drain          string // min, max, mixed or none
}

type zent struct {
	e string
	s float64
}

type zmodel []zent

func (z zmodel) find(e string) int {
	for i := range z {
		if z[i].e == e {
			return i
		}
	}
	return -1
}

func (z *zmodel) add(e string, s float64) {
	if z.find(e) >= 0 {
		return
	}
	i := sort.Search(len(*z), func(i int) bool { return (*z)[i].s > s || (*z)[i].s == s && (*z)[i].e > e })
	*z = append(*z, zent{})
	copy((*z)[i+1:], (*z)[i:])
	(*z)[i] = zent{e, s}
}

func (z *zmodel) del(e string) {
	if i := z.find(e); i >= 0 {
		*z = append((*z)[:i:i], (*z)[i+1:]...)
	}
}

func (z zmodel) sort() {
	sort.SliceStable(z, func(i, j int) bool {
		if z[i].s != z[j].s {
			return z[i].s < z[j].s
		}
		return z[i].e < z[j].e
	})
}

func runZ(p zplan) h.Outcome {
	sl := container.NewSortedSetContainer("z")
	if sl.Key() != "z" {
		return h.Fail("Key() is %q, want \"z\"", sl.Key())
	}
	var z zmodel
	base := -1
	o := h.Outcome{Steps: len(p.Ops)}
	check := func() string {
		if sl.Len() != len(z) {
			return fmt.Sprintf("Len() is %d, want %d", sl.Len(), len(z))
		}
		for i, x := range z {
			e := container.NewString(x.e)
			s, err := sl.Score(e)
			if err != nil || s != x.s {
				return fmt.Sprintf("Score(%s) is %v, %v, want %v", h.Short(x.e, 40), s, err, x.s)
			}
			r, err := sl.Rank(e)
			if err != nil {
				return fmt.Sprintf("Rank(%s): %v", h.Short(x.e, 40), err)
			}
			if base < 0 {
				// counted from 0 or from 1, but the same way for ever
				base = r - i
				if base != 0 && base != 1 {
					return fmt.Sprintf("Rank(%s) is %d, its position is %d", h.Short(x.e, 40), r, i)
				}
			}
			if r != i+base {
				return fmt.Sprintf("Rank(%s) with score %v is %d, want %d of %d", h.Short(x.e, 40), x.s, r, i+base, len(z))
			}
		}
		if _, err := sl.Rank(container.NewString("never added")); err == nil {
			return "Rank of an entry that was never added gave no error"
		}
		if _, err := sl.Score(container.NewString("never added")); err == nil {
			return "Score of an entry that was never added gave no error"
		}
		return ""
	}
	pop := func(min bool) string {
		var got *container.StringContainer
		var err error
		if min {
			got, err = sl.PopMin()
		} else {
			got, err = sl.PopMax()
		}
		if len(z) == 0 {
			if err == nil {
				return "a pop from an empty set gave no error"
			}
			o.Labels = append(o.Labels, "pop-empty")
			return ""
		}
		i := 0
		if !min {
			i = len(z) - 1
		}
		want := z[i].e
		if err != nil || got == nil || got.String() != want {
			return fmt.Sprintf("pop (min=%v) gave %v, %v, want %s", min, got, err, h.Short(want, 40))
		}
		z.del(want)
		return ""
	}
	for i := 0; i < p.Fill; i++ {
		e := fmt.Sprint("e", i)
		s := float64((i * p.Mul) % p.Mod)
		if err := sl.Add([]float64{s}, []*container.StringContainer{container.NewString(e)}); err != nil {
			return h.Fail("Add: %v", err)
		}
		z.add(e, s)
	}
	if w := check(); w != "" {
		return h.Fail("after filling with %d entries: %s", p.Fill, w)
	}
	changes := 0
	for i, op := range p.Ops {
		h.Tick()
		w := ""
		o.Labels = append(o.Labels, op.Op)
		switch op.Op {
		case "add":
			// what adding an entry that is already there does is not specified
			var es []*container.StringContainer
			var ss []float64
			for k, e := range op.E {
				if z.find(string(e)) < 0 {
					es = append(es, str(e))
					ss = append(ss, float64(op.S[k]))
					z.add(string(e), float64(op.S[k]))
				}
			}
			if err := sl.Add(ss, es); err != nil {
				w = fmt.Sprintf("Add: %v", err)
			}
			changes += len(es)
		case "mismatch":
			if err := sl.Add([]float64{1}, strs([]gen.B{"never1", "never2"})); err == nil {
				w = "Add of two entries with one score gave no error"
			}
		case "del":
			sl.Del(strs(op.E))
			for _, e := range op.E {
				if z.find(string(e)) >= 0 {
					changes++
				}
				z.del(string(e))
			}
		case "incr":
			k := z.find(string(op.E[0]))
			s, err := sl.IncreaseBy(str(op.E[0]), float64(op.S[0]))
			if k < 0 {
				if err == nil {
					w = "IncreaseBy of a missing entry gave no error"
				}
				break
			}
			want := z[k].s + float64(op.S[0])
			if err != nil || s != want {
				w = fmt.Sprintf("IncreaseBy(%s, %v) gave %v, %v, want %v", h.Short(string(op.E[0]), 40), op.S[0], s, err, want)
			}
			z[k].s = want
			z.sort()
			changes++
		case "popmin":
			w = pop(true)
			changes++
		case "popmax":
			w = pop(false)
			changes++
		}
		if w == "" && (p.Every <= 1 || i%p.Every == 0) {
			w = check()
		}
		if w != "" {
			return h.Fail("operation %d (%s): %s", i, op.Op, w)
		}
	}
	if w := check(); w != "" {
		return h.Fail("at the end: %s", w)
	}
	if p.Drain != "none" && p.Drain != "" {
		for n := 0; ; n++ {
			empty := len(z) == 0
			min := p.Drain == "min" || (p.Drain == "mixed" && n%3 == 0)
			if w := pop(min); w != "" {
				return h.Fail("draining, pop %d: %s", n, w)
			}
			if n%16 == 0 {
				if w := check(); w != "" {
					return h.Fail("draining, after pop %d: %s", n, w)
				}
			}
			if empty {
				break
			}
		}
		// and it is usable afterwards
		z.add("again", 1)
		if err := sl.Add([]float64{1}, strs([]gen.B{"again"})); err != nil {
			return h.Fail("Add after draining: %v", err)
		}
		if w := check(); w != "" {
			return h.Fail("after draining and adding again: %s", w)
		}
	}
	o.NonTrivial = changes+p.Fill >= 3
	return o
}

func genZ(maxOps, maxFill int) func(t *rapid.T) zplan {
	return func(t *rapid.T) zplan {
		pool := gen.Pool(t)
		ent := func(t *rapid.T) gen.B {
			switch rapid.IntRange(0, 4).Draw(t, "ek") {
			case 2:
				return rapid.SampledFrom(pool).Draw(t, "e")
			case 0:
				return gen.B(fmt.Sprint("e", rapid.IntRange(0, maxFill).Draw(t, "e")))
			case 1:
				return rapid.SampledFrom([]gen.B{"", "a", "aa", "ab", "b", "\xff", "\x00", "dummy string"}).Draw(t, "e")
			}
			return gen.B(fmt.Sprint("x", rapid.IntRange(0, 30).Draw(t, "e")))
		}
		score := func(t *rapid.T) fl {
			switch rapid.IntRange(0, 5).Draw(t, "sk") {
			case 0:
				return rapid.SampledFrom([]fl{0, fl(math.Copysign(0, -1)), 1, -1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e17}).Draw(t, "s")
			case 1:
				return fl(rapid.Float64Range(-1e6, 1e6).Draw(t, "s"))
			case 2:
				return fl(gen.Int(t, "s"))
			case 3:
				// next to another one: a neighbour, or a sum that is not quite it
				s := float64(rapid.IntRange(-4, 4).Draw(t, "s"))
				switch d := rapid.IntRange(0, 5).Draw(t, "d"); d {
				case 0:
					s = math.Nextafter(s, 100)
				case 1:
					s = math.Nextafter(s, -100)
				case 2, 3:
					s = s/10 + float64(d)/10
				case 4:
					s += 1e-9
				case 5:
					s += 0.3
				}
				return fl(s)
			default:
				return fl(rapid.IntRange(-4, 4).Draw(t, "s"))
			}
		}
		p := zplan{Fill: rapid.IntRange(0, gen.Sized(t, "top", 2*maxFill, maxFill)).Draw(t, "fill"), Mul: rapid.SampledFrom([]int{1, 7, 13, -1}).Draw(t, "mul"), Mod: rapid.SampledFrom([]int{1, 2, 5, 1009, 1 << 30}).Draw(t, "mod"), Every: rapid.SampledFrom([]int{1, 1, 3}).Draw(t, "every"), Drain: rapid.SampledFrom([]string{"none", "min", "max", "mixed"}).Draw(t, "drain")}
		for i, n := 0, gen.Num(t, "nops", 1, maxOps); i < n; i++ {
			op := zop{Op: rapid.SampledFrom([]string{"add", "add", "add", "del", "del", "incr", "incr", "popmin", "popmax", "mismatch"}).Draw(t, "op")}
			k := 1
			if op.Op == "add" || op.Op == "del" {
				k = rapid.IntRange(1, 4).Draw(t, "k")
			}
			for j := 0; j < k; j++ {
				op.E = append(op.E, ent(t))
				op.S = append(op.S, score(t))
			}
			p.Ops = append(p.Ops, op)
		}
		p.Ops = gen.Repeat(t, p.Ops, 9000/(p.Fill+60))
		return p
	}
}

// ---- very many entries ----

type zhuge struct {
	N, Mul, Mod int // entry i has the score (i*Mul) mod Mod
	Probe       []int
	Del         []int
}

func runZHuge(p zhuge) h.Outcome {
	z := container.NewSortedSetContainer("zset")
	want := make(zmodel, p.N)
	for i := 0; i < p.N; i++ {
		want[i] = zent{fmt.Sprintf("e%07d", i), float64(int64(i) * int64(p.Mul) % int64(p.Mod))}
		if err := z.Add([]float64{want[i].s}, []*container.StringContainer{container.NewString(want[i].e)}); err != nil {
			return h.Fail("adding entry %d: %v", i, err)
		}
	}
	sort.Slice(want, func(i, j int) bool {
		return want[i].s < want[j].s || want[i].s == want[j].s && want[i].e < want[j].e
	})
	probe := func(when string) string {
		if z.Len() != len(want) {
			return fmt.Sprintf("%s: Len() is %d, want %d", when, z.Len(), len(want))
		}
		for _, i := range append([]int{0, len(want) - 1, len(want) / 2}, p.Probe...) {
			i %= len(want)
			e := container.NewString(want[i].e)
			if r, err := z.Rank(e); err != nil || r != i {
				return fmt.Sprintf("%s: the rank of %s is %d, %v, want %d", when, want[i].e, r, err, i)
			}
			if s, err := z.Score(e); err != nil || s != want[i].s {
				return fmt.Sprintf("%s: the score of %s is %v, %v, want %v", when, want[i].e, s, err, want[i].s)
			}
		}
		return ""
	}
	if w := probe("after the additions"); w != "" {
		return h.Fail("%s", w)
	}
	for _, i := range p.Del {
		i %= len(want)
		z.Del([]*container.StringContainer{container.NewString(want[i].e)})
		want = append(want[:i], want[i+1:]...)
		if w := probe("after a removal"); w != "" {
			return h.Fail("%s", w)
		}
	}
	for i := 0; i < 6; i++ {
		f, name, at := z.PopMin, "PopMin", 0
		if i%2 == 1 {
			f, name, at = z.PopMax, "PopMax", len(want)-1
		}
		if e, err := f(); err != nil || e == nil || e.String() != want[at].e {
			return h.Fail("%s gave %v, %v, want %s", name, e, err, want[at].e)
		}
		want = append(want[:at], want[at+1:]...)
		if w := probe("after " + name); w != "" {
			return h.Fail("%s", w)
		}
	}
	return h.Outcome{NonTrivial: true, Steps: p.N}
}

func TestC25(t *testing.T) {
	h.Plan(2)
	h.Check(t, "C25", h.WithTime(h.Prop[zplan]{Name: "history", Cases: 2500, Gen: genZ(40, 20), Run: runZ, Journal: true, Retries: 200,
		Rule: "random additions, removals, increments and pops on a set filled with up to twenty entries; length and every score and rank compared with a sorted list, then drained by pops; non-trivial with three changes"}))
	h.Check(t, "C25", h.WithTime(h.Prop[zplan]{Name: "large", Cases: 60, Gen: genZ(40, 1500), Run: runZ, Journal: true, Retries: 200,
		Rule: "the same with up to 1500 entries, so that many levels of the index are in use; non-trivial with three changes"}))
	h.Check(t, "C25", h.Prop[zhuge]{Name: "huge", Cases: 1, Weight: 0.2, Run: runZHuge, Journal: true, Retries: 200, Shrink: 5 * time.Second,
		Rule: "32 to 134 thousand entries with scores in some order, then ranks and scores of some, removals and pops compared with a sorted slice; always non-trivial",
		Gen: func(t *rapid.T) zhuge {
			return zhuge{N: gen.HugeSize(t), Mul: rapid.SampledFrom([]int{1, 7, 104729}).Draw(t, "mul"), Mod: rapid.SampledFrom([]int{1, 1009, 1 << 15, 1000003, 1 << 30}).Draw(t, "mod"),
				Probe: rapid.SliceOfN(rapid.IntRange(0, 1<<18), 5, 60).Draw(t, "probe"), Del: rapid.SliceOfN(rapid.IntRange(0, 1<<18), 1, 10).Draw(t, "del")}
		}})
}

// ---------------------------------------------------------------- C26

type sop struct {
	Op  string
	Val gen.B
	N   int64
	R   int64
}

type splan struct {
	Init gen.B
	Ops  []sop
}

func views(s *container.StringContainer, text string) string {
	if s == nil {
		return "nil string"
	}
	n, perr := strconv.ParseInt(text, 10, 64)
	isInt := perr == nil
	switch {
	case s.String() != text:
		return fmt.Sprintf("String() is %s, want %s", h.Short(s.String(), 60), h.Short(text, 60))
	case string(s.Byte()) != text:
		return fmt.Sprintf("Byte() is %s, text is %s", h.Short(string(s.Byte()), 60), h.Short(text, 60))
	case s.Len() != len(text):
		return fmt.Sprintf("Len() is %d, text is %s", s.Len(), h.Short(text, 60))
	case s.IsInt() != isInt:
		return fmt.Sprintf("IsInt() is %v, text is %s", s.IsInt(), h.Short(text, 60))
	case s.Key() != text:
		return fmt.Sprintf("Key() is %s, text is %s", h.Short(s.Key(), 60), h.Short(text, 60))
	case s.AsSimpleStringObject().Data() != text:
		return "the simple string object differs from the text " + h.Short(text, 60)
	case s.AsBulkStringObject().Data() != text:
		return "the bulk string object differs from the text " + h.Short(text, 60)
	}
	v, err := s.Int()
	obj, oerr := s.AsIntObject()
	if isInt {
		if err != nil || v != n {
			return fmt.Sprintf("Int() is %d, %v, text is %s", v, err, h.Short(text, 60))
		}
		if oerr != nil || obj == nil || obj.Data() != n {
			return fmt.Sprintf("AsIntObject() is %v, %v, text is %s", obj, oerr, h.Short(text, 60))
		}
	} else if err == nil || oerr == nil {
		return fmt.Sprintf("Int() is %d, %v and AsIntObject() gives %v, text is %s", v, err, oerr, h.Short(text, 60))
	}
	f := container.NewString(text)
	if !s.Equals(f) || !f.Equals(s) || s.Hash() != f.Hash() || s.CompareTo(f) != 0 {
		return "it is not equal to a new string with the same text " + h.Short(text, 60)
	}
	g := container.NewString(text + "x")
	if s.Equals(g) || s.CompareTo(g) >= 0 || g.CompareTo(s) <= 0 {
		return "it compares wrong with its text and an x behind it, text is " + h.Short(text, 60)
	}
	return ""
}

// addInt is exact 64-bit addition, or not ok.
func addInt(a, b int64) (int64, bool) {
	c := a + b
	if (b > 0 && c < a) || (b < 0 && c > a) {
		return 0, false
	}
	return c, true
}

func subInt(a, b int64) (int64, bool) {
	c := a - b
	if (b > 0 && c > a) || (b < 0 && c < a) {
		return 0, false
	}
	return c, true
}

// runS works on one string of a growing pool at a time: appends and ranges add
// the new string to the pool, "pick" goes back to an earlier one, and after
// each operation all of them have to be what they should be.
func runS(p splan) h.Outcome {
	type live struct {
		s    *container.StringContainer
		text string
	}
	pool := []*live{{str(p.Init), string(p.Init)}}
	cur := pool[0]
	o := h.Outcome{Steps: len(p.Ops), NonTrivial: len(p.Ops) > 0}
	if w := views(cur.s, cur.text); w != "" {
		return h.Fail("new string: %s", w)
	}
	for i, op := range p.Ops {
		h.Tick()
		o.Labels = append(o.Labels, op.Op)
		switch op.Op {
		case "pick":
			cur = pool[int(op.N)%len(pool)]
		case "append":
			// the argument may be one of the pool as well
			arg := &live{str(op.Val), string(op.Val)}
			if op.R > 0 {
				arg = pool[int(op.R)%len(pool)]
			}
			if len(cur.text)+len(arg.text) > 20000 {
				break
			}
			cur = &live{cur.s.Append(arg.s), cur.text + arg.text}
			pool = append(pool, cur)
		case "incr", "decr":
			v, perr := strconv.ParseInt(cur.text, 10, 64)
			var want int64
			ok := perr == nil
			var got int64
			var err error
			if op.Op == "incr" {
				if ok {
					want, ok = addInt(v, op.N)
				}
				got, err = cur.s.Increase(op.N)
			} else {
				if ok {
					want, ok = subInt(v, op.N)
				}
				got, err = cur.s.Decrease(op.N)
			}
			if ok {
				if err != nil || got != want {
					return h.Fail("operation %d: %s of %s by %d gave %d, %v, want %d", i, op.Op, h.Short(cur.text, 40), op.N, got, err, want)
				}
				cur.text = strconv.FormatInt(want, 10)
			} else {
				if err == nil {
					return h.Fail("operation %d: %s of %s by %d gave %d and no error", i, op.Op, h.Short(cur.text, 40), op.N, got)
				}
				o.Labels = append(o.Labels, "failed")
			}
		case "range":
			l, r, ok := model.Segment(op.N, op.R, len(cur.text))
			g, err := cur.s.GetRange(int(op.N), int(op.R))
			if !ok {
				if err == nil {
					return h.Fail("operation %d: GetRange(%d, %d) of %s gave no error", i, op.N, op.R, h.Short(cur.text, 40))
				}
				break
			}
			if err != nil {
				return h.Fail("operation %d: GetRange(%d, %d) of %s: %v", i, op.N, op.R, h.Short(cur.text, 40), err)
			}
			part := &live{g, cur.text[l : r+1]}
			if w := views(g, part.text); w != "" {
				return h.Fail("operation %d: GetRange(%d, %d) of %s: %s", i, op.N, op.R, h.Short(cur.text, 40), w)
			}
			pool = append(pool, part)
		}
		for k, x := range pool {
			if w := views(x.s, x.text); w != "" {
				return h.Fail("after operation %d (%s): string %d of %d: %s", i, op.Op, k, len(pool), w)
			}
		}
	}
	return o
}

type smap struct{ Ops []smop }

type smop struct {
	Op   string
	K, V []gen.B
	N, R int64
}

func runSM(p smap) h.Outcome {
	m := container.NewStringMap()
	want := map[string]string{}
	keys := map[string]bool{}
	o := h.Outcome{Steps: len(p.Ops), NonTrivial: len(p.Ops) > 1}
	for i, op := range p.Ops {
		h.Tick()
		o.Labels = append(o.Labels, op.Op)
		bad := func(f string, a ...interface{}) h.Outcome {
			return h.Fail("operation %d (%s %q %q %d %d): %s", i, op.Op, op.K, op.V, op.N, op.R, fmt.Sprintf(f, a...))
		}
		for _, k := range op.K {
			keys[string(k)] = true
		}
		var k string
		if len(op.K) > 0 {
			k = string(op.K[0])
		}
		cur, has := want[k]
		switch op.Op {
		case "set":
			err := m.Set(strs(op.K), strs(op.V))
			if len(op.K) != len(op.V) {
				if err == nil {
					return bad("keys and values differ in number, no error")
				}
				break
			}
			if err != nil {
				return bad("%v", err)
			}
			for j := range op.K {
				want[string(op.K[j])] = string(op.V[j])
			}
		case "append":
			n := m.Append(str(op.K[0]), str(op.V[0]))
			want[k] = cur + string(op.V[0])
			if n != len(want[k]) {
				return bad("returned %d, want %d", n, len(want[k]))
			}
		case "incr", "decr":
			v, perr := strconv.ParseInt(cur, 10, 64)
			ok := has && perr == nil
			var w, got int64
			var err error
			if op.Op == "incr" {
				if ok {
					w, ok = addInt(v, op.N)
				}
				got, err = m.Increase(str(op.K[0]), op.N)
			} else {
				if ok {
					w, ok = subInt(v, op.N)
				}
				got, err = m.Decrease(str(op.K[0]), op.N)
			}
			if ok != (err == nil) || (ok && got != w) {
				return bad("on %s (present %v) gave %d, %v", h.Short(cur, 40), has, got, err)
			}
			if !has && !errors.Is(err, container.ErrKeyNotFound) {
				return bad("on a missing key gave %v", err)
			}
			if has && !ok && !errors.Is(err, container.ErrNotAInt) {
				return bad("on %s gave %v", h.Short(cur, 40), err)
			}
			if ok {
				want[k] = strconv.FormatInt(w, 10)
			}
		case "range":
			l, r, ok := model.Segment(op.N, op.R, len(cur))
			g, err := m.GetRange(str(op.K[0]), int(op.N), int(op.R))
			switch {
			case !has:
				if !errors.Is(err, container.ErrKeyNotFound) {
					return bad("on a missing key gave %v", err)
				}
			case !ok:
				if err == nil {
					return bad("of %d bytes gave no error", len(cur))
				}
			default:
				if err != nil {
					return bad("of %d bytes: %v", len(cur), err)
				}
				if w := views(g, cur[l:r+1]); w != "" {
					return bad("%s", w)
				}
			}
		case "exists":
			n := 0
			for _, k := range op.K {
				if _, ok := want[string(k)]; ok {
					n++
				}
			}
			if got := m.Exists(strs(op.K)); got != n {
				return bad("gave %d, want %d", got, n)
			}
		}
		if m.Len() != len(want) {
			return bad("Len() is %d, want %d", m.Len(), len(want))
		}
		for k := range keys {
			got := m.Get([]*container.StringContainer{container.NewString(k)})
			if len(got) != 1 {
				return bad("Get of one key gave %d values", len(got))
			}
			w, ok := want[k]
			if !ok {
				if got[0] != nil {
					return bad("key %q is there", k)
				}
				if _, err := m.StringLen(container.NewString(k)); err == nil {
					return bad("StringLen of the missing key %q gave no error", k)
				}
				continue
			}
			if v := views(got[0], w); v != "" {
				return bad("key %q: %s", k, v)
			}
			if n, err := m.StringLen(container.NewString(k)); err != nil || n != len(w) {
				return bad("StringLen(%q) is %d, %v, want %d", k, n, err, len(w))
			}
		}
		if all := m.Get(strs(op.K)); len(all) != len(op.K) {
			return bad("Get of %d keys gave %d values", len(op.K), len(all))
		} else {
			for j, g := range all {
				w, ok := want[string(op.K[j])]
				if (g != nil) != ok || (ok && g.String() != w) {
					return bad("Get of all its keys: value %d is wrong", j)
				}
			}
		}
	}
	return o
}

func TestC26(t *testing.T) {
	h.Plan(2)
	h.Check(t, "C26", h.WithTime(h.Prop[splan]{Name: "value", Cases: 5000, Run: runS, Rule: "a string object under random appends, integer steps and ranges; text, bytes, length, integer, objects, equality, hash and order of it and of every string it was made from or into compared after every operation; non-trivial with an operation",
		Gen: func(t *rapid.T) splan {
			p := splan{Init: gen.IntText(t, "init")}
			if rapid.IntRange(0, 2).Draw(t, "any") == 0 {
				p.Init = gen.Value(t, "init2")
			}
			for i, n := 0, gen.Num(t, "n", 1, 16); i < n; i++ {
				op := sop{Op: rapid.SampledFrom([]string{"append", "append", "incr", "decr", "incr", "decr", "range", "pick"}).Draw(t, "op")}
				switch op.Op {
				case "pick":
					op.N = int64(rapid.IntRange(0, 7).Draw(t, "pick"))
				case "append":
					op.R = int64(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "of"))
					op.Val = rapid.SampledFrom([]gen.B{"", "0", "1", "7", "x", "-", "00", " "}).Draw(t, "val")
					if rapid.IntRange(0, 5).Draw(t, "any") == 0 {
						op.Val = gen.Value(t, "val")
					}
				case "range":
					top := gen.Sized(t, "top", 10000, 25, 25, 25, 300, 5000)
					op.N, op.R = int64(rapid.IntRange(-top, top).Draw(t, "l")), int64(rapid.IntRange(-top, top).Draw(t, "r"))
				default:
					op.N = gen.Int(t, "n")
				}
				p.Ops = append(p.Ops, op)
			}
			p.Ops = gen.Repeat(t, p.Ops, 60)
			return p
		},
		Fixed: []splan{{Init: "9223372036854775807", Ops: []sop{{Op: "incr", N: 1}, {Op: "decr", N: -9223372036854775808}, {Op: "incr", N: -9223372036854775808}, {Op: "decr", N: 1}, {Op: "decr", N: 9223372036854775807}, {Op: "decr", N: 1}}},
			{Init: "-1", Ops: []sop{{Op: "decr", N: -9223372036854775808}, {Op: "incr", N: 1}, {Op: "incr", N: -9223372036854775808}}},
			{Init: "0", Ops: []sop{{Op: "decr", N: -9223372036854775808}, {Op: "incr", N: -9223372036854775808}, {Op: "decr", N: -9223372036854775808}}}}}))
	h.Check(t, "C26", h.WithTime(h.Prop[smap]{Name: "map", Cases: 2500, Run: runSM, Rule: "a string map under random sets (also of unequal lengths), appends, integer steps, ranges and existence checks; results and every view of every value compared after each; non-trivial with two operations", Gen: genSM}))
}

func genSM(t *rapid.T) smap {
	keys := []gen.B{"a", "b", "", "\xff", "dummy string"}
	if rapid.IntRange(0, 3).Draw(t, "alike") == 0 {
		keys = gen.Pool(t)
	} else if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
		for i, n := 0, gen.Sized(t, "keys", 300, 20, 70, 130); i < n; i++ {
			keys = append(keys, gen.B(fmt.Sprint("k", i)))
		}
	}
	key := func(t *rapid.T) gen.B { return rapid.SampledFrom(keys).Draw(t, "key") }
	var p smap
	for i, n := 0, gen.Num(t, "n", 1, 20); i < n; i++ {
		op := smop{Op: rapid.SampledFrom([]string{"set", "set", "append", "incr", "decr", "range", "exists"}).Draw(t, "op")}
		k := 1
		if op.Op == "set" || op.Op == "exists" {
			k = rapid.IntRange(0, 4).Draw(t, "k")
		}
		for j := 0; j < k; j++ {
			op.K = append(op.K, key(t))
		}
		switch op.Op {
		case "set":
			if rapid.IntRange(0, 9).Draw(t, "mis") == 0 {
				k = rapid.IntRange(0, 4).Draw(t, "k2")
			}
			for j := 0; j < k; j++ {
				if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
					op.V = append(op.V, gen.Value(t, "v"))
					continue
				}
				op.V = append(op.V, gen.IntText(t, "v"))
			}
		case "append":
			op.V = []gen.B{rapid.SampledFrom([]gen.B{"", "0", "1", "x"}).Draw(t, "v")}
			if rapid.IntRange(0, 5).Draw(t, "any") == 0 {
				op.V = []gen.B{gen.Value(t, "v")}
			}
		case "range":
			op.N, op.R = int64(rapid.IntRange(-9, 9).Draw(t, "l")), int64(rapid.IntRange(-9, 9).Draw(t, "r"))
		default:
			op.N = gen.Int(t, "by")
		}
		p.Ops = append(p.Ops, op)
	}
	p.Ops = gen.Repeat(t, p.Ops, 100)
	return p
}
