package core

import (
	"fmt"
	"testing"

	"github.com/lxdlam/vertex/pkg/container"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/model"
)

// ---------------------------------------------------------------- lists

type lop struct {
	Op   string
	V    []gen.B
	I, J int
	Aft  bool `json:",omitempty"`
}

type lplan struct {
	Fill, Mod int
	Ops       []lop
}

func runL(p lplan) h.Outcome {
	l := container.NewLinkedListContainer("list")
	if l.Key() != "list" || l.Type() != container.LinkedListType {
		return h.Fail("key %q, type %v", l.Key(), l.Type())
	}
	var want []string
	for i := 0; i < p.Fill; i++ {
		v := fmt.Sprint("v", i%p.Mod)
		want = append(want, v)
		if n, err := l.PushTail(strs([]gen.B{gen.B(v)})); err != nil || n != len(want) {
			return h.Fail("PushTail gave %d, %v, want %d", n, err, len(want))
		}
	}
	check := func() string {
		if l.Len() != len(want) {
			return fmt.Sprintf("Len() is %d, want %d", l.Len(), len(want))
		}
		got, err := l.Range(0, -1)
		if len(want) == 0 {
			if err == nil && len(got) != 0 {
				return fmt.Sprintf("an empty list holds %s", q(texts2(got)))
			}
			return ""
		}
		if err != nil || !eqs(texts2(got), want) {
			return fmt.Sprintf("contents %s, %v, want %s", q(texts2(got)), err, q(want))
		}
		return ""
	}
	o := h.Outcome{Steps: len(p.Ops)}
	changes := p.Fill
	for i, op := range p.Ops {
		h.Tick()
		o.Labels = append(o.Labels, op.Op)
		var v string
		if len(op.V) > 0 {
			v = string(op.V[0])
		}
		w := ""
		n := len(want)
		norm := func(i int) int {
			if i < 0 {
				i += n
			}
			if i < 0 || i >= n {
				return -1
			}
			return i
		}
		switch op.Op {
		case "pushhead":
			for _, x := range op.V {
				want = append([]string{string(x)}, want...)
			}
			if n, err := l.PushHead(strs(op.V)); err != nil || n != len(want) {
				w = fmt.Sprintf("gave %d, %v, want %d", n, err, len(want))
			}
		case "pushtail":
			want = append(append([]string{}, want...), h.Strs(op.V)...)
			if n, err := l.PushTail(strs(op.V)); err != nil || n != len(want) {
				w = fmt.Sprintf("gave %d, %v, want %d", n, err, len(want))
			}
		case "pophead", "poptail":
			var got *container.StringContainer
			var err error
			if op.Op == "pophead" {
				got, err = l.PopHead()
			} else {
				got, err = l.PopTail()
			}
			if n == 0 {
				if err != container.ErrEmptyList {
					w = fmt.Sprintf("on an empty list gave %v", err)
				}
				break
			}
			var x string
			if op.Op == "pophead" {
				x, want = want[0], want[1:]
			} else {
				x, want = want[n-1], want[:n-1:n-1]
			}
			if err != nil || got == nil || got.String() != x {
				w = fmt.Sprintf("gave %v, %v, want %s", got, err, h.Short(x, 40))
			}
		case "insert":
			at := -1
			for k, x := range want {
				if x == v {
					at = k
					break
				}
			}
			got, err := l.Insert(str(op.V[0]), str(op.V[1]), op.Aft)
			if at < 0 {
				if err != container.ErrNoSuchPivot {
					w = fmt.Sprintf("without the pivot gave %d, %v", got, err)
				}
				break
			}
			if op.Aft {
				at++
			}
			want = append(append(append([]string{}, want[:at]...), string(op.V[1])), want[at:]...)
			if err != nil || got != len(want) {
				w = fmt.Sprintf("gave %d, %v, want %d", got, err, len(want))
			}
		case "set":
			k := norm(op.I)
			err := l.Set(op.I, str(op.V[0]))
			if k < 0 {
				if err != container.ErrOutOfRange {
					w = fmt.Sprintf("out of range gave %v", err)
				}
				break
			}
			want = append([]string{}, want...)
			want[k] = v
			if err != nil {
				w = err.Error()
			}
		case "index":
			k := norm(op.I)
			got, err := l.Index(op.I)
			if k < 0 {
				if err != container.ErrOutOfRange {
					w = fmt.Sprintf("out of range gave %v, %v", got, err)
				}
				break
			}
			if err != nil || got == nil || got.String() != want[k] {
				w = fmt.Sprintf("gave %v, %v, want %s", got, err, h.Short(want[k], 40))
			}
		case "range", "trim":
			a, b, ok := model.Segment(int64(op.I), int64(op.J), n)
			if op.Op == "trim" {
				err := l.Trim(op.I, op.J)
				if ok {
					want = append([]string{}, want[a:b+1]...)
				}
				if ok != (err == nil) || (!ok && err != container.ErrOutOfRange) {
					w = fmt.Sprintf("gave %v, in range %v", err, ok)
				}
				break
			}
			got, err := l.Range(op.I, op.J)
			if !ok {
				if err != container.ErrOutOfRange {
					w = fmt.Sprintf("out of range gave %s, %v", q(texts2(got)), err)
				}
				break
			}
			if err != nil || !eqs(texts2(got), want[a:b+1]) {
				w = fmt.Sprintf("gave %s, %v, want %s", q(texts2(got)), err, q(want[a:b+1]))
			}
		case "remove":
			left := op.I
			fwd := left >= 0
			if left == 0 {
				left = n
			}
			if left < 0 {
				left = -left
				if left < 0 {
					left = n + 1
				}
			}
			var keep []string
			removed := 0
			for k := range want {
				x := want[k]
				if !fwd {
					x = want[n-1-k]
				}
				if x == v && removed < left {
					removed++
					continue
				}
				keep = append(keep, x)
			}
			if !fwd {
				for a, b := 0, len(keep)-1; a < b; a, b = a+1, b-1 {
					keep[a], keep[b] = keep[b], keep[a]
				}
			}
			want = keep
			if got := l.Remove(op.I, str(op.V[0])); got != removed {
				w = fmt.Sprintf("gave %d, want %d", got, removed)
			}
		}
		if n != len(want) {
			changes++
		}
		if w == "" {
			w = check()
		}
		if w != "" {
			return h.Fail("operation %d: %s %q %d %d after=%v on a list of %d: %s", i, op.Op, op.V, op.I, op.J, op.Aft, n, w)
		}
	}
	o.NonTrivial = changes > 1
	return o
}

// gen1 draws from a pool.
func gen1(pool []gen.B) func(*rapid.T) gen.B {
	return func(t *rapid.T) gen.B { return rapid.SampledFrom(pool).Draw(t, "v") }
}

func genL(t *rapid.T) lplan {
	p := lplan{Fill: gen.Sized(t, "fill", 20000, 0, 0, 3, 10, 30, 30, 300, 2000), Mod: rapid.SampledFrom([]int{1, 2, 3, 7, 7, 1 << 30}).Draw(t, "mod")}
	pool := []gen.B{"v0", "v1", "v2", "v3", "dummy string", "", "\xff"}
	if rapid.IntRange(0, 3).Draw(t, "alike") == 0 {
		pool = gen.Pool(t)
	}
	val := gen1(pool)
	ix := func(l string) int {
		if rapid.IntRange(0, 14).Draw(t, l+"-x") == 0 {
			return rapid.SampledFrom([]int{9223372036854775807, -9223372036854775808, -9223372036854775807, 2147483648}).Draw(t, l)
		}
		return rapid.IntRange(-p.Fill-4, p.Fill+4).Draw(t, l)
	}
	top := 40
	if p.Fill > 100 {
		top = 8
	}
	for i, n := 0, gen.Num(t, "n", 1, top); i < n; i++ {
		op := lop{Op: rapid.SampledFrom([]string{"pushhead", "pushtail", "pushtail", "pophead", "poptail", "insert", "insert", "set", "index", "range", "trim", "remove", "remove"}).Draw(t, "op"), I: ix("i"), J: ix("j"), Aft: rapid.Bool().Draw(t, "aft")}
		switch op.Op {
		case "pushhead", "pushtail":
			for k, m := 0, rapid.IntRange(0, 4).Draw(t, "m"); k < m; k++ {
				op.V = append(op.V, val(t))
			}
		default:
			op.V = []gen.B{val(t), val(t)}
		}
		p.Ops = append(p.Ops, op)
	}
	p.Ops = gen.Repeat(t, p.Ops, 60000/(p.Fill+60))
	return p
}

// bulk names many of the first fields or members at once.
func bulk(t *rapid.T, fill int) []gen.B {
	from, n := rapid.IntRange(0, fill).Draw(t, "from"), rapid.IntRange(1, fill).Draw(t, "bulk")
	if rapid.Bool().Draw(t, "most") {
		from, n = rapid.IntRange(0, 3).Draw(t, "from"), fill
	}
	var out []gen.B
	for i := from; i < from+n && i < fill; i++ {
		out = append(out, gen.B(fmt.Sprint("fill", i)))
	}
	return out
}

// ---------------------------------------------------------------- hashes

type hplan struct {
	Fill int `json:",omitempty"` // so many fields are there from the start
	Ops  []lop
}

func runH(p hplan) h.Outcome {
	m := container.NewHashContainer("hash")
	if m.Key() != "hash" || m.Type() != container.HashType {
		return h.Fail("key %q, type %v", m.Key(), m.Type())
	}
	want := map[string]string{}
	seen := map[string]bool{"never": true}
	o := h.Outcome{Steps: len(p.Ops), NonTrivial: len(p.Ops) > 1}
	for i := 0; i < p.Fill; i++ {
		k, v := fmt.Sprint("fill", i), fmt.Sprint(i)
		if n, err := m.Set(strs([]gen.B{gen.B(k)}), strs([]gen.B{gen.B(v)})); err != nil || n != 1 {
			return h.Fail("setting new field %d gave %d, %v", i, n, err)
		}
		want[k] = v
		if i < 2 || i == p.Fill-1 {
			seen[k] = true
		}
	}
	for i, op := range p.Ops {
		h.Tick()
		o.Labels = append(o.Labels, op.Op)
		w := ""
		var ks, vs []gen.B
		for j, x := range op.V {
			seen[string(x)] = true
			if j%2 == 0 {
				ks = append(ks, x)
			} else {
				vs = append(vs, x)
			}
		}
		switch op.Op {
		case "set":
			before := len(want)
			n, err := m.Set(strs(ks), strs(vs))
			if len(ks) != len(vs) {
				if err != container.ErrHashLengthNotMatch {
					w = fmt.Sprintf("with %d fields and %d values gave %v", len(ks), len(vs), err)
				}
				break
			}
			for j := range ks {
				want[string(ks[j])] = string(vs[j])
			}
			if err != nil || n != len(want)-before {
				w = fmt.Sprintf("gave %d, %v, want %d", n, err, len(want)-before)
			}
		case "del":
			before := len(want)
			for _, k := range op.V {
				delete(want, string(k))
			}
			if n := m.Del(strs(op.V)); n != before-len(want) {
				w = fmt.Sprintf("gave %d, want %d", n, before-len(want))
			}
		case "get":
			got := m.Get(strs(op.V))
			if len(got) != len(op.V) {
				w = fmt.Sprintf("of %d fields gave %d values", len(op.V), len(got))
				break
			}
			for j, k := range op.V {
				x, ok := want[string(k)]
				if ok != (got[j] != nil) || (ok && got[j].String() != x) {
					w = fmt.Sprintf("of field %s is wrong", h.Short(string(k), 40))
				}
			}
		}
		if w == "" {
			w = checkHash(m, want, seen)
		}
		if w != "" {
			return h.Fail("operation %d: %s %q: %s", i, op.Op, op.V, w)
		}
	}
	return o
}

func checkHash(m container.HashContainer, want map[string]string, seen map[string]bool) string {
	if m.Len() != len(want) {
		return fmt.Sprintf("Len() is %d, want %d", m.Len(), len(want))
	}
	var wk, wv, wp []string
	for k, v := range want {
		wk = append(wk, k)
		wv = append(wv, v)
		wp = append(wp, k+"\x00=\x00"+v)
	}
	if got := texts2(m.Keys()); !sameBag(got, wk) {
		return fmt.Sprintf("Keys() is %s, want %s", q(got), q(wk))
	}
	if got := texts2(m.Values()); !sameBag(got, wv) {
		return fmt.Sprintf("Values() is %s, want %s", q(got), q(wv))
	}
	ek, ev := m.Entries()
	if len(ek) != len(ev) {
		return fmt.Sprintf("Entries() gave %d fields and %d values", len(ek), len(ev))
	}
	var pairs []string
	for j := range ek {
		pairs = append(pairs, ek[j].String()+"\x00=\x00"+ev[j].String())
	}
	if !sameBag(pairs, wp) {
		return fmt.Sprintf("Entries() is %s, want %s", q(pairs), q(wp))
	}
	for k := range seen {
		v, ok := want[k]
		if m.Exists(container.NewString(k)) != ok {
			return fmt.Sprintf("Exists(%s) is %v", h.Short(k, 40), !ok)
		}
		n, err := m.KeyLen(container.NewString(k))
		if ok != (err == nil) || (ok && n != len(v)) {
			return fmt.Sprintf("KeyLen(%s) is %d, %v", h.Short(k, 40), n, err)
		}
	}
	return ""
}

// ---------------------------------------------------------------- sets

type setPlan struct {
	Fill int `json:",omitempty"` // so many members are there from the start, half of them in the second set, a third in the third
	Ops  []setOp
}

type setOp struct {
	Op  string
	On  int
	V   []gen.B
	N   int
	Oth []int
}

type setx = map[string]bool

func setKeys(m setx) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	return out
}

func checkSet(s container.SetContainer, want setx, seen setx) string {
	if s.Len() != len(want) {
		return fmt.Sprintf("Len() is %d, want %d", s.Len(), len(want))
	}
	if got := texts2(s.Members()); !sameBag(got, setKeys(want)) {
		return fmt.Sprintf("Members() is %s, want %s", q(got), q(setKeys(want)))
	}
	for k := range seen {
		if s.IsMember(container.NewString(k)) != want[k] {
			return fmt.Sprintf("IsMember(%s) is %v", h.Short(k, 40), !want[k])
		}
	}
	return ""
}

func runSet(p setPlan) h.Outcome {
	const N = 4
	var s [N]container.SetContainer
	var want [N]setx
	for i := range s {
		s[i] = container.NewSetContainer(fmt.Sprint("s", i))
		want[i] = setx{}
		if s[i].Key() != fmt.Sprint("s", i) || s[i].Type() != container.SetType {
			return h.Fail("key %q, type %v", s[i].Key(), s[i].Type())
		}
	}
	seen := setx{"never": true}
	for i := 0; i < p.Fill; i++ {
		k := fmt.Sprint("fill", i)
		for j := 0; j < 3; j++ {
			if i%(j+1) == 0 {
				if n := s[j].Add(strs([]gen.B{gen.B(k)})); n != 1 {
					return h.Fail("adding new member %d gave %d", i, n)
				}
				want[j][k] = true
			}
		}
	}
	o := h.Outcome{Steps: len(p.Ops), NonTrivial: len(p.Ops) > 1}
	for i, op := range p.Ops {
		h.Tick()
		o.Labels = append(o.Labels, op.Op)
		c, m := s[op.On], want[op.On]
		w := ""
		for _, x := range op.V {
			seen[string(x)] = true
		}
		switch op.Op {
		case "add":
			n := len(m)
			for _, x := range op.V {
				m[string(x)] = true
			}
			if got := c.Add(strs(op.V)); got != len(m)-n {
				w = fmt.Sprintf("gave %d, want %d", got, len(m)-n)
			}
		case "del":
			n := len(m)
			for _, x := range op.V {
				delete(m, string(x))
			}
			if got := c.Delete(strs(op.V)); got != n-len(m) {
				w = fmt.Sprintf("gave %d, want %d", got, n-len(m))
			}
		case "random", "pop":
			var got []string
			if op.Op == "random" {
				got = texts2(c.RandomMember(op.N))
			} else {
				got = texts2(c.Pop(op.N))
			}
			n := op.N
			if n < 0 {
				n = -n
			}
			if n > len(m) {
				n = len(m)
			}
			uniq := setx{}
			for _, x := range got {
				uniq[x] = true
				if !m[x] {
					w = fmt.Sprintf("gave %s, which is no member", h.Short(x, 40))
				}
			}
			if len(got) != n || len(uniq) != n {
				w = fmt.Sprintf("of %d from %d members gave %s", op.N, len(m), q(got))
			}
			if op.Op == "pop" {
				for x := range uniq {
					delete(m, x)
				}
			}
		case "diff", "inter", "union":
			var others []container.SetContainer
			res := setx{}
			for x := range m {
				res[x] = true
			}
			for _, k := range op.Oth {
				others = append(others, s[k])
				switch op.Op {
				case "diff":
					for x := range want[k] {
						delete(res, x)
					}
				case "inter":
					for x := range res {
						if !want[k][x] {
							delete(res, x)
						}
					}
				case "union":
					for x := range want[k] {
						res[x] = true
					}
				}
			}
			var r container.SetContainer
			switch op.Op {
			case "diff":
				r = c.Diff(others)
			case "inter":
				r = c.Intersect(others)
			case "union":
				r = c.Union(others)
			}
			if r == nil {
				w = "gave nil"
				break
			}
			if w = checkSet(r, res, seen); w != "" {
				w = "the result: " + w
				break
			}
			// the result is a set of its own
			r.Add(strs([]gen.B{"only in the result"}))
			r.Delete(r.Members())
			if r.Len() != 0 {
				w = fmt.Sprintf("the result holds %d members after all were removed", r.Len())
			}
		}
		for k := range s {
			if w == "" {
				if w = checkSet(s[k], want[k], seen); w != "" {
					w = fmt.Sprintf("set %d: %s", k, w)
				}
			}
		}
		if w != "" {
			return h.Fail("operation %d: %s on %d, %q %d %v: %s", i, op.Op, op.On, op.V, op.N, op.Oth, w)
		}
	}
	return o
}

// ---------------------------------------------------------------- containers

type cplan struct{ Ops []cop }

type cop struct {
	Op, Kind string
	Key      gen.B
	Use      string // what is done with what is found: "" adds, "none", "clear"
}

func runC(p cplan) h.Outcome {
	cs := container.NewContainers()
	type id struct{ kind, key string }
	made := map[id]container.ContainerObject{}
	count := map[id]int{}
	strsMade := map[string]string{}
	o := h.Outcome{Steps: len(p.Ops), NonTrivial: len(p.Ops) > 1}
	types := map[string]container.ContainerType{"list": container.LinkedListType, "hash": container.HashType, "set": container.SetType}
	get := func(kind, key string, create bool) (container.ContainerObject, bool) {
		switch kind {
		case "list":
			x := cs.GetList(key)
			if create {
				x = cs.GetOrCreateList(key)
			}
			return x, x != nil
		case "hash":
			x := cs.GetHash(key)
			if create {
				x = cs.GetOrCreateHash(key)
			}
			return x, x != nil
		}
		x := cs.GetSet(key)
		if create {
			x = cs.GetOrCreateSet(key)
		}
		return x, x != nil
	}
	length := func(c container.ContainerObject) int {
		switch x := c.(type) {
		case container.ListContainer:
			return x.Len()
		case container.HashContainer:
			return x.Len()
		case container.SetContainer:
			return x.Len()
		}
		return -1
	}
	for i, op := range p.Ops {
		h.Tick()
		key := string(op.Key)
		k := id{op.Kind, key}
		bad := func(f string, a ...interface{}) h.Outcome {
			return h.Fail("operation %d: %s %s %q: %s", i, op.Op, op.Kind, key, fmt.Sprintf(f, a...))
		}
		if op.Kind == "string" {
			v := fmt.Sprint("value", i)
			if err := cs.Global().Set(strs([]gen.B{op.Key}), strs([]gen.B{gen.B(v)})); err != nil {
				return bad("%v", err)
			}
			strsMade[key] = v
		} else {
			c, ok := get(op.Kind, key, op.Op == "create")
			old, was := made[k]
			switch {
			case op.Op == "get" && ok != was:
				return bad("found %v, want %v", ok, was)
			case op.Op == "create" && key == "":
				if ok {
					return bad("made something under the empty name")
				}
			case op.Op == "create" && !ok:
				return bad("gave nil")
			case ok && was && c != old:
				return bad("gave another object than before")
			}
			if ok {
				made[k] = c
				if c.Key() != key || c.Type() != types[op.Kind] {
					return bad("gave an object with key %q and type %v", c.Key(), c.Type())
				}
				if op.Use != "" {
					o.Labels = append(o.Labels, op.Use)
				}
				v := container.NewString(fmt.Sprint("item", i))
				switch op.Use {
				case "none":
				case "clear":
					switch x := c.(type) {
					case container.ListContainer:
						for x.Len() > 0 {
							if _, err := x.PopHead(); err != nil {
								return bad("emptying it: %v", err)
							}
						}
					case container.HashContainer:
						x.Del(x.Keys())
					case container.SetContainer:
						x.Delete(x.Members())
					}
					count[k] = 0
				default:
					switch x := c.(type) {
					case container.ListContainer:
						_, _ = x.PushTail([]*container.StringContainer{v})
					case container.HashContainer:
						_, _ = x.Set([]*container.StringContainer{v}, []*container.StringContainer{v})
					case container.SetContainer:
						x.Add([]*container.StringContainer{v})
					}
					count[k]++
				}
			}
		}
		for k, c := range made {
			if length(c) != count[k] {
				return bad("the %s under %q holds %d items, want %d", k.kind, k.key, length(c), count[k])
			}
		}
		if cs.Global() == nil || cs.Global().Len() != len(strsMade) {
			return bad("the string map lost or gained keys")
		}
		for k, v := range strsMade {
			got := cs.Global().Get([]*container.StringContainer{container.NewString(k)})
			if len(got) != 1 || got[0] == nil || got[0].String() != v {
				return bad("string %q is wrong", k)
			}
		}
	}
	o.NonTrivial = len(made) > 0
	return o
}

func TestC30(t *testing.T) {
	h.Plan(5)
	base := []gen.B{"a", "b", "c", "d", "e", "dummy string", "", "\xff", "1"}
	pools := func(t *rapid.T) []gen.B {
		if rapid.IntRange(0, 3).Draw(t, "alike") == 0 {
			return gen.Pool(t)
		}
		return base
	}
	vals := func(t *rapid.T, pool []gen.B, lo, hi int) []gen.B {
		var out []gen.B
		for i, n := 0, rapid.IntRange(lo, hi).Draw(t, "k"); i < n; i++ {
			out = append(out, gen1(pool)(t))
		}
		return out
	}
	list := h.Prop[lplan]{Name: "list", Cases: 8000, Gen: genL, Run: runL, Journal: true, Rule: "random operation histories on a list used directly, each result and the contents compared with a slice; non-trivial when it changed twice"}
	h.Check(t, "C30", h.WithTime(list))
	h.Check(t, "C30", hugeProp(list))
	hash := h.Prop[hplan]{Name: "hash", Cases: 5000, Run: runH, Journal: true, Rule: "random operation histories on a hash used directly, each result and every listing compared with a map; non-trivial with two operations",
		Gen: func(t *rapid.T) hplan {
			p := hplan{Fill: gen.Sized(t, "fill", 20000, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 70, 70, 600, 1500)}
			pool := pools(t)
			top := 25
			if p.Fill > 100 {
				top = 7
			}
			for i, n := 0, gen.Num(t, "n", 1, top); i < n; i++ {
				op := lop{Op: rapid.SampledFrom([]string{"set", "set", "del", "get"}).Draw(t, "op")}
				op.V = vals(t, pool, 0, 6)
				if op.Op != "set" && p.Fill > 0 && rapid.IntRange(0, 3).Draw(t, "many") == 0 {
					op.V = bulk(t, p.Fill)
				}
				if op.Op == "set" && len(op.V)%2 == 1 && rapid.IntRange(0, 3).Draw(t, "even") > 0 {
					op.V = append(op.V, gen1(pool)(t))
				}
				p.Ops = append(p.Ops, op)
			}
			p.Ops = gen.Repeat(t, p.Ops, 12000/(p.Fill+60))
			return p
		}}
	h.Check(t, "C30", h.WithTime(hash))
	h.Check(t, "C30", hugeProp(hash))
	set := h.Prop[setPlan]{Name: "set", Cases: 5000, Run: runSet, Journal: true, Retries: 20, Rule: "random operation histories on four sets used directly, algebra among them included; results and all four sets compared with maps after each; non-trivial with two operations",
		Gen: func(t *rapid.T) setPlan {
			p := setPlan{Fill: gen.Sized(t, "fill", 20000, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 70, 70, 600, 1500)}
			pool := pools(t)
			ns := []int{-7, -3, -2, -1, 0, 1, 1, 2, 3, 5, 7}
			if p.Fill > 0 {
				ns = append(ns, p.Fill/10, p.Fill/2, p.Fill, -p.Fill/2, -p.Fill, p.Fill+10)
			}
			top := 25
			if p.Fill > 100 {
				top = 6
			}
			for i, n := 0, gen.Num(t, "n", 1, top); i < n; i++ {
				op := setOp{Op: rapid.SampledFrom([]string{"add", "add", "add", "del", "random", "pop", "diff", "inter", "union"}).Draw(t, "op"), On: rapid.IntRange(0, 3).Draw(t, "on"), N: rapid.SampledFrom(ns).Draw(t, "n2")}
				op.V = vals(t, pool, 0, 5)
				if (op.Op == "add" || op.Op == "del") && p.Fill > 0 && rapid.IntRange(0, 3).Draw(t, "many") == 0 {
					op.V = bulk(t, p.Fill)
				}
				op.Oth = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 4).Draw(t, "others")
				p.Ops = append(p.Ops, op)
			}
			p.Ops = gen.Repeat(t, p.Ops, 6000/(p.Fill+60))
			return p
		}}
	h.Check(t, "C30", h.WithTime(set))
	h.Check(t, "C30", hugeProp(set))
	h.Check(t, "C30", h.WithTime(h.Prop[smap]{Name: "strings", Cases: 2500, Gen: genSM, Run: runSM, Journal: true, Rule: "random operation histories on a string map used directly, several keys at once included; each result and every value compared with a map; non-trivial with two operations"}))
	h.Check(t, "C30", h.WithTime(h.Prop[cplan]{Name: "names", Cases: 3000, Run: runC, Journal: true, Rule: "random look-ups and creations of collections of all kinds under a few names, each used, emptied or left alone once found; identity, kind, key and contents of all of them compared; non-trivial when one was made",
		Gen: func(t *rapid.T) cplan {
			names := []gen.B{"a", "b", "", "global", "anonymous"}
			if rapid.IntRange(0, 2).Draw(t, "alike") == 0 {
				names = gen.Pool(t)
			} else if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
				for i, n := 0, gen.Sized(t, "names", 600, 20, 70, 200); i < n; i++ {
					names = append(names, gen.B(fmt.Sprint("n", i)))
				}
			}
			return cplan{gen.Repeat(t, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) cop {
				return cop{Op: rapid.SampledFrom([]string{"get", "create"}).Draw(t, "op"), Kind: rapid.SampledFrom([]string{"list", "hash", "set", "string"}).Draw(t, "kind"), Key: rapid.SampledFrom(names).Draw(t, "key"), Use: rapid.SampledFrom([]string{"", "", "none", "clear"}).Draw(t, "use")}
			}), 1, 40).Draw(t, "ops"), 200)}
		}}))
}
