package core

import (
	"fmt"
	"time"

	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
)

// ---- histories over keys, fields, members and values that are alike ----

const alikeRule = "random command histories whose keys, fields, members and values come from one small family of strings that are easily confused (letter case, white space, numeric value, long common parts up to 70 KB, encodings, equal hashes); every reply and full read-backs against the model; non-trivial when at least two commands changed the state"

// alikeGen draws histories of one family of commands over a pool of alike strings.
func alikeGen(max int, f func(o gen.Opt, t *rapid.T) gen.Cmd) func(*rapid.T) history {
	return func(t *rapid.T) history {
		pool := gen.Pool(t)
		o := gen.Opt{Keys: pool, Value: gen.Of(pool)}
		if rapid.Bool().Draw(t, "onekey") {
			o.Keys = pool[:1]
			if pool[0] == "" {
				o.Keys = []gen.B{"k"}
			}
		}
		return history{Cmds: gen.Seq(t, func(t *rapid.T) gen.Cmd { return f(o, t) }, 1, max)}
	}
}

// ---- large collections ----

type large struct {
	Fam   string // "string", "hash", "set"
	N     int
	Pre   gen.B
	Batch int
	Blank int // every so many values are empty
	Cmds  []gen.Cmd
}

const largeRule = "a store with up to 3000 keys, fields or members (built by commands of generated width), then random commands over all of it, with hundreds of arguments, removals of all but a few and counts up to more than its size; every reply and listing against the model; always non-trivial"

// first is the value item i has at first.
func (p large) first(i int) gen.B {
	if p.Blank > 0 && i%p.Blank == 0 {
		return ""
	}
	return gen.B(fmt.Sprint("v", i))
}

func (p large) item(i int) gen.B { return p.Pre + gen.B(fmt.Sprint(i)) }

func genLarge(fam string) func(*rapid.T) large {
	return func(t *rapid.T) large {
		p := large{Fam: fam, N: gen.Sized(t, "size", 12000, 10, 17, 33, 65, 100, 129, 257, 300, 513, 1025, 3000), Batch: gen.Sized(t, "batch", 12000, 1, 7, 64, 1000, 4000),
			Pre: rapid.SampledFrom([]gen.B{"", "m", "user:", "\xff\x00", "a rather long common prefix of sixty-four characters or more ....."}).Draw(t, "pre")}
		huge := p.N > 20000
		if huge {
			p.Batch = rapid.SampledFrom([]int{4000, 40000, 70000}).Draw(t, "wide")
		}
		p.Blank = rapid.SampledFrom([]int{0, 1, 2, 7}).Draw(t, "blank")
		one := func(t *rapid.T) gen.B { return p.item(rapid.IntRange(0, p.N+1).Draw(t, "i")) }
		some := func(t *rapid.T) []gen.B {
			from, step := rapid.IntRange(0, p.N).Draw(t, "from"), rapid.SampledFrom([]int{0, 1, 1, 2, 37}).Draw(t, "step")
			var out []gen.B
			for i, k := 0, gen.Sized(t, "k", 4000, 1, 3, 10, 40, 80, 300); i < k; i++ {
				out = append(out, p.item((from+i*step)%(p.N+2)))
			}
			return out
		}
		val := func(t *rapid.T) gen.B {
			if k := rapid.IntRange(0, 5).Draw(t, "odd"); k < 2 {
				return []gen.B{"", "x"}[k]
			}
			return gen.B(fmt.Sprint(rapid.IntRange(0, 999).Draw(t, "v")))
		}
		// most names all but a few, wherever those are
		most := func(t *rapid.T) []gen.B {
			left := min(p.N, rapid.SampledFrom([]int{0, 1, 2, 3, p.N / 10, p.N / 4, p.N/4 + 1, p.N / 3, p.N / 2}).Draw(t, "left"))
			from := rapid.IntRange(0, p.N).Draw(t, "from")
			var out []gen.B
			for i := 0; i < p.N-left; i++ {
				out = append(out, p.item((from+i)%p.N))
			}
			return out
		}
		pairs := func(t *rapid.T) []gen.B {
			var out []gen.B
			for _, x := range some(t) {
				out = append(out, x, val(t))
			}
			return out
		}
		c := func(n gen.B, a ...gen.B) gen.Cmd { return append(gen.Cmd{n}, a...) }
		p.Cmds = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) gen.Cmd {
			k := rapid.IntRange(0, 9).Draw(t, "op")
			switch fam {
			case "string":
				switch k {
				case 0, 1:
					return c("mset", pairs(t)...)
				case 2, 3:
					return c("mget", some(t)...)
				case 4:
					return c("exists", some(t)...)
				case 5:
					return c("append", one(t), val(t))
				case 6:
					return c("incrby", one(t), val(t))
				case 9:
					return c("mget", most(t)...)
				}
				return c("set", one(t), val(t))
			case "hash":
				switch k {
				case 0, 1:
					return c("hset", append([]gen.B{"h"}, pairs(t)...)...)
				case 2, 3:
					return c("hdel", append([]gen.B{"h"}, some(t)...)...)
				case 4:
					return c("hmget", append([]gen.B{"h"}, some(t)...)...)
				case 5:
					return c("hget", "h", one(t))
				case 6:
					return c("hstrlen", "h", one(t))
				case 9:
					return c("hdel", append([]gen.B{"h"}, most(t)...)...)
				}
				return c("hexists", "h", one(t))
			}
			key := rapid.SampledFrom([]gen.B{"s", "t", "u", "v"}).Draw(t, "key")
			switch k {
			case 0, 1:
				return c("sadd", append([]gen.B{key}, some(t)...)...)
			case 2:
				return c("srem", append([]gen.B{key}, some(t)...)...)
			case 3, 4, 5:
				n := rapid.SampledFrom([]int{1, 2, 5, p.N / 10, p.N/2 - 1, p.N / 2, p.N - 1, p.N, p.N + 5}).Draw(t, "count")
				if rapid.IntRange(0, 3).Draw(t, "neg") == 0 {
					n = -n
				}
				return c(rapid.SampledFrom([]gen.B{"srandmember", "spop"}).Draw(t, "r"), key, gen.B(fmt.Sprint(n)))
			case 6:
				return c("sismember", key, one(t))
			case 9:
				return c("srem", append([]gen.B{key}, most(t)...)...)
			}
			return c(rapid.SampledFrom([]gen.B{"sdiff", "sinter", "sunion"}).Draw(t, "alg"), rapid.SliceOfN(rapid.SampledFrom([]gen.B{"s", "t", "u", "v", "none"}), 1, 8).Draw(t, "keys")...)
		}), 1, 12).Draw(t, "cmds")
		if huge {
			p.Cmds = p.Cmds[:min(2, len(p.Cmds))]
		}
		return p
	}
}

func runLarge(p large) h.Outcome {
	var cmds []gen.Cmd
	// many adds the items, batch by batch
	many := func(head gen.Cmd, idx []int, value bool) {
		for len(idx) > 0 {
			n := min(p.Batch, len(idx))
			c := append(gen.Cmd(nil), head...)
			for _, i := range idx[:n] {
				c = append(c, p.item(i))
				if value {
					c = append(c, p.first(i))
				}
			}
			cmds = append(cmds, c)
			idx = idx[n:]
		}
	}
	every := func(from, step int) []int {
		var out []int
		for i := from; i < p.N; i += step {
			out = append(out, i)
		}
		return out
	}
	all := gen.Cmd{"mget"}
	for i := 0; i < p.N+2; i++ {
		all = append(all, p.item(i))
	}
	look := func() {}
	switch p.Fam {
	case "string":
		many(gen.Cmd{"mset"}, every(0, 1), true)
		look = func() {
			cmds = append(cmds, all, append(gen.Cmd{"exists"}, all[1:]...))
		}
	case "hash":
		many(gen.Cmd{"hset", "h"}, every(0, 1), true)
		look = func() {
			cmds = append(cmds, gen.Cmd{"hlen", "h"}, gen.Cmd{"hgetall", "h"}, gen.Cmd{"hkeys", "h"}, gen.Cmd{"hvals", "h"}, append(gen.Cmd{"hmget", "h"}, all[1:]...))
		}
	default:
		many(gen.Cmd{"sadd", "s"}, every(0, 1), false)
		many(gen.Cmd{"sadd", "t"}, every(0, 2), false)
		many(gen.Cmd{"sadd", "u"}, every(1, 3), false)
		many(gen.Cmd{"sadd", "v"}, every(p.N/2, 1), false)
		look = func() {
			for _, k := range []gen.B{"s", "t", "u", "v"} {
				cmds = append(cmds, gen.Cmd{"scard", k}, gen.Cmd{"smembers", k})
			}
		}
	}
	if p.N < 20000 {
		look()
	}
	for i, c := range p.Cmds {
		cmds = append(cmds, c)
		if p.N < 20000 || i == len(p.Cmds)-1 {
			look()
		}
	}
	o := runHistory(history{Cmds: cmds}, 0)
	o.NonTrivial = true
	return o
}

const hugeRule = "as above, but starting with 32 to 134 thousand entries and with few operations; always non-trivial"

// hugeProp is a property whose plans start with a number of entries that does not fit in 15, 16 or 17 bits.
func hugeProp[P any](p h.Prop[P]) h.Prop[P] {
	p.Name, p.Rule, p.Cases, p.Weight, p.Fixed, p.Shrink = "huge "+p.Name, hugeRule+" (of: "+p.Rule+")", 1, 0.2, nil, 5*time.Second
	p.Gen = gen.Huge(p.Gen)
	return p
}
