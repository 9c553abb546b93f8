package core

import (
	"fmt"
	"strings"
	"testing"

	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/protocol"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/inproc"
	"vertexverif/model"
	"vertexverif/resp"
)

type history struct {
	Cmds  []gen.Cmd
	Waits []h.Wait `json:",omitempty"` // time that passes in between
}

// runHistory executes the commands on a fresh store and on the model and
// compares every reply; dump>0 compares the whole store every dump steps and
// at the end.
func runHistory(p history, dump int) h.Outcome {
	return h.Warp(p.Waits, func() h.Outcome {
		d := db.NewDB(1)
		return runHistoryOn(func(a []string) (resp.Value, error) { return inproc.Exec(d, a) }, p, dump)
	})
}

// runHistoryOn runs the history wherever exec executes commands.
func runHistoryOn(exec func([]string) (resp.Value, error), p history, dump int) h.Outcome {
	m := model.New()
	if len(p.Cmds) > 200 && dump > 0 {
		dump = max(dump, len(p.Cmds)/20)
	}
	// keys holds what was used as a key, wide every short argument: nothing may
	// appear under those either
	keys, wide := map[string]bool{}, map[string]bool{}
	var o h.Outcome
	do := func(args []string) string {
		r, err := exec(args)
		if err != nil {
			return fmt.Sprintf("%s: %v", model.Cmd(args), err)
		}
		if err := m.Step(args, r); err != nil {
			return err.Error()
		}
		if k, ok := m.NeedsResync(); ok {
			r, err := exec([]string{"lrange", k, "0", "-1"})
			if err != nil {
				return err.Error()
			}
			if err := m.Resync(r); err != nil {
				return err.Error()
			}
		}
		if r.IsErr() {
			o.Labels = append(o.Labels, "error-reply")
		} else {
			o.Labels = append(o.Labels, strings.ToLower(args[0]))
		}
		return ""
	}
	check := func(at int, keys map[string]bool) string {
		for _, a := range model.DumpCommands(sorted(keys)) {
			if v := do(a); v != "" {
				return fmt.Sprintf("full read-back after command %d: %s", at, v)
			}
		}
		return ""
	}
	writes := 0
	for i, c := range p.Cmds {
		h.Tick()
		args := c.Args()
		for i, a := range args[1:] {
			if len(a) < 64 && len(wide) < 40 {
				wide[a] = true
			}
			if i == 0 && len(keys) < 20 {
				keys[a] = true
			}
		}
		// whether a command changed anything is only counted while that is cheap
		before := ""
		if i < 400 {
			before = m.Fingerprint()
		}
		if v := do(args); v != "" {
			return h.Fail("command %d: %s", i, v)
		}
		if i < 400 && m.Fingerprint() != before {
			writes++
		}
		if dump > 0 && i%dump == dump-1 {
			if v := check(i, keys); v != "" {
				return h.Fail("%s", v)
			}
		}
		o.Steps++
	}
	if v := check(len(p.Cmds), wide); v != "" {
		return h.Fail("%s", v)
	}
	o.NonTrivial = writes >= 2
	return o
}

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func seqGen(o gen.Opt, f func(gen.Opt, *rapid.T) gen.Cmd, max int) func(*rapid.T) history {
	return func(t *rapid.T) history {
		o := o.Swarm(t)
		p := history{Cmds: gen.Bursts(t, func(t *rapid.T) gen.Cmd { return f(o, t) }, 1, max)}
		p.Waits = h.GenWaits(t, len(p.Cmds))
		return p
	}
}

const histRule = "a random command history on a fresh store, now and then with time passing in between, every reply and a full read-back of the store compared with the reference model; non-trivial when at least two commands changed the state"

func TestC03(t *testing.T) {
	h.Plan(7)
	few := gen.Opt{Family: 1, Keys: gen.FewKeys, EmptyKey: true}
	many := gen.Opt{Family: 1, Keys: gen.Keys, EmptyKey: true}
	h.Check(t, "C03", h.Prop[history]{Name: "history", Rule: histRule, Cases: 2500, Gen: seqGen(few, gen.Opt.StringCmd, 40), Run: func(p history) h.Outcome { return runHistory(p, 8) }})
	h.Check(t, "C03", h.Prop[history]{Name: "manykeys", Rule: histRule, Cases: 800, Gen: seqGen(many, gen.Opt.StringCmd, 80), Run: func(p history) h.Outcome { return runHistory(p, 0) }})
	h.Check(t, "C03", h.Prop[bigStr]{Name: "growth", Rule: "a string grown by random appends to tens of kilobytes, then lengths and random sub-ranges compared with the model; non-trivial when longer than 1000 bytes", Cases: 60, Gen: genBigStr, Run: runBigStr})
	h.Check(t, "C03", h.Prop[history]{Name: "alike", Rule: alikeRule, Cases: 600, Gen: alikeGen(30, gen.Opt.StringCmd), Run: func(p history) h.Outcome { return runHistory(p, 4) }})
	lg := h.Prop[large]{Name: "large", Rule: largeRule, Cases: 60, Gen: genLarge("string"), Run: runLarge}
	h.Check(t, "C03", lg)
	h.Check(t, "C03", hugeProp(lg))
	h.Check(t, "C03", servedProp(1, gen.Opt.StringCmd))
	h.Check(t, "C03", aroundProp(1))
}

type bigStr struct {
	Chunk  gen.B
	Times  int
	Ranges [][2]int
}

func genBigStr(t *rapid.T) bigStr {
	return bigStr{Chunk: gen.Long(t, "chunk"), Times: rapid.IntRange(1, 24).Draw(t, "times"),
		Ranges: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) [2]int {
			return [2]int{rapid.IntRange(-110000, 110000).Draw(t, "l"), rapid.IntRange(-110000, 110000).Draw(t, "r")}
		}), 1, 20).Draw(t, "ranges")}
}

func runBigStr(p bigStr) h.Outcome {
	var c []gen.Cmd
	for i := 0; i < p.Times; i++ {
		c = append(c, gen.Cmd{"append", "big", p.Chunk})
	}
	for _, r := range p.Ranges {
		c = append(c, gen.Cmd{"getrange", "big", gen.B(fmt.Sprint(r[0])), gen.B(fmt.Sprint(r[1]))})
	}
	c = append(c, gen.Cmd{"strlen", "big"}, gen.Cmd{"get", "big"})
	o := runHistory(history{Cmds: c}, 0)
	o.NonTrivial = len(p.Chunk)*p.Times > 1000
	return o
}

func TestC04(t *testing.T) {
	h.Plan(6)
	one := gen.Opt{Family: 2, Keys: []gen.B{"n"}}
	few := gen.Opt{Family: 2, Keys: gen.FewKeys, EmptyKey: true}
	h.Check(t, "C04", h.Prop[history]{Name: "one", Rule: histRule, Cases: 2500, Gen: seqGen(one, gen.Opt.CounterCmd, 24), Run: func(p history) h.Outcome { return runHistory(p, 1) }})
	h.Check(t, "C04", h.Prop[history]{Name: "several", Rule: histRule, Cases: 800, Gen: seqGen(few, gen.Opt.CounterCmd, 50), Run: func(p history) h.Outcome { return runHistory(p, 5) }})
	h.Check(t, "C04", h.Prop[pair]{Name: "pairs", Rule: "every ordered pair of generated 64-bit integers as stored value and operand, both directions, result compared with unbounded arithmetic; non-trivial always", Cases: 6000, Gen: genPair, Run: runPair})
	h.Check(t, "C04", h.Prop[history]{Name: "alike", Rule: alikeRule, Cases: 600, Gen: alikeGen(30, gen.Opt.CounterCmd), Run: func(p history) h.Outcome { return runHistory(p, 4) }})
	h.Check(t, "C04", servedProp(2, gen.Opt.CounterCmd))
}

type pair struct{ Have, By gen.B }

func genPair(t *rapid.T) pair {
	return pair{Have: gen.IntText(t, "have"), By: gen.IntText(t, "by")}
}

func runPair(p pair) h.Outcome {
	c := []gen.Cmd{{"set", "n", p.Have}, {"incrby", "n", p.By}, {"get", "n"}, {"decrby", "n", p.By}, {"get", "n"},
		{"set", "n", p.Have}, {"decrby", "n", p.By}, {"get", "n"}, {"strlen", "n"}, {"append", "n", "0"}, {"incr", "n"}, {"decr", "n"}, {"decr", "n"}, {"get", "n"}}
	o := runHistory(history{Cmds: c}, 0)
	o.NonTrivial = true
	return o
}

func TestC05(t *testing.T) {
	h.Plan(6)
	one := gen.Opt{Family: 3, Keys: []gen.B{"l"}, Value: gen.Small}
	few := gen.Opt{Family: 3, Keys: gen.FewKeys, EmptyKey: true}
	h.Check(t, "C05", h.Prop[history]{Name: "one", Rule: histRule, Cases: 3000, Gen: seqGen(one, gen.Opt.ListCmd, 40), Run: func(p history) h.Outcome { return runHistory(p, 1) }})
	h.Check(t, "C05", h.Prop[history]{Name: "several", Rule: histRule, Cases: 800, Gen: seqGen(few, gen.Opt.ListCmd, 60), Run: func(p history) h.Outcome { return runHistory(p, 6) }})
	long := h.Prop[longList]{Name: "long", Rule: "a list of hundreds of elements, now and then thousands, over a tiny alphabet, then random operations anywhere in it, each followed by a full read-back; non-trivial when an operation changed it", Cases: 200, Gen: genLongList, Run: runLongList}
	h.Check(t, "C05", long)
	h.Check(t, "C05", hugeProp(long))
	h.Check(t, "C05", h.Prop[history]{Name: "alike", Rule: alikeRule, Cases: 600, Gen: alikeGen(30, gen.Opt.ListCmd), Run: func(p history) h.Outcome { return runHistory(p, 4) }})
	h.Check(t, "C05", servedProp(3, gen.Opt.ListCmd))
	h.Check(t, "C05", aroundProp(3))
}

type longList struct {
	N    int
	Mod  int
	Cmds []gen.Cmd
}

func genLongList(t *rapid.T) longList {
	top := gen.Sized(t, "size", 20000, 400, 400, 400, 400, 400, 400, 400, 3000)
	n := rapid.IntRange(20, top).Draw(t, "n")
	most := 14
	if top > 3000 {
		most = 3
	}
	if top > 20000 {
		n = top
	}
	mod := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 7, 7, 1000, 1 << 30}).Draw(t, "mod")
	v := func(t *rapid.T) gen.B { return gen.B(fmt.Sprint("v", rapid.IntRange(0, 7).Draw(t, "v"))) }
	ix := func(t *rapid.T, l string) gen.B { return gen.B(fmt.Sprint(rapid.IntRange(-n-2, n+2).Draw(t, l))) }
	return longList{N: n, Mod: mod, Cmds: gen.Seq(t, func(t *rapid.T) gen.Cmd {
		switch rapid.IntRange(0, 7).Draw(t, "op") {
		case 0:
			return gen.Cmd{"lrange", "l", ix(t, "a"), ix(t, "b")}
		case 1:
			return gen.Cmd{"lindex", "l", ix(t, "a")}
		case 2:
			return gen.Cmd{"lset", "l", ix(t, "a"), v(t)}
		case 3:
			return gen.Cmd{"lrem", "l", ix(t, "a"), v(t)}
		case 4:
			return gen.Cmd{"ltrim", "l", ix(t, "a"), ix(t, "b")}
		case 5:
			return gen.Cmd{"linsert", "l", rapid.SampledFrom([]gen.B{"before", "after"}).Draw(t, "w"), v(t), v(t)}
		case 6:
			return gen.Cmd{rapid.SampledFrom([]gen.B{"lpush", "rpush"}).Draw(t, "p"), "l", v(t), v(t)}
		default:
			return gen.Cmd{rapid.SampledFrom([]gen.B{"lpop", "rpop"}).Draw(t, "p"), "l"}
		}
	}, 1, most)}
}

func runLongList(p longList) h.Outcome {
	push := gen.Cmd{"rpush", "l"}
	for i := 0; i < p.N; i++ {
		push = append(push, gen.B(fmt.Sprint("v", i%p.Mod)))
	}
	var c []gen.Cmd
	c = append(c, push)
	for _, x := range p.Cmds {
		c = append(c, x, gen.Cmd{"lrange", "l", "0", "-1"}, gen.Cmd{"llen", "l"})
	}
	return runHistory(history{Cmds: c}, 0)
}

func TestC06(t *testing.T) {
	h.Plan(6)
	one := gen.Opt{Family: 4, Keys: []gen.B{"h"}, Value: gen.Small}
	few := gen.Opt{Family: 4, Keys: gen.FewKeys, EmptyKey: true}
	h.Check(t, "C06", h.Prop[history]{Name: "one", Rule: histRule, Cases: 3000, Gen: seqGen(one, gen.Opt.HashCmd, 40), Run: func(p history) h.Outcome { return runHistory(p, 1) }})
	h.Check(t, "C06", h.Prop[history]{Name: "several", Rule: histRule, Cases: 1000, Gen: seqGen(few, gen.Opt.HashCmd, 60), Run: func(p history) h.Outcome { return runHistory(p, 6) }})
	h.Check(t, "C06", h.Prop[history]{Name: "alike", Rule: alikeRule, Cases: 600, Gen: alikeGen(30, gen.Opt.HashCmd), Run: func(p history) h.Outcome { return runHistory(p, 4) }})
	lg := h.Prop[large]{Name: "large", Rule: largeRule, Cases: 60, Gen: genLarge("hash"), Run: runLarge}
	h.Check(t, "C06", lg)
	h.Check(t, "C06", hugeProp(lg))
	h.Check(t, "C06", servedProp(4, gen.Opt.HashCmd))
	h.Check(t, "C06", aroundProp(4))
}

func TestC07(t *testing.T) {
	h.Plan(6)
	few := gen.Opt{Family: 5, Keys: []gen.B{"s", "t", "u"}, Value: gen.Small}
	many := gen.Opt{Family: 5, Keys: gen.FewKeys, EmptyKey: true}
	h.Check(t, "C07", h.Prop[history]{Name: "few", Rule: histRule, Cases: 3000, Gen: seqGen(few, gen.Opt.SetCmd, 40), Run: func(p history) h.Outcome { return runHistory(p, 1) }})
	h.Check(t, "C07", h.Prop[history]{Name: "several", Rule: histRule, Cases: 1000, Gen: seqGen(many, gen.Opt.SetCmd, 60), Run: func(p history) h.Outcome { return runHistory(p, 6) }})
	h.Check(t, "C07", h.Prop[history]{Name: "alike", Rule: alikeRule, Cases: 600, Gen: alikeGen(30, gen.Opt.SetCmd), Run: func(p history) h.Outcome { return runHistory(p, 4) }})
	lg := h.Prop[large]{Name: "large", Rule: largeRule, Cases: 60, Gen: genLarge("set"), Run: runLarge}
	h.Check(t, "C07", lg)
	h.Check(t, "C07", hugeProp(lg))
	h.Check(t, "C07", servedProp(5, gen.Opt.SetCmd))
	h.Check(t, "C07", aroundProp(5))
}

// aroundProp is about reads before and after changes.
func aroundProp(family int) h.Prop[history] {
	return h.Prop[history]{Name: "around", Rule: "the same reads before and after one to three changes that mostly keep the sizes as they were (one element for another, removed and added again), over one to three keys; every reply and a read-back at the end against the model; non-trivial when at least two commands changed the state",
		Cases: 1000, Gen: func(t *rapid.T) history {
			p := history{Cmds: gen.Around(t, family, 12)}
			p.Waits = h.GenWaits(t, len(p.Cmds))
			return p
		}, Run: func(p history) h.Outcome { return runHistory(p, 0) }}
}

// ---- arguments that are not bulk strings ----

type kindPlan struct {
	Cmds []kindCmd
}

type kindCmd struct {
	Name gen.B
	Args []pv
}

func genKinds(t *rapid.T) kindPlan {
	o := gen.Opt{Keys: []gen.B{"a", "b"}, EmptyKey: true, Value: gen.Small}
	odd := rapid.IntRange(1, 4).Draw(t, "odd")
	return kindPlan{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) kindCmd {
		c := o.AnyCmd(t)
		k := kindCmd{Name: c[0]}
		for _, a := range c[1:] {
			k.Args = append(k.Args, pv{K: "$", S: a})
		}
		if len(k.Args) > 0 && rapid.IntRange(0, odd).Draw(t, "strange") == 0 {
			// mostly towards the end, so that much of the command is in order
			i := len(k.Args) - 1 - rapid.IntRange(0, len(k.Args)-1).Draw(t, "which")
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				s := strings.NewReplacer("\r", "", "\n", "").Replace(string(k.Args[i].S))
				k.Args[i] = pv{K: "+", S: gen.B(s)}
			case 1:
				k.Args[i] = pv{K: ":", I: gen.Int(t, "int")}
			case 2:
				k.Args[i] = pv{K: "*", A: []pv{k.Args[i]}}
			default:
				k.Args[i] = genPV(t, 1)
			}
		}
		return k
	}), 2, 30).Draw(t, "cmds")}
}

// runKinds: an error leaves everything as it was, whatever the arguments are.
func runKinds(p kindPlan) h.Outcome {
	var o h.Outcome
	d := db.NewDB(1)
	m := model.New()
	keys := []string{"", "a", "b"}
	dump := func() string {
		for _, a := range model.DumpCommands(keys) {
			r, err := inproc.Exec(d, a)
			if err == nil {
				err = m.Step(a, r)
			}
			if err != nil {
				return err.Error()
			}
		}
		return ""
	}
	for i, c := range p.Cmds {
		var objs []protocol.RedisObject
		args := []string{string(c.Name)}
		bulk, text := true, true
		for _, a := range c.Args {
			v := a.value()
			objs = append(objs, build(v))
			args = append(args, v.Str)
			bulk = bulk && v.Kind == '$' && !v.Null
			text = text && (v.Kind == '$' && !v.Null || v.Kind == '+')
		}
		r, err := inproc.ExecObjs(d, string(c.Name), objs)
		if err != nil {
			return h.Fail("command %d, %s: %v", i, model.Cmd(args), err)
		}
		switch {
		case bulk || text && !r.IsErr():
			if err := m.Step(args, r); err != nil {
				return h.Fail("command %d: %v", i, err)
			}
			if k, ok := m.NeedsResync(); ok {
				r, err := inproc.Exec(d, []string{"lrange", k, "0", "-1"})
				if err == nil {
					err = m.Resync(r)
				}
				if err != nil {
					return h.Fail("command %d: %v", i, err)
				}
			}
		case r.IsErr():
			o.Labels = append(o.Labels, "refused")
			o.NonTrivial = true
		case reading[strings.ToLower(args[0])]:
			o.Labels = append(o.Labels, "read")
		default:
			// what it means is not specified
			o.Labels = append(o.Labels, "accepted")
			return o
		}
		if w := dump(); w != "" {
			return h.Fail("read-back after command %d, %s (arguments of kinds %s, reply %s): %s", i, model.Cmd(args), kindsOf(c.Args), r, w)
		}
		o.Steps++
	}
	return o
}

func kindsOf(ps []pv) string {
	s := ""
	for _, p := range ps {
		s += p.K
	}
	return s
}

var reading = func() map[string]bool {
	out := map[string]bool{}
	for _, n := range strings.Fields("get mget exists strlen getrange lindex llen lrange hget hexists hmget hkeys hvals hgetall hstrlen hlen scard sismember smembers srandmember sdiff sinter sunion") {
		out[n] = true
	}
	return out
}()

func TestC08(t *testing.T) {
	h.Plan(5)
	o := gen.Opt{Keys: []gen.B{"a", "b"}, EmptyKey: true, Value: gen.Small}
	f := func(o gen.Opt, t *rapid.T) gen.Cmd {
		c := o.AnyCmd(t)
		if rapid.IntRange(0, 4).Draw(t, "bad") == 0 {
			c = o.Malformed(t, c)
		}
		return c
	}
	h.Check(t, "C08", h.Prop[history]{Name: "mixed", Rule: histRule, Cases: 1800, Gen: seqGen(o, f, 40), Run: func(p history) h.Outcome { return runHistory(p, 1) }})
	o2 := gen.Opt{Keys: gen.FewKeys, EmptyKey: true}
	h.Check(t, "C08", h.Prop[history]{Name: "wide", Rule: histRule, Cases: 500, Gen: seqGen(o2, gen.Opt.AnyCmd, 80), Run: func(p history) h.Outcome { return runHistory(p, 4) }})
	h.Check(t, "C08", h.Prop[history]{Name: "alike", Rule: alikeRule, Cases: 600, Gen: alikeGen(30, gen.Opt.AnyCmd), Run: func(p history) h.Outcome { return runHistory(p, 4) }})
	h.Check(t, "C08", servedProp(0, gen.Opt.AnyCmd))
	h.Check(t, "C08", h.Prop[kindPlan]{Name: "kinds", Cases: 1500, Gen: genKinds, Run: runKinds, Rule: "histories in which arguments are now and then no bulk strings (integers, nulls, arrays, errors, simple strings): a command that is refused, and every read, leaves the whole store as it was; non-trivial when a command with such an argument was refused"})
}
