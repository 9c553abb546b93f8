package core

import (
	"strings"

	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/inproc"
	"vertexverif/resp"
)

// served is a history sent to a whole server over TCP, each command over one
// of a few connections once the one before is answered.
type served struct {
	Conns int
	Via   []int // connection of each command, repeated
	Dump  int
	Cmds  []gen.Cmd
}

const servedRule = "random command histories (some arguments malformed, repeated commands, upper case names) sent over TCP to a whole server, each over one of up to three connections once the previous is answered; every reply and full read-backs against the model; non-trivial when at least two commands changed the state"

func servedProp(family int, f func(o gen.Opt, t *rapid.T) gen.Cmd) h.Prop[served] {
	return h.Prop[served]{Name: "served", Rule: servedRule, Cases: 160, Journal: true, Gen: func(t *rapid.T) served {
		p := served{Conns: rapid.IntRange(1, 3).Draw(t, "conns"), Via: rapid.SliceOfN(rapid.IntRange(0, 2), 1, 7).Draw(t, "via"), Dump: rapid.SampledFrom([]int{1, 5, 0}).Draw(t, "dump")}
		o := gen.Opt{Keys: rapid.SampledFrom([][]gen.B{{"k"}, {"a", "b"}, gen.FewKeys}).Draw(t, "keys"), EmptyKey: true}
		if rapid.Bool().Draw(t, "small") {
			o.Value = gen.Small
		}
		if rapid.IntRange(0, 3).Draw(t, "alike") == 0 {
			pool := gen.Pool(t)
			o = gen.Opt{Keys: pool, Value: gen.Of(pool)}
		}
		if rapid.Bool().Draw(t, "some") {
			o.Family = family
			o = o.Swarm(t)
		}
		var past []gen.Cmd
		p.Cmds = gen.Bursts(t, func(t *rapid.T) gen.Cmd {
			var c gen.Cmd
			switch k := rapid.IntRange(0, 9).Draw(t, "how"); {
			case k < 3 && len(past) > 0:
				// the same command once more
				c = past[rapid.IntRange(0, len(past)-1).Draw(t, "past")%len(past)]
			case k == 3:
				c = o.Malformed(t, f(o, t))
			case k == 4:
				c = append(gen.Cmd(nil), f(o, t)...)
				c[0] = gen.B(strings.ToUpper(string(c[0])))
			default:
				c = f(o, t)
			}
			past = append(past, c)
			return c
		}, 1, 40)
		return p
	}, Run: func(p served) h.Outcome {
		s, err := inproc.Serve(p.Conns)
		if err != nil {
			return h.Fail("the server does not start: %v", err)
		}
		defer s.Close()
		n := 0
		return runHistoryOn(func(args []string) (resp.Value, error) {
			n++
			return s.Exec(p.Via[n%len(p.Via)], args)
		}, history{Cmds: p.Cmds}, p.Dump)
	}}
}
