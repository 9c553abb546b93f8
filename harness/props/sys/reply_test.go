package sys

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/model"
	"vertexverif/resp"
)

// runMode varies how the server is set up.
type setup struct {
	DB, Replica, Log bool
}

func genSetup(t *rapid.T) setup {
	return setup{DB: rapid.Bool().Draw(t, "db"), Replica: rapid.IntRange(0, 3).Draw(t, "replica") == 0, Log: rapid.IntRange(0, 3).Draw(t, "log") == 0}
}

func (s setup) start() (*srv, error) {
	o := opts{replica: s.Replica, log: s.Log}
	if s.DB {
		o.db = "database.vpf"
	}
	return start(o)
}

// marker is a request whose reply nothing else produces; sent right behind a
// request it shows a missing or an additional reply at once.
type marker struct{ key, val string }

func newMarker(c *client, avoid map[string]bool) (marker, error) {
	mk := marker{"the-marker", "marker value \x01\x02\x03"}
	v, err := c.do([]string{"set", mk.key, mk.val})
	if err != nil {
		return mk, err
	}
	if v.Kind != '+' || v.Str != "OK" {
		return mk, fmt.Errorf("set: reply %s", v)
	}
	return mk, nil
}

// ask sends one request and gets its one reply.
func (mk marker) ask(c *client, req resp.Value) (resp.Value, error) {
	b := append(req.Encode(), resp.Bulks([]string{"get", mk.key}).Encode()...)
	if err := c.send(b); err != nil {
		return resp.Value{}, err
	}
	v, err := c.recv()
	if err != nil {
		return v, err
	}
	if v.Kind == '$' && v.Str == mk.val {
		return v, fmt.Errorf("no reply came before that to the next request")
	}
	w, err := c.recv()
	if err != nil {
		return v, fmt.Errorf("the reply was %s, but the next request got none: %w", v, err)
	}
	if w.Kind != '$' || w.Str != mk.val {
		return v, fmt.Errorf("the reply was %s, but then came %s instead of the next request's reply", v, w)
	}
	return v, nil
}

// ---- well-formed requests, right and wrong ones, against the model ----

type replyPlan struct {
	Setup setup
	Cmds  []gen.Cmd
	Conns int // connections used in turn
}

func genReplyPlan(t *rapid.T) replyPlan {
	o := gen.Opt{Keys: gen.Keys, EmptyKey: true}
	if rapid.IntRange(0, 3).Draw(t, "alike") == 0 {
		pool := gen.Pool(t)
		o = gen.Opt{Keys: pool, Value: gen.Of(pool)}
	}
	o = o.Swarm(t)
	f := func(t *rapid.T) gen.Cmd {
		c := o.AnyCmd(t)
		if rapid.IntRange(0, 2).Draw(t, "bad") == 0 {
			c = o.Malformed(t, c)
		}
		return c
	}
	return replyPlan{Setup: genSetup(t), Cmds: gen.Bursts(t, f, 1, 80), Conns: rapid.IntRange(1, 3).Draw(t, "conns")}
}

func runReplyPlan(p replyPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Cmds)}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	var conns []*client
	for i := 0; i < p.Conns; i++ {
		c, err := s.dial()
		if err != nil {
			return h.Fail("%v", err)
		}
		defer c.close()
		conns = append(conns, c)
	}
	m := model.New()
	mk, err := newMarker(conns[0], nil)
	if err != nil {
		return h.Fail("%v", err)
	}
	m.Str[mk.key] = mk.val
	used := map[string]bool{}
	errs := map[string]bool{}
	for i, cmd := range p.Cmds {
		args := cmd.Args()
		for _, a := range args[min(1, len(args)):] {
			if len(a) < 64 && len(used) < 30 {
				used[a] = true
			}
		}
		c := conns[i%len(conns)]
		v, err := mk.ask(c, resp.Bulks(args))
		if err != nil {
			return h.Fail("request %d, %s: %v", i, model.Cmd(args), err)
		}
		if err := m.Step(args, v); err != nil {
			return h.Fail("request %d: %v", i, err)
		}
		if k, ok := m.NeedsResync(); ok {
			v, err := c.do([]string{"lrange", k, "0", "-1"})
			if err == nil {
				err = m.Resync(v)
			}
			if err != nil {
				return h.Fail("request %d: %v", i, err)
			}
		}
		if v.IsErr() {
			l := v.Str
			if len(l) > 40 {
				l = l[:40]
			}
			errs[l] = true
		}
	}
	if err := conns[0].dump(m, sortedKeys(used)); err != nil {
		return h.Fail("read-back at the end: %v", err)
	}
	if err := s.died(); err != nil {
		return h.Fail("%v", err)
	}
	for e := range errs {
		o.Labels = append(o.Labels, e)
	}
	o.NonTrivial = len(p.Cmds) >= 2
	return o
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- anything at all that is RESP ----

// node is a generated RESP value.
type node struct {
	Kind string // + - : $ * and, for nulls, $- and *-
	Str  h.Bytes
	Int  int64
	Sub  []node
}

func (n node) value() resp.Value {
	switch n.Kind {
	case "+":
		return resp.Simple(string(n.Str))
	case "-":
		return resp.Error(string(n.Str))
	case ":":
		return resp.Int(n.Int)
	case "$":
		return resp.Bulk(string(n.Str))
	case "$-":
		return resp.NullBulk()
	case "*-":
		return resp.NullArray()
	}
	v := resp.Value{Kind: '*'}
	for _, x := range n.Sub {
		v.Arr = append(v.Arr, x.value())
	}
	return v
}

func noBreaks(s h.Bytes) h.Bytes {
	return h.Bytes(strings.NewReplacer("\r", "", "\n", "").Replace(string(s)))
}

func genNode(t *rapid.T, depth int) node {
	kinds := []string{"$", "$", "$", "+", "-", ":", "$-", "*-", "*"}
	k := rapid.SampledFrom(kinds).Draw(t, "kind")
	if k == "*" && depth <= 0 {
		k = ":"
	}
	n := node{Kind: k}
	switch k {
	case "$":
		n.Str = gen.Small(t, "s")
	case "+", "-":
		n.Str = noBreaks(gen.Small(t, "s"))
	case ":":
		n.Int = gen.Int(t, "i")
	case "*":
		k := rapid.IntRange(0, 3).Draw(t, "n")
		for i := 0; i < k; i++ {
			n.Sub = append(n.Sub, genNode(t, depth-1))
		}
	}
	return n
}

type oddPlan struct {
	Setup setup
	Reqs  []node
}

// genOddRequest draws an arbitrary value, or a command with odd parts.
func genOddRequest(t *rapid.T) node {
	o := gen.Opt{Keys: []gen.B{"a", "b", ""}, EmptyKey: true}
	switch rapid.IntRange(0, 5).Draw(t, "how") {
	case 0:
		return genNode(t, 2)
	case 1: // a name with odd arguments
		n := node{Kind: "*", Sub: []node{{Kind: "$", Str: h.Bytes(rapid.SampledFrom(model.All).Draw(t, "name"))}}}
		k := rapid.IntRange(0, 5).Draw(t, "args")
		for i := 0; i < k; i++ {
			n.Sub = append(n.Sub, genNode(t, 1))
		}
		return n
	default: // a command some of whose elements are of another kind
		n := node{Kind: "*"}
		for _, a := range o.AnyCmd(t) {
			n.Sub = append(n.Sub, node{Kind: "$", Str: a})
		}
		k := rapid.IntRange(1, 2).Draw(t, "odd")
		for i := 0; i < k; i++ {
			j := rapid.IntRange(0, len(n.Sub)-1).Draw(t, "which")
			if rapid.Bool().Draw(t, "same") {
				n.Sub[j] = node{Kind: "+", Str: noBreaks(n.Sub[j].Str)}
			} else {
				n.Sub[j] = genNode(t, 1)
			}
		}
		return n
	}
}

func genOddPlan(t *rapid.T) oddPlan {
	return oddPlan{Setup: genSetup(t), Reqs: rapid.SliceOfN(rapid.Custom(genOddRequest), 1, 40).Draw(t, "reqs")}
}

// promised is the kind of reply a command promises, errors apart.
func promised(name string) string {
	switch name {
	case "exists", "strlen", "append", "incr", "incrby", "decr", "decrby", "linsert", "llen", "lpush", "rpush", "lrem",
		"hset", "hexists", "hdel", "hlen", "hstrlen", "sadd", "srem", "sismember", "scard":
		return ":"
	case "set", "mset", "lset", "ltrim":
		return "+"
	case "get", "getrange", "lpop", "rpop", "lindex", "hget":
		return "$"
	case "spop", "srandmember":
		return "$*"
	}
	return "*"
}

func runOddPlan(p oddPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Reqs)}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	other, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer other.close()
	mk, err := newMarker(c, nil)
	if err != nil {
		return h.Fail("%v", err)
	}
	m := model.New()
	for i, n := range p.Reqs {
		req := n.value()
		v, err := mk.ask(c, req)
		if err != nil {
			return h.Fail("request %d, %s: %v", i, req, err)
		}
		allBulk := req.Kind == '*' && len(req.Arr) > 0
		for _, x := range req.Arr {
			allBulk = allBulk && x.Kind == '$' && !x.Null
		}
		switch {
		case req.Kind != '*' || len(req.Arr) == 0 || strings.IndexByte("+$", req.Arr[0].Kind) < 0:
			o.Labels = append(o.Labels, "not-a-command")
			if !v.IsErr() {
				return h.Fail("request %d, %s, is not a command, but the reply is %s", i, req, v)
			}
		case !model.Known(req.Arr[0].Str):
			o.Labels = append(o.Labels, "unknown-name")
			if v.Str != model.ENoCmd || !v.IsErr() {
				return h.Fail("request %d, %s: unknown command, but the reply is %s", i, req, v)
			}
		case !v.IsErr():
			o.Labels = append(o.Labels, "odd-accepted")
			if strings.IndexByte(promised(strings.ToLower(req.Arr[0].Str)), v.Kind) < 0 {
				return h.Fail("request %d, %s: the reply %s is not of the kind the command promises", i, req, v)
			}
		default:
			o.Labels = append(o.Labels, "odd-refused")
		}
		// another connection and another key keep working
		if i%5 == 4 {
			for _, cmd := range [][]string{{"rpush", "other-list", fmt.Sprint(i)}, {"set", "other", fmt.Sprint(i)}, {"hset", "other-hash", "f", fmt.Sprint(i)}, {"sadd", "other-set", fmt.Sprint(i)}, {"lrange", "other-list", "0", "-1"}} {
				if err := other.step(m, cmd); err != nil {
					return h.Fail("after request %d (%s), on another connection and other keys: %v", i, req, err)
				}
			}
		}
	}
	if err := other.dump(m, []string{"other", "other-list", "other-hash", "other-set"}); err != nil {
		return h.Fail("after all requests, on other keys: %v", err)
	}
	o.NonTrivial = len(p.Reqs) >= 2
	return o
}

// ---- big requests and replies ----

type bigPlan struct {
	Setup setup
	Sizes []int
	Items int
	Depth int
}

func genBigPlan(t *rapid.T) bigPlan {
	return bigPlan{Setup: genSetup(t), Sizes: rapid.SliceOfN(gen.SizedG(8000000, 4093, 4096, 4099, 65535, 65536, 300000, 1<<20, 3000000), 1, 4).Draw(t, "sizes"),
		Items: gen.Sized(t, "items", 30000, 1, 100, 1000, 5000), Depth: gen.Sized(t, "depth", 5000, 1, 10, 100, 1000)}
}

func runBigPlan(p bigPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Sizes) + 6, NonTrivial: true}
	s, err := p.Setup.start()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer s.end()
	c, err := s.dial()
	if err != nil {
		return h.Fail("%v", err)
	}
	defer c.close()
	m := model.New()
	mk, err := newMarker(c, nil)
	if err != nil {
		return h.Fail("%v", err)
	}
	for i, n := range p.Sizes {
		val := strings.Repeat("0123456789abcd\r\n", n/16+1)[:n]
		k := fmt.Sprint("big", i)
		for _, cmd := range [][]string{{"set", k, val}, {"get", k}, {"append", k, val}, {"strlen", k}, {"rpush", "l", val}, {"lindex", "l", "-1"}, {"set", val, "x"}, {"get", val}} {
			if err := c.step(m, cmd); err != nil {
				return h.Fail("%d bytes: %v", n, err)
			}
		}
		// an unknown name that is very long
		v, err := mk.ask(c, resp.Bulks([]string{val, "x"}))
		if err != nil {
			return h.Fail("an unknown name of %d bytes: %v", n, err)
		}
		if !v.IsErr() || v.Str != model.ENoCmd {
			return h.Fail("an unknown name of %d bytes: reply %s", n, v)
		}
	}
	many := []string{"rpush", "many"}
	set := []string{"sadd", "many"}
	hash := []string{"hset", "many"}
	mset := []string{"mset"}
	mget := []string{"mget"}
	for i := 0; i < p.Items; i++ {
		x := fmt.Sprint("item", i)
		many, set, hash, mset, mget = append(many, x), append(set, x), append(hash, x, x), append(mset, x, x), append(mget, x)
	}
	for _, cmd := range [][]string{many, set, hash, mset, mget, {"lrange", "many", "0", "-1"}, {"smembers", "many"}, {"hgetall", "many"}, {"llen", "many"}} {
		if err := c.step(m, cmd); err != nil {
			return h.Fail("%d items: %s", p.Items, h.Short(err.Error(), 600))
		}
	}
	deep := resp.Bulk("get")
	for i := 0; i < p.Depth; i++ {
		deep = resp.Array(deep)
	}
	v, err := mk.ask(c, resp.Array(resp.Bulk("get"), deep))
	if err != nil || !v.IsErr() && v.Kind != '$' {
		return h.Fail("an argument nested %d deep: %s, %v", p.Depth, v, err)
	}
	if v, err = mk.ask(c, deep); err != nil || p.Depth > 1 && !v.IsErr() {
		return h.Fail("a request nested %d deep: %s, %v", p.Depth, v, err)
	}
	return o
}

func TestC09(t *testing.T) {
	h.Plan(4)
	h.Check(t, "C09", h.Prop[bigPlan]{
		Name:  "big",
		Rule:  "values, names and keys of 4 KB to 3 MB, up to 5000 arguments and elements, requests nested up to 1000 deep, against the model; all are non-trivial",
		Cases: 4, Weight: 0.6, Gen: genBigPlan, Run: runBigPlan,
	})
	h.Check(t, "C09", h.Prop[replyPlan]{
		Name:  "requests",
		Rule:  "1 to 80 commands of all families in any letter case, a third of them damaged (wrong arity, unknown name), over TCP to a real server; each followed by a marker request that shows a missing or an additional reply; replies and final state against the model; non-trivial with at least two requests",
		Cases: 300, Weight: 2, Gen: genReplyPlan, Run: runReplyPlan,
		Fixed: []replyPlan{{Conns: 1, Setup: setup{DB: true}, Cmds: []gen.Cmd{{"mset"}, {"sadd", "", "x"}, {"sadd", "a", "x"}, {"srem", "a", "x"}, {"spop", "a"}, {"srandmember", "a"}, {"g\r\net", "x"}, {""}, {"hset", "", "f", "v"}}}},
	})
	h.Check(t, "C09", h.Prop[oddPlan]{
		Name:  "odd",
		Rule:  "1 to 40 arbitrary RESP values as requests (nulls, integers, errors, simple strings, nested and empty arrays, also in place of a command's name and arguments), each followed by a marker request, beside model-checked commands on another connection; non-trivial with at least two",
		Cases: 300, Weight: 2, Gen: genOddPlan, Run: runOddPlan,
		Fixed: []oddPlan{{Reqs: []node{{Kind: ":", Int: 5}, {Kind: "+", Str: "PING"}, {Kind: "*-"}, {Kind: "*"}, {Kind: "$-"}, {Kind: "-", Str: "x"}, {Kind: "*", Sub: []node{{Kind: "$-"}}}}}},
	})
}
