// Package gen holds the generators of keys, values, indexes and commands.
package gen

import (
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"vertexverif/dict"
	"vertexverif/h"
)

// B is short for the plan byte string.
type B = h.Bytes

// Keys is a small pool, so that histories hit the same keys again.
var Keys = []B{"a", "b", "c", "k1", "global", "anonymous", "\x00\xff key\r\n", "key with spaces", "日本"}

// FewKeys makes collisions even more likely.
var FewKeys = []B{"a", "b", "c", "\xfe\r\n"}

// Values that have been, or could be, special somewhere.
var Special = []B{"", "dummy string", "0", "-0", "1", "-1", "00", "+1", " 1", "1 ", "1e3", "0x10", "9223372036854775807", "-9223372036854775808",
	"9223372036854775808", "-9223372036854775809", "9223372036854775806", "-9223372036854775807", "\r\n", "\n", "\r", "$-1\r\n", "*-1\r\n", "$3\r\nfoo\r\n", "+OK\r\n", "\x00", "\xff\xfe", "nil", "(nil)", "true", "anonymous", "global",
	"a", "b", "c", "d"}

// Word draws a string that is new in the code under test (see package dict), in
// any letter case and now and then with something around it.
func Word(t *rapid.T, label string) B {
	w := rapid.SampledFrom(dict.Strings()).Draw(t, label+"-word")
	switch rapid.IntRange(0, 9).Draw(t, label+"-how") {
	case 0, 1, 2:
		return flip(t, w)
	case 3:
		w += rapid.SampledFrom([]string{"x", " ", "\r\n", "0", w}).Draw(t, "after")
	case 4:
		w = rapid.SampledFrom([]string{"x", " ", "\r\n", "0", "é"}).Draw(t, "before") + w
	case 5:
		w = "x" + w + "y"
	}
	return B(w)
}

// Wordy tells whether to draw a Word here.
func Wordy(t *rapid.T, label string) bool {
	return len(dict.Strings()) > 0 && rapid.IntRange(0, 5).Draw(t, label+"-wordy") == 0
}

// Sized draws one of the usual sizes or, if the code under test has new numbers
// (see package dict), one around those.
func Sized(t *rapid.T, label string, most int, usual ...int) int {
	if huge && (label == "fill" || label == "size") {
		return HugeSize(t)
	}
	if d := dict.Sizes(most); len(d) > 0 && rapid.IntRange(0, 2).Draw(t, label+"-dict") > 0 {
		n := rapid.SampledFrom(d).Draw(t, label+"-new")
		return min(most, rapid.SampledFrom([]int{n, n, n + 1, n + 1, n - 1, n + 2, n + n/8 + 1, 2 * n, 2*n + 1, 3*n + 2}).Draw(t, label))
	}
	return rapid.SampledFrom(usual).Draw(t, label)
}

// huge makes Sized draw huge sizes for what a plan starts with.
var huge bool

// Huge is a generator that makes what another one does, but huge.
func Huge[P any](f func(*rapid.T) P) func(*rapid.T) P {
	return func(t *rapid.T) P {
		huge = true
		defer func() { huge = false }()
		return f(t)
	}
}

// HugeSize draws a size that does not fit in 15, 16 or 17 bits, or just so.
func HugeSize(t *rapid.T) int {
	return rapid.SampledFrom([]int{1 << 15, 1 << 16, 1 << 16, 1 << 16, 1 << 17}).Draw(t, "huge") + rapid.SampledFrom([]int{-1, 0, 1, 2, 40, 3000}).Draw(t, "more")
}

// words that mean something around here.
var words = []string{"OK", "PONG", "PING", "QUEUED", "ERR", "ERR unknown command", "nil", "null", "true", "false", "set", "get", "mset", "before", "after", "global", "anonymous", "yes", "no", "inf", "-inf", "nan"}

// flip changes the letter case of some letters, or none.
func flip(t *rapid.T, w string) B {
	b := []byte(w)
	how := rapid.IntRange(0, 3).Draw(t, "flip")
	for i := range b {
		if c := b[i] | 0x20; c >= 'a' && c <= 'z' {
			switch {
			case how == 1:
				b[i] &^= 0x20
			case how == 2:
				b[i] |= 0x20
			case how == 3 && rapid.Bool().Draw(t, "letter"):
				b[i] ^= 0x20
			}
		}
	}
	return B(b)
}

// Value draws a byte string.
func Value(t *rapid.T, label string) B {
	if Wordy(t, label) {
		return Word(t, label)
	}
	switch rapid.IntRange(0, 10).Draw(t, label+"-kind") {
	case 10:
		return flip(t, rapid.SampledFrom(words).Draw(t, label))
	case 0, 1, 2:
		return rapid.SampledFrom([]B{"a", "b", "c", "d"}).Draw(t, label)
	case 3, 4, 5:
		return rapid.SampledFrom(Special).Draw(t, label)
	case 6:
		return B(strconv.FormatInt(Int(t, label), 10))
	case 7:
		return B(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, label))
	case 8:
		return B(rapid.StringN(0, 8, -1).Draw(t, label))
	default:
		return Long(t, label)
	}
}

// Long draws a longer string, around buffer sizes now and then.
func Long(t *rapid.T, label string) B {
	n := Sized(t, label+"-len", 1<<17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4094, 4095, 4096, 4097, 4100)
	c := rapid.SampledFrom([]string{"x", "ab", "\r\n", "\x00\xff", "7"}).Draw(t, label+"-fill")
	return B(strings.Repeat(c, n/len(c)+1)[:n])
}

// Small draws from a handful of short values, for many collisions.
func Small(t *rapid.T, label string) B {
	if Wordy(t, label) {
		return Word(t, label)
	}
	if rapid.IntRange(0, 5).Draw(t, label+"-kind") == 0 {
		return rapid.SampledFrom(Special).Draw(t, label)
	}
	return rapid.SampledFrom([]B{"a", "b", "c", "d", "e", "dummy string", ""}).Draw(t, label)
}

// Int draws a 64-bit integer with a taste for the boundaries.
func Int(t *rapid.T, label string) int64 {
	if d := dict.Ints(); len(d) > 0 && rapid.IntRange(0, 5).Draw(t, label+"-dict") == 0 {
		n := rapid.SampledFrom(d).Draw(t, label+"-new")
		return rapid.SampledFrom([]int64{n, n, n + 1, n - 1, -n, -n - 1, -n + 1, 2 * n}).Draw(t, label)
	}
	switch rapid.IntRange(0, 4).Draw(t, label+"-ikind") {
	case 0, 1:
		return int64(rapid.IntRange(-9, 9).Draw(t, label))
	case 2:
		return rapid.SampledFrom([]int64{9223372036854775807, -9223372036854775808, 9223372036854775806, -9223372036854775807, 4611686018427387904, -4611686018427387904, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 1 << 53, 1<<53 + 1}).Draw(t, label)
	case 3:
		return rapid.Int64Range(-1000, 1000).Draw(t, label)
	default:
		return rapid.Int64().Draw(t, label)
	}
}

// IntText is the text of an integer, in its canonical form mostly, or something
// that is nearly one.
func IntText(t *rapid.T, label string) B {
	if rapid.IntRange(0, 11).Draw(t, label+"-odd") == 0 {
		return rapid.SampledFrom([]B{"", " 1", "1.0", "abc", "+3", "-0", "007", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "0x1", "1_000", "\r\n"}).Draw(t, label)
	}
	return B(strconv.FormatInt(Int(t, label), 10))
}

// Idx is the text of a list index or count, mostly near small lists.
func Idx(t *rapid.T, label string) B {
	switch rapid.IntRange(0, 14).Draw(t, label+"-odd") {
	case 0:
		return IntText(t, label)
	case 1:
		return rapid.SampledFrom([]B{"9223372036854775807", "-9223372036854775808", "-9223372036854775807", "2147483648", "-2147483649"}).Draw(t, label)
	default:
		return B(strconv.Itoa(rapid.IntRange(-8, 8).Draw(t, label)))
	}
}

func many(t *rapid.T, label string, f func(*rapid.T, string) B, min, max int) []B {
	n := rapid.IntRange(min, max).Draw(t, label+"-n")
	var out []B
	for i := 0; i < n; i++ {
		out = append(out, f(t, label))
	}
	return out
}

// Cmd is one command of a plan.
type Cmd []B

// Args converts for execution.
func (c Cmd) Args() []string { return h.Strs(c) }

// Opt tunes the command generators.
type Opt struct {
	Keys  []B
	Value func(*rapid.T, string) B
	// InRangeTrim keeps LTRIM to ranges whose outcome is always specified.
	InRangeTrim bool
	// EmptyKey also uses the empty key name now and then.
	EmptyKey bool
	// Family keeps to one family of commands (1 to 5).
	Family int
	// Only keeps to these commands.
	Only []string
}

// names draws one of the commands.
func (o Opt) name(t *rapid.T, label string, all []string) string {
	var some []string
	for _, n := range all {
		for _, x := range o.Only {
			if x == n {
				some = append(some, n)
			}
		}
	}
	if len(some) == 0 {
		some = all
	}
	return rapid.SampledFrom(some).Draw(t, label)
}

var growing = []string{"", "set", "set", "rpush", "hset", "sadd"}

var others = [][]string{nil,
	{"get", "append", "mset", "mget", "exists", "strlen", "getrange", "incrby", "incr"},
	{"incr", "decr", "incrby", "decrby", "get", "append", "mset"},
	{"lpush", "lpop", "rpop", "llen", "lrange", "lindex", "lset", "lrem", "ltrim", "linsert"},
	{"hget", "hexists", "hdel", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen"},
	{"srem", "sismember", "smembers", "scard", "spop", "srandmember", "sdiff", "sinter", "sunion"}}

// Swarm narrows the choice for a whole history: to one family and few keys, or
// to very few commands, so that the same things happen again and again. Now and
// then everything remains.
func (o Opt) Swarm(t *rapid.T) Opt {
	how := rapid.IntRange(0, 4).Draw(t, "swarm")
	if how < 2 {
		return o
	}
	if o.Family == 0 {
		o.Family = rapid.IntRange(1, 5).Draw(t, "one family")
	}
	o.Keys = o.Keys[:rapid.IntRange(1, min(3, len(o.Keys))).Draw(t, "few keys")]
	if how > 2 {
		o.Only = append([]string{growing[o.Family]}, rapid.SliceOfN(rapid.SampledFrom(others[o.Family]), 1, 3).Draw(t, "few commands")...)
	}
	return o
}

func (o Opt) key(t *rapid.T) B {
	if o.EmptyKey && rapid.IntRange(0, 24).Draw(t, "ek") == 0 {
		return ""
	}
	return rapid.SampledFrom(o.Keys).Draw(t, "key")
}

func (o Opt) keys(t *rapid.T, min, max int) []B {
	return many(t, "keys", func(t *rapid.T, _ string) B { return o.key(t) }, min, max)
}

func (o Opt) val(t *rapid.T) B {
	if o.Value != nil {
		return o.Value(t, "val")
	}
	return Value(t, "val")
}

func (o Opt) vals(t *rapid.T, min, max int) []B {
	return many(t, "vals", func(t *rapid.T, _ string) B { return o.val(t) }, min, max)
}

// casing varies the letter case of a command name.
func casing(t *rapid.T, name string) B {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return B(strings.ToUpper(name))
	case 1:
		b := []byte(name)
		for i := range b {
			if i%2 == 0 {
				b[i] = b[i] - 'a' + 'A'
			}
		}
		return B(b)
	}
	return B(name)
}

func cmd(t *rapid.T, name string, args ...B) Cmd {
	return append(Cmd{casing(t, name)}, args...)
}

// StringCmd draws a string command.
func (o Opt) StringCmd(t *rapid.T) Cmd {
	k := o.name(t, "scmd", []string{"set", "set", "get", "append", "append", "mset", "mget", "exists", "strlen", "getrange", "getrange", "incrby", "incr", "set-int"})
	switch k {
	case "set":
		return cmd(t, "set", o.key(t), o.val(t))
	case "set-int":
		return cmd(t, "set", o.key(t), IntText(t, "ival"))
	case "get", "strlen", "incr", "decr":
		return cmd(t, k, o.key(t))
	case "append":
		return cmd(t, k, o.key(t), o.val(t))
	case "incrby", "decrby":
		return cmd(t, k, o.key(t), IntText(t, "by"))
	case "mset":
		c := cmd(t, k)
		n := rapid.IntRange(1, 4).Draw(t, "pairs")
		v := o.val(t)
		for i := 0; i < n; i++ {
			// the same value again now and then
			if i > 0 && rapid.IntRange(0, 2).Draw(t, "fresh") > 0 {
				v = o.val(t)
			}
			c = append(c, o.key(t), v)
		}
		return c
	case "mget", "exists":
		return cmd(t, k, o.keys(t, 1, 5)...)
	}
	return cmd(t, "getrange", o.key(t), Idx(t, "start"), Idx(t, "end"))
}

// CounterCmd draws a command for counter histories.
func (o Opt) CounterCmd(t *rapid.T) Cmd {
	k := o.name(t, "ccmd", []string{"set", "set", "incr", "decr", "incrby", "incrby", "decrby", "decrby", "get", "append", "strlen", "getrange", "mset"})
	switch k {
	case "mset":
		c := cmd(t, k)
		v := IntText(t, "ival")
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "pairs"); i < n; i++ {
			if i > 0 && rapid.Bool().Draw(t, "fresh") {
				v = IntText(t, "ival")
			}
			c = append(c, o.key(t), v)
		}
		return c
	case "set":
		return cmd(t, k, o.key(t), IntText(t, "ival"))
	case "incr", "decr", "get", "strlen":
		return cmd(t, k, o.key(t))
	case "incrby", "decrby":
		return cmd(t, k, o.key(t), IntText(t, "by"))
	case "append":
		return cmd(t, k, o.key(t), rapid.SampledFrom([]B{"0", "1", "9", "-", "x", ""}).Draw(t, "app"))
	}
	return cmd(t, k, o.key(t), "0", "-1")
}

// ListCmd draws a list command.
func (o Opt) ListCmd(t *rapid.T) Cmd {
	k := o.name(t, "lcmd", []string{"lpush", "rpush", "lpush", "rpush", "lpop", "rpop", "llen", "lrange", "lrange", "lindex", "lset", "lrem", "lrem", "ltrim", "linsert", "linsert"})
	switch k {
	case "lpush", "rpush":
		return cmd(t, k, append([]B{o.key(t)}, o.vals(t, 1, 6)...)...)
	case "lpop", "rpop", "llen":
		return cmd(t, k, o.key(t))
	case "lrange":
		return cmd(t, k, o.key(t), Idx(t, "start"), Idx(t, "end"))
	case "ltrim":
		if o.InRangeTrim {
			return cmd(t, k, o.key(t), "0", B(strconv.Itoa(rapid.IntRange(0, 6).Draw(t, "end"))))
		}
		if rapid.Bool().Draw(t, "usual") { // drop an element or two at one end
			r := rapid.SampledFrom([][2]B{{"1", "-1"}, {"0", "-2"}, {"1", "-2"}, {"2", "-1"}, {"1", "2"}, {"0", "-1"}}).Draw(t, "part")
			return cmd(t, k, o.key(t), r[0], r[1])
		}
		return cmd(t, k, o.key(t), Idx(t, "start"), Idx(t, "end"))
	case "lindex":
		return cmd(t, k, o.key(t), Idx(t, "pos"))
	case "lset":
		return cmd(t, k, o.key(t), Idx(t, "pos"), o.val(t))
	case "lrem":
		return cmd(t, k, o.key(t), Idx(t, "count"), o.val(t))
	}
	where := rapid.SampledFrom([]B{"before", "after", "BEFORE", "AFTER", "Before", "After", "around"}).Draw(t, "where")
	return cmd(t, "linsert", o.key(t), where, o.val(t), o.val(t))
}

// HashCmd draws a hash command.
func (o Opt) HashCmd(t *rapid.T) Cmd {
	k := o.name(t, "hcmd", []string{"hset", "hset", "hset", "hget", "hexists", "hdel", "hdel", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen"})
	switch k {
	case "hset":
		c := cmd(t, k, o.key(t))
		n := rapid.IntRange(1, 4).Draw(t, "pairs")
		for i := 0; i < n; i++ {
			c = append(c, o.val(t), o.val(t))
		}
		return c
	case "hget", "hexists", "hstrlen":
		return cmd(t, k, o.key(t), o.val(t))
	case "hdel", "hmget":
		return cmd(t, k, append([]B{o.key(t)}, o.vals(t, 1, 4)...)...)
	}
	return cmd(t, k, o.key(t))
}

// SetCmd draws a set command.
func (o Opt) SetCmd(t *rapid.T) Cmd {
	k := o.name(t, "tcmd", []string{"sadd", "sadd", "sadd", "srem", "sismember", "smembers", "scard", "spop", "spop", "srandmember", "srandmember", "sdiff", "sinter", "sunion"})
	switch k {
	case "sadd", "srem":
		return cmd(t, k, append([]B{o.key(t)}, o.vals(t, 1, 6)...)...)
	case "sismember":
		return cmd(t, k, o.key(t), o.val(t))
	case "smembers", "scard":
		return cmd(t, k, o.key(t))
	case "spop", "srandmember":
		if rapid.Bool().Draw(t, "withcount") {
			return cmd(t, k, o.key(t), Idx(t, "count"))
		}
		return cmd(t, k, o.key(t))
	}
	return cmd(t, k, o.keys(t, 1, 4)...)
}

// AnyCmd draws a command of any family.
func (o Opt) AnyCmd(t *rapid.T) Cmd {
	f := o.Family
	if f == 0 {
		f = rapid.IntRange(1, 5).Draw(t, "family")
	}
	switch f {
	case 1:
		return o.StringCmd(t)
	case 2:
		return o.CounterCmd(t)
	case 3:
		return o.ListCmd(t)
	case 4:
		return o.HashCmd(t)
	}
	return o.SetCmd(t)
}

// Malformed damages a command: wrong arity or an unknown name.
func (o Opt) Malformed(t *rapid.T, c Cmd) Cmd {
	c = append(Cmd(nil), c...)
	switch rapid.IntRange(0, 3).Draw(t, "damage") {
	case 0:
		n := rapid.IntRange(1, len(c)).Draw(t, "cut")
		return c[:n]
	case 1:
		return append(c, o.vals(t, 1, 3)...)
	case 2:
		if n := string(c[0]); n != "" && rapid.Bool().Draw(t, "near") {
			// nearly a name: a letter more, less, or that only looks like it
			i := rapid.IntRange(0, len(n)-1).Draw(t, "at")
			switch rapid.IntRange(0, 5).Draw(t, "change") {
			case 0:
				n = n[:i]
			case 1:
				n = n[:i] + n[i+1:]
			case 2:
				n = n[:i] + n[i:i+1] + n[i:]
			case 3:
				n += rapid.SampledFrom([]string{"s", "x", "ex", "nx", "by", "\x00", " ", "*", ".", "_", "2"}).Draw(t, "tail")
			case 4:
				n = strings.Map(func(r rune) rune {
					switch r {
					case 's', 'S':
						return 'ſ'
					case 'e':
						return 'е' // Cyrillic
					case 'i':
						return 'ı'
					}
					return r
				}, n)
			case 5:
				n = rapid.SampledFrom([]string{"h", "l", "s", "m", "z", "_"}).Draw(t, "head") + n
			}
			c[0] = B(n)
			return c
		}
		c[0] = rapid.SampledFrom([]B{"", "get\r\n", "del", "ping", " get", "get ", "flushall", "\xff", "GETT", "hget\x00", "select", "+", "$-1\r\n", "zadd", "expire", "keys", "type"}).Draw(t, "badname")
		return c
	default:
		i := rapid.IntRange(0, len(c)-1).Draw(t, "dup")
		return append(c[:i+1:i+1], c[i:]...)
	}
}

// Num draws a number between min and max; rapid on its own mostly draws small
// ones.
func Num(t *rapid.T, label string, min, max int) int {
	if rapid.IntRange(0, 2).Draw(t, label+"-long") > 0 {
		return rapid.IntRange(min+(max-min)/3, max).Draw(t, label)
	}
	return rapid.IntRange(min, max).Draw(t, label)
}

// Seq draws a sequence of about min to max commands, some of them repeated at
// once or later on. The elements come from SliceOfN because rapid knows how to
// remove them when shrinking.
func Seq(t *rapid.T, f func(*rapid.T) Cmd, min, max int) []Cmd {
	lo := min + rapid.IntRange(0, 3).Draw(t, "long")*(max-min)/4
	// one command in how many is repeated
	odds := rapid.SampledFrom([]int{16, 16, 6}).Draw(t, "odds")
	type item struct {
		c     Cmd
		again int
	}
	items := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) item { return item{f(t), rapid.IntRange(0, odds-1).Draw(t, "again")} }), lo, max).Draw(t, "cmds")
	var out []Cmd
	// later holds commands that come again after some others
	later := map[int][]Cmd{}
	for i, it := range items {
		switch it.again {
		case 1: // the same once more
			out = append(out, it.c)
		case 2: // one from before
			out = append(out, items[i/2].c)
		case 3: // the same again after one from before
			out = append(out, it.c, items[i/2].c)
		case 4, 5: // the same again after the next few
			later[i+it.again-3] = append(later[i+it.again-3], it.c)
		}
		out = append(out, it.c)
		out = append(out, later[i]...)
	}
	return out
}

// Bursts is Seq with, now and then, a few of the commands many times over.
func Bursts(t *rapid.T, f func(*rapid.T) Cmd, min, max int) []Cmd {
	out := Seq(t, f, min, max)
	odds := 29
	if len(dict.Ints()) > 0 {
		odds = 9
	}
	if len(out) == 0 || rapid.IntRange(0, odds).Draw(t, "burst") < odds {
		return out
	}
	at, n := len(out)-1-rapid.IntRange(0, len(out)-1).Draw(t, "burst at"), rapid.IntRange(1, 3).Draw(t, "burst of")
	var part, rest []Cmd
	for i := at; i < len(out) && i < at+n; i++ {
		part = append(part, out[i])
	}
	rest = append(rest, out[at:]...)
	out = out[:at:at]
	bytes := 0
	for i, times := 0, Sized(t, "burst", 3000, 9, 17, 33, 65, 130, 260); i < times && bytes < 300000; i++ {
		for _, c := range part {
			out = append(out, c)
			for _, a := range c {
				bytes += len(a)
			}
		}
	}
	return append(out, rest...)
}

// Reads and changes of one family over one or two keys: the same read comes
// before and after changes, many of which leave the size as it was.
func Around(t *rapid.T, family int, max int) []Cmd {
	keys := rapid.SampledFrom([][]B{{"k"}, {"k", "m"}, {"k", "m", "n"}}).Draw(t, "keys")
	vals := []B{"a", "b", "c", "d", "e", "", "aa"}
	if rapid.IntRange(0, 3).Draw(t, "alike") == 0 {
		vals = Pool(t)
	}
	key, val := Of(keys), Of(vals)
	o := Opt{Keys: keys, Value: val, Family: family}
	changes := func(t *rapid.T) []Cmd {
		k, a, b := key(t, "key"), val(t, "a"), val(t, "b")
		var cs [][]Cmd
		switch family {
		case 1, 2:
			cs = [][]Cmd{{{"set", k, b}}, {{"mset", k, a, key(t, "other"), b}}, {{"append", k, a}}, {{"set", k, "1"}, {"incr", k}}, {{"incr", k}}, {{"decr", k}}, {{"set", k, a}, {"set", k, b}}}
		case 3:
			cs = [][]Cmd{{{"rpop", k}, {"rpush", k, b}}, {{"lpop", k}, {"lpush", k, b}}, {{"lset", k, Idx(t, "i"), b}}, {{"lpop", k}, {"rpush", k, b}}, {{"lrem", k, "1", a}, {"lpush", k, b}}, {{"linsert", k, "before", a, b}, {"rpop", k}},
				{{"rpush", k, a, b}}, {{"ltrim", k, "1", "-1"}, {"lpush", k, b}}}
		case 4:
			cs = [][]Cmd{{{"hset", k, a, b}}, {{"hdel", k, a}, {"hset", k, b, a}}, {{"hdel", k, a}}, {{"hset", k, a, b, b, a}}, {{"hdel", k, a}, {"hset", k, a, b}}}
		default:
			cs = [][]Cmd{{{"srem", k, a}, {"sadd", k, b}}, {{"sadd", k, b}, {"srem", k, a}}, {{"sadd", k, a, b}}, {{"srem", k, a}}, {{"spop", k}, {"sadd", k, b}}, {{"srem", k, a}, {"sadd", key(t, "other"), a}}}
		}
		return rapid.SampledFrom(cs).Draw(t, "change")
	}
	reads := [][]string{nil, {"get", "mget", "exists", "strlen", "getrange"}, {"get", "strlen"}, {"llen", "lrange", "lindex"},
		{"hget", "hexists", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen"}, {"sismember", "smembers", "scard", "sdiff", "sinter", "sunion"}}[family]
	ro := o
	ro.Only = reads
	rounds := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []Cmd {
		r := rapid.SliceOfN(rapid.Custom(ro.AnyCmd), 1, 3).Draw(t, "reads")
		out := append([]Cmd(nil), r...)
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "times"); i < n; i++ {
			for j, m := 0, rapid.IntRange(1, 2).Draw(t, "changes"); j < m; j++ {
				out = append(out, changes(t)...)
			}
			out = append(out, r...)
		}
		return out
	}), 1, max).Draw(t, "rounds")
	var out []Cmd
	for _, k := range keys {
		n := rapid.IntRange(0, 5).Draw(t, "start")
		vs := append([]B{"a", "b", "c", "d", "e"}[:n:n], val(t, "first"))
		switch family {
		case 1, 2:
			out = append(out, Cmd{"set", k, vs[0]})
		case 3:
			out = append(out, append(Cmd{"rpush", k}, vs...))
		case 4:
			c := Cmd{"hset", k}
			for _, v := range vs {
				c = append(c, v, v)
			}
			out = append(out, c)
		default:
			out = append(out, append(Cmd{"sadd", k}, vs...))
		}
	}
	for _, r := range rounds {
		out = append(out, r...)
	}
	return out
}

// SizedG is Sized as a generator.
func SizedG(most int, usual ...int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int { return Sized(t, "size", most, usual...) })
}

// Dur draws one of the usual durations, in some unit, or one that is new in the
// code under test (see package dict) if that fits.
func Dur(t *rapid.T, label string, unit time.Duration, most int, usual ...int) int {
	var d []int
	for _, x := range dict.Durations() {
		if n := int64(x / unit); n > 0 && n <= int64(most) {
			d = append(d, int(n))
		}
	}
	if len(d) > 0 && rapid.IntRange(0, 2).Draw(t, label+"-dict") > 0 {
		n := rapid.SampledFrom(d).Draw(t, label+"-new")
		return min(most, rapid.SampledFrom([]int{n, n, n + 1, n - 1, 2 * n, n + n/8, n - n/8, n / 2, 3 * n}).Draw(t, label))
	}
	return rapid.SampledFrom(usual).Draw(t, label)
}

// Repeat is ops with, now and then, a few in a row many times over.
func Repeat[T any](t *rapid.T, ops []T, most int) []T {
	odds := 19
	if len(dict.Ints()) > 0 {
		odds = 5
	}
	if len(ops) == 0 || rapid.IntRange(0, odds).Draw(t, "repeat") < odds {
		return ops
	}
	at := len(ops) - 1 - rapid.IntRange(0, len(ops)-1).Draw(t, "repeat at")
	part := ops[at:min(len(ops), at+rapid.IntRange(1, 3).Draw(t, "repeat of"))]
	out := append([]T{}, ops[:at]...)
	for i, n := 0, Sized(t, "times", most, min(most, 9), min(most, 17), min(most, 33), min(most, 65), min(most, 130)); i < n; i++ {
		out = append(out, part...)
	}
	return append(out, ops[at:]...)
}
