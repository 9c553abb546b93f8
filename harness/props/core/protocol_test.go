package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/lxdlam/vertex/pkg/protocol"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/resp"
)

// pv is a RESP value of a plan.
type pv struct {
	K string
	S gen.B `json:",omitempty"`
	I int64 `json:",omitempty"`
	N bool  `json:",omitempty"`
	A []pv  `json:",omitempty"`
	// R nests the value that many times in one-element arrays.
	R int `json:",omitempty"`
	// L repeats the first element of the array that many times at its end.
	L int `json:",omitempty"`
	// T repeats the text that many times.
	T int `json:",omitempty"`
}

func (p pv) value() resp.Value {
	var v resp.Value
	if p.T > 0 {
		p.S = gen.B(strings.Repeat(string(p.S), p.T))
	}
	switch p.K {
	case "+":
		v = resp.Simple(string(p.S))
	case "-":
		v = resp.Error(string(p.S))
	case ":":
		v = resp.Int(p.I)
	case "$":
		if p.N {
			v = resp.NullBulk()
		} else {
			v = resp.Bulk(string(p.S))
		}
	default:
		if p.N {
			v = resp.NullArray()
		} else {
			var arr []resp.Value
			for _, x := range p.A {
				arr = append(arr, x.value())
			}
			for i := 0; i < p.L; i++ {
				arr = append(arr, arr[0])
			}
			v = resp.Array(arr...)
		}
	}
	for i := 0; i < p.R; i++ {
		v = resp.Array(v)
	}
	return v
}

func genPV(t *rapid.T, depth int) pv {
	k := rapid.IntRange(0, 11).Draw(t, "k")
	if depth <= 0 && k >= 8 {
		k -= 8
	}
	var p pv
	switch k {
	case 0:
		p = pv{K: "+", S: lineText(t)}
	case 1:
		p = pv{K: "-", S: lineText(t)}
	case 2, 3:
		p = pv{K: ":", I: gen.Int(t, "int")}
	case 4:
		p = pv{K: "$", N: true}
	case 5, 6, 7:
		p = pv{K: "$", S: gen.Value(t, "bulk")}
	case 8:
		p = pv{K: "*", N: true}
	default:
		p = pv{K: "*"}
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
			p.A = append(p.A, genPV(t, depth-1))
		}
		if len(p.A) > 0 && rapid.IntRange(0, 15).Draw(t, "long") == 0 {
			p.L = gen.Sized(t, "times", 30000, 7, 40, 300, 1500)
			if n := len(p.A[0].value().Encode()); n > 5000 {
				p.L = 2
			} else {
				p.L = min(p.L, 500000/n)
			}
		}
	}
	if depth > 0 && rapid.IntRange(0, 12).Draw(t, "nest") == 0 {
		p.R = gen.Sized(t, "levels", 98, 1, 2, 5, 20, 60)
	}
	return p
}

// lineText is a text without line breaks.
func lineText(t *rapid.T) gen.B {
	s := string(gen.Value(t, "line"))
	s = strings.ReplaceAll(s, "\r", "")
	return gen.B(strings.ReplaceAll(s, "\n", ""))
}

func (p pv) depth() int {
	d := 0
	for _, x := range p.A {
		if e := x.depth(); e > d {
			d = e
		}
	}
	if p.K == "*" && !p.N {
		d++
	}
	return d + p.R
}

// build makes the object of the code under test.
func build(v resp.Value) protocol.RedisObject {
	switch v.Kind {
	case '+':
		return protocol.NewSimpleRedisString(v.Str)
	case '-':
		return protocol.NewRedisError(v.Str)
	case ':':
		return protocol.NewRedisInteger(v.Int)
	case '$':
		if v.Null {
			return protocol.NewNullBulkRedisString()
		}
		return protocol.NewBulkRedisString(v.Str)
	}
	if v.Null {
		return protocol.NewNullRedisArray()
	}
	objs := []protocol.RedisObject{}
	for _, x := range v.Arr {
		objs = append(objs, build(x))
	}
	return protocol.NewRedisArray(objs)
}

// same compares an object of the code under test with a value in every view it
// offers. raw is the exact encoding it must have, if not empty.
func same(o protocol.RedisObject, v resp.Value) string {
	if o == nil {
		return "a nil object for " + h.Short(v.String(), 80)
	}
	enc := v.Encode()
	if !bytes.Equal(o.Byte(), enc) {
		return fmt.Sprintf("Byte() is %s, want %s", h.Short(string(o.Byte()), 120), h.Short(string(enc), 120))
	}
	if o.String() != string(enc) {
		return fmt.Sprintf("String() is %s, want %s", h.Short(o.String(), 120), h.Short(string(enc), 120))
	}
	return sameContent(o, v)
}

func sameContent(o protocol.RedisObject, v resp.Value) string {
	if o.Type() != string([]byte{v.Kind}) {
		return fmt.Sprintf("Type() is %q, want %q", o.Type(), string([]byte{v.Kind}))
	}
	switch v.Kind {
	case '+', '$':
		s, ok := o.(protocol.RedisString)
		if !ok {
			return fmt.Sprintf("%T is not a RedisString", o)
		}
		if s.Data() != v.Str {
			return fmt.Sprintf("Data() is %s, want %s", h.Short(s.Data(), 120), h.Short(v.Str, 120))
		}
	case '-':
		e, ok := o.(protocol.RedisError)
		if !ok {
			return fmt.Sprintf("%T is not a RedisError", o)
		}
		if e.Message() != v.Str || e.Error() == nil || e.Error().Error() != v.Str {
			return fmt.Sprintf("Message() is %s, Error() is %v, want %s", h.Short(e.Message(), 120), e.Error(), h.Short(v.Str, 120))
		}
	case ':':
		i, ok := o.(protocol.RedisInteger)
		if !ok {
			return fmt.Sprintf("%T is not a RedisInteger", o)
		}
		if i.Data() != v.Int {
			return fmt.Sprintf("Data() is %d, want %d", i.Data(), v.Int)
		}
	case '*':
		a, ok := o.(protocol.RedisArray)
		if !ok {
			return fmt.Sprintf("%T is not a RedisArray", o)
		}
		if len(a.Data()) != len(v.Arr) {
			return fmt.Sprintf("an array of %d elements, want %d", len(a.Data()), len(v.Arr))
		}
		for i := range v.Arr {
			if w := same(a.Data()[i], v.Arr[i]); w != "" {
				return fmt.Sprintf("element %d: %s", i, w)
			}
		}
	}
	return ""
}

// chunked gives the data in pieces of the given sizes (cycled).
type chunked struct {
	data  []byte
	sizes []int
	i     int
	eof   bool // the last piece comes together with io.EOF
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(c.data)
	if len(c.sizes) > 0 {
		n = c.sizes[c.i%len(c.sizes)]
		c.i++
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if c.eof && len(c.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func genSizes(t *rapid.T) []int {
	if rapid.IntRange(0, 3).Draw(t, "whole") == 0 {
		return nil
	}
	return rapid.SliceOfN(gen.SizedG(70000, 1, 1, 2, 3, 5, 17, 100, 4096, 5000), 1, 6).Draw(t, "sizes")
}

type stream struct {
	V     []pv
	Sizes []int
	EOF   bool
}

func runStream(p stream) h.Outcome {
	var all []byte
	var o h.Outcome
	vals := make([]resp.Value, len(p.V))
	for i, x := range p.V {
		vals[i] = x.value()
		obj := build(vals[i])
		if w := same(obj, vals[i]); w != "" {
			return h.Fail("value %d as constructed: %s", i, w)
		}
		enc := vals[i].Encode()
		back, err := protocol.Parse(bytes.NewReader(enc))
		if err != nil {
			return h.Fail("value %d: Parse(%s): %v", i, h.Short(string(enc), 120), err)
		}
		if w := same(back, vals[i]); w != "" {
			return h.Fail("value %d parsed alone: %s", i, w)
		}
		all = append(all, obj.Byte()...)
		o.Labels = append(o.Labels, string([]byte{vals[i].Kind}))
		if x.depth() > 2 {
			o.Labels = append(o.Labels, "nested")
		}
		if x.N {
			o.Labels = append(o.Labels, "null")
		}
	}
	r := protocol.NewRESPReader(&chunked{data: all, sizes: p.Sizes, eof: p.EOF})
	var got []protocol.RedisObject
	for i := range vals {
		obj, err := r.ReadObject()
		if err != nil {
			return h.Fail("reading value %d of %d from the stream: %v", i, len(vals), err)
		}
		if w := same(obj, vals[i]); w != "" {
			return h.Fail("value %d of the stream: %s", i, w)
		}
		got = append(got, obj)
	}
	if obj, err := r.ReadObject(); err == nil || !errors.Is(err, io.EOF) {
		return h.Fail("after the last value of the stream: object %v, error %v, want io.EOF", obj != nil, err)
	}
	for i := range got {
		if w := same(got[i], vals[i]); w != "" {
			return h.Fail("value %d changed when later values were read: %s", i, w)
		}
	}
	o.Steps = len(vals)
	o.NonTrivial = len(vals) >= 1 && len(all) > 5
	return o
}

func genStream(t *rapid.T) stream {
	n := rapid.IntRange(1, 6).Draw(t, "n")
	p := stream{Sizes: genSizes(t), EOF: rapid.Bool().Draw(t, "eof")}
	for i := 0; i < n; i++ {
		p.V = append(p.V, genPV(t, 3))
	}
	return p
}

func TestC01(t *testing.T) {
	h.Plan(1)
	// far beyond what the generator draws, another one in each shard
	huge := [][]pv{
		{{K: "*", A: []pv{{K: ":", I: 7}}, L: 1100000}},
		{{K: "$", S: "0123456789abcdef", T: 1 << 21}, {K: "+", S: "x"}},
		{{K: "*", A: []pv{{K: "$", S: "ab"}}, L: 150000}, {K: "*", A: []pv{{K: "*", A: []pv{{K: ":", I: -1}}}}, L: 80000}},
		{{K: "$", S: "\r\n", T: 1 << 20}, {K: "$", S: "x", T: 1<<24 + 1}},
		{{K: "+", S: "simple ", T: 300000}, {K: "-", S: "ERR ", T: 300000}},
		{{K: "*", A: []pv{{K: "$", S: "k", T: 3000000}, {K: "$", S: "v", T: 5000000}, {K: "$", N: true}}}},
		{{K: "*", A: []pv{{K: "$", N: true}}, L: 300000}, {K: "*", A: []pv{{K: "$"}}, L: 300000}, {K: "*", A: []pv{{K: "*", N: true}}, L: 70000}},
		{{K: "*", A: []pv{{K: "*", A: []pv{{K: "+", S: "OK"}}, L: 300}}, L: 1000}, {K: ":", I: 1}},
	}
	h.Check(t, "C01", h.Prop[stream]{
		Name: "stream", Cases: 6000, Gen: genStream, Run: runStream,
		Rule: "random sequences of RESP values (all kinds, nulls, boundary integers, arbitrary bytes, nesting to over 60 levels) built with the constructors, compared byte for byte with an independent encoder, parsed alone and from a concatenated stream cut into arbitrary reads; non-trivial when the encoding is longer than the smallest value",
		Fixed: []stream{
			{V: huge[h.GetEnv().Shard%len(huge)]},
			{V: []pv{{K: "$", S: gen.B(strings.Repeat("x\r\n", 30000))}, {K: ":", I: 1}}, Sizes: []int{1, 4096}},
			{V: []pv{{K: ":", I: -9223372036854775808}, {K: "*", R: 98}, {K: "*", N: true, R: 98}, {K: "$", R: 90}}, Sizes: []int{1}},
			{V: []pv{{K: "*", A: []pv{{K: "*"}, {K: "*", N: true}, {K: "$", N: true}, {K: "$"}, {K: "+"}, {K: "-"}}}}},
		},
	})
}

// ---------------------------------------------------------------- C02

type raw struct {
	Data gen.B
	// Rep repeats the data that many times (for huge inputs).
	Rep   int    `json:",omitempty"`
	Tail  gen.B  `json:",omitempty"`
	Sizes []int  `json:",omitempty"`
	How   string `json:",omitempty"`
}

func (p raw) bytes() []byte {
	if p.Rep > 0 {
		return append(bytes.Repeat([]byte(p.Data), p.Rep), p.Tail...)
	}
	return append([]byte(p.Data), p.Tail...)
}

var frag = []string{"$", "*", "+", "-", ":", "\r\n", "\n", "\r", "0", "1", "2", "-1", "-2", "3", "10", "a", "abc", "\x00", "\xff", "$-1\r\n", "*-1\r\n", "*0\r\n", "$0\r\n\r\n", "$3\r\nfoo\r\n", "*1\r\n", "*2\r\n", ":1\r\n", "+OK\r\n",
	"9223372036854775807", "9223372036854775806", "-9223372036854775808", "4294967296", "99999999999999999999", "$1\r\n", "+\r\n", "\r\r\n", "\n\r\n", " ", "+5", "-0", "007",
	"0x10", "0b11", "0o7", "010", "1_0", "1e2", "1.0", "0x", "08", "--1", "+-1", "1 ", " 1", "\t1", "\xd9\xa1", "$010\r\n", ":0x1f\r\n", "*01\r\n", ":1_000\r\n"}

func genRaw(t *rapid.T) raw {
	switch rapid.IntRange(0, 7).Draw(t, "how") {
	case 0:
		return raw{Data: gen.B(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")), How: "bytes", Sizes: genSizes(t)}
	case 1, 2:
		n := rapid.IntRange(1, 12).Draw(t, "n")
		var b strings.Builder
		for i := 0; i < n; i++ {
			if gen.Wordy(t, "f") {
				b.WriteString(string(gen.Word(t, "f")))
				continue
			}
			b.WriteString(rapid.SampledFrom(frag).Draw(t, "f"))
		}
		return raw{Data: gen.B(b.String()), How: "fragments", Sizes: genSizes(t)}
	}
	enc := genPV(t, 3).value().Encode()
	if len(enc) > 3000 {
		enc = enc[:3000]
	}
	switch rapid.IntRange(0, 4).Draw(t, "mut") {
	case 0: // truncate
		k := rapid.IntRange(0, len(enc)).Draw(t, "at")
		return raw{Data: gen.B(enc[:k]), How: "truncated", Sizes: genSizes(t)}
	case 1: // flip bytes
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "flips"); i < n; i++ {
			enc[rapid.IntRange(0, len(enc)-1).Draw(t, "at")] = rapid.SampledFrom([]byte("$*+-:\r\n019 a\x00\xff")).Draw(t, "to")
		}
		return raw{Data: gen.B(enc), How: "flipped", Sizes: genSizes(t)}
	case 2: // insert a fragment
		k := rapid.IntRange(0, len(enc)).Draw(t, "at")
		f := rapid.SampledFrom(frag).Draw(t, "f")
		return raw{Data: gen.B(string(enc[:k]) + f + string(enc[k:])), How: "inserted", Sizes: genSizes(t)}
	case 3: // delete some bytes
		k := rapid.IntRange(0, len(enc)-1).Draw(t, "at")
		e := rapid.IntRange(k, min(len(enc), k+4)).Draw(t, "to")
		return raw{Data: gen.B(string(enc[:k]) + string(enc[e:])), How: "deleted", Sizes: genSizes(t)}
	default: // valid, something behind it
		return raw{Data: gen.B(string(enc) + rapid.SampledFrom(frag).Draw(t, "tail")), How: "tail", Sizes: genSizes(t)}
	}
}

// lenient says that the frame may also be refused: numbers in a non-canonical
// spelling, lines holding bare CR or LF. If it is accepted, the value has to be
// the one the strict reader finds.
func lenient(b []byte) bool {
	i := 0
	// walk the frame the way the strict reader does
	var walk func(depth int) (ok, open bool)
	walk = func(depth int) (bool, bool) {
		if i >= len(b) || depth > 2000 {
			return false, false
		}
		e := bytes.Index(b[i:], []byte("\r\n"))
		if e < 0 {
			// no complete line: an error either way
			return false, false
		}
		line := string(b[i : i+e])
		i += e + 2
		open := strings.ContainsAny(line, "\r\n")
		if line == "" {
			return false, open
		}
		n := line[1:]
		num := func() (int, bool) {
			var x int64
			_, err := fmt.Sscanf(n, "%d", &x)
			if err != nil || fmt.Sprint(x) != n {
				open = true
				return 0, false
			}
			return int(x), true
		}
		switch line[0] {
		case '+', '-':
			return true, open
		case ':':
			_, ok := num()
			return ok, open
		case '$':
			l, ok := num()
			if !ok {
				return false, open
			}
			if l < 0 {
				return l == -1, open
			}
			if len(b)-i < l || len(b)-i-l < 2 {
				return false, open
			}
			i += l + 2
			return string(b[i-2:i]) == "\r\n", open
		case '*':
			l, ok := num()
			if !ok {
				return false, open
			}
			for k := 0; k < l; k++ {
				ok, op := walk(depth + 1)
				open = open || op
				if !ok || open {
					return ok, open
				}
			}
			return l >= -1, open
		}
		return false, open
	}
	_, open := walk(0)
	return open
}

func runRaw(p raw) h.Outcome {
	b := p.bytes()
	want, serr := resp.NewReader(bytes.NewReader(b)).Read()
	o := h.Outcome{NonTrivial: len(b) > 0, Labels: []string{p.How}, Steps: 1}
	for pass := 0; pass < 2; pass++ {
		var got protocol.RedisObject
		var err error
		var src io.Reader = &chunked{data: b, sizes: p.Sizes}
		if pass == 0 {
			got, err = protocol.Parse(src)
		} else {
			got, err = protocol.NewRESPReader(src).ReadObject()
		}
		if err == nil && got == nil {
			return h.Fail("decoding %s gave neither an object nor an error", h.Short(string(b), 200))
		}
		switch {
		case serr == nil && err == nil:
			if w := sameContent(got, want); w != "" {
				return h.Fail("decoding %s: %s", h.Short(string(b), 200), w)
			}
			o.Labels = append(o.Labels, "value")
		case serr == nil && err != nil:
			if !lenient(b) && depthOf(want) <= 100 {
				return h.Fail("decoding %s: error %v, want %s", h.Short(string(b), 200), err, h.Short(want.String(), 100))
			}
			o.Labels = append(o.Labels, "open")
		case serr != nil && err == nil:
			return h.Fail("decoding %s: accepted as %s, but the grammar says: %v", h.Short(string(b), 200), h.Short(got.String(), 100), serr)
		default:
			o.Labels = append(o.Labels, "error")
		}
	}
	return o
}

func depthOf(v resp.Value) int {
	d := 0
	for _, x := range v.Arr {
		if e := depthOf(x); e > d {
			d = e
		}
	}
	if v.Kind == '*' && !v.Null {
		d++
	}
	return d
}

// runDeep feeds nesting far beyond anything useful; only an error is right,
// and the process has to survive.
func runDeep(p raw) h.Outcome {
	_, err := protocol.Parse(&chunked{data: p.bytes(), sizes: p.Sizes})
	if err == nil {
		return h.Fail("an array nested %d levels deep was accepted", p.Rep)
	}
	return h.Outcome{NonTrivial: true, Steps: 1, Labels: []string{"deep"}}
}

func TestC02(t *testing.T) {
	h.Plan(4)
	h.Check(t, "C02", h.Prop[raw]{
		Name: "decode", Cases: 12000, Gen: genRaw, Run: runRaw, Journal: false, Weight: 2,
		Rule: "random bytes, random sequences of grammar fragments, and valid frames truncated, flipped, cut, spliced or followed by more bytes, read in arbitrary pieces; the verdict and value compared with an independent strict decoder; non-trivial when the input is not empty",
		Fixed: []raw{
			{Data: "$-2\r\n"}, {Data: "*-2\r\n"}, {Data: "$3\r\nabcde"}, {Data: "$9223372036854775807\r\nabc\r\n"}, {Data: "$9223372036854775806\r\nabc\r\n"}, {Data: "*9223372036854775807\r\n"}, {Data: "*1000000000\r\n:1\r\n"}, {Data: "$-9223372036854775808\r\n\r\n"},
			{Data: "\r\n"}, {Data: "\n"}, {Data: ""}, {Data: "\r"}, {Data: "$"}, {Data: ":\r\n"}, {Data: "*\r\n"}, {Data: "$\r\n\r\n"}, {Data: "?1\r\n"}, {Data: "$2147483647\r\n"}, {Data: "$4294967299\r\nabc\r\n"}, {Data: "*4294967297\r\n:1\r\n"}, {Data: "$18446744073709551619\r\nabc\r\n"},
		},
	})
	h.Check(t, "C02", h.Prop[raw]{
		Name: "deep", Cases: 1, Run: runDeep, Journal: true,
		Rule:  "frames nested from 50 000 to millions of levels, complete or not, must be an error and must not kill the process",
		Fixed: []raw{{Data: "*1\r\n", Rep: 5000000, Tail: ""}, {Data: "*1\r\n", Rep: 50000, Tail: ":1\r\n"}},
		Gen: func(t *rapid.T) raw {
			return raw{Data: rapid.SampledFrom([]gen.B{"*1\r\n", "*2\r\n"}).Draw(t, "d"), Rep: rapid.IntRange(50000, 200000).Draw(t, "n"), Tail: "*0\r\n"}
		},
	})
	h.Check(t, "C02", h.Prop[dam]{
		Name: "damaged", Cases: 6000, Gen: genDam, Run: runDam,
		Rule: "one to three values, payloads beyond 64 KB included, of which one token (type, number, line end, payload, payload end) is changed, lost, doubled or followed by something else; all frames up to the first error compared with the strict decoder; always non-trivial",
	})
	var all gen.B = "$*+-:\r\n012a"
	h.Check(t, "C02", h.Prop[short]{
		Name: "short", Cases: 40, Run: runShort,
		Rule: "all byte strings of length 4 over the alphabet " + fmt.Sprintf("%q", string(all)) + " behind a random prefix, each decoded and compared with the strict decoder; always non-trivial",
		Gen: func(t *rapid.T) short {
			return short{Prefix: gen.B(strings.Join(rapid.SliceOfN(rapid.SampledFrom(frag), 0, 3).Draw(t, "p"), "")), Tail: rapid.SampledFrom([]gen.B{"", "\r\n", "\r\n\r\n", "\r\nab\r\n"}).Draw(t, "t")}
		},
		Fixed: []short{{}, {Tail: "\r\n"}, {Prefix: "*1\r\n"}, {Prefix: "$", Tail: "\r\n"}, {Prefix: ":", Tail: "\r\n"}, {Prefix: "*2\r\n$1\r\n"}},
	})
}

// dam is a few values of which one token of the encoding is replaced.
type dam struct {
	V     []pv
	Site  int // the token, counted from the end
	How   int
	N     int64
	Frag  gen.B
	Sizes []int
	EOF   bool
}

// tokens splits the encoding: type byte, number or text, line end, payload,
// payload end, and so on.
func tokens(v resp.Value, out []string) []string {
	enc := string(v.Encode())
	e := strings.Index(enc, "\r\n")
	out = append(out, enc[:1], enc[1:e], "\r\n")
	switch {
	case v.Null:
	case v.Kind == '$':
		out = append(out, v.Str, "\r\n")
	case v.Kind == '*':
		for _, x := range v.Arr {
			out = tokens(x, out)
		}
	}
	return out
}

func (p dam) bytes() []byte {
	var tk []string
	for _, v := range p.V {
		tk = tokens(v.value(), tk)
	}
	i := len(tk) - 1 - p.Site%len(tk)
	x := tk[i]
	var n int64
	if _, err := fmt.Sscan(x, &n); err == nil && fmt.Sprint(n) == x && p.How < 6 {
		x = fmt.Sprint(n + p.N)
	} else {
		switch p.How {
		case 0:
			x = ""
		case 1:
			x = string(p.Frag)
		case 2:
			x += string(p.Frag)
		case 3:
			x = string(p.Frag) + x
		case 4:
			x = x[:max(0, len(x)-1)]
		case 5:
			x = x[min(1, len(x)):]
		case 6:
			x += x
		case 7:
			if len(x) > 0 {
				x = x[:len(x)/2] + string(p.Frag) + x[len(x)/2:]
			}
		case 8:
			if len(x) > 0 {
				b := []byte(x)
				b[len(b)-1] ^= byte(p.N)
				x = string(b)
			}
		default:
			tk = tk[:i+1]
		}
	}
	tk[i] = x
	return []byte(strings.Join(tk, ""))
}

func runDam(p dam) h.Outcome {
	b := p.bytes()
	o := runRaw(raw{Data: gen.B(b), Sizes: p.Sizes, How: "damaged"})
	if o.Violation != "" {
		return o
	}
	// one after the other, as long as both agree that there are values
	plain := bytes.NewReader(b)
	strict := resp.NewReader(plain)
	src := &chunked{data: b, sizes: p.Sizes, eof: p.EOF}
	r := protocol.NewRESPReader(src)
	end := 0
	for i := 0; ; i++ {
		want, serr := strict.Read()
		got, err := r.ReadObject()
		from := end
		end = len(b) - plain.Len() - strict.R.Buffered()
		if serr != nil && err == nil {
			return h.Fail("frame %d of %s: accepted as %s, but the grammar says: %v", i, h.Short(string(b), 300), h.Short(got.String(), 100), serr)
		}
		if serr != nil || err != nil {
			if serr == nil && !lenient(b[from:end]) && depthOf(want) <= 100 {
				return h.Fail("frame %d of %s: error %v, want %s", i, h.Short(string(b), 300), err, h.Short(want.String(), 100))
			}
			o.Labels = append(o.Labels, fmt.Sprintf("frames-%d", min(i, 3)))
			return o
		}
		if w := sameContent(got, want); w != "" {
			return h.Fail("frame %d of %s: %s", i, h.Short(string(b), 300), w)
		}
		o.Steps++
	}
}

func genDam(t *rapid.T) dam {
	p := dam{Sizes: genSizes(t), EOF: rapid.Bool().Draw(t, "eof")}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
		v := genPV(t, 2)
		if rapid.IntRange(0, 9).Draw(t, "large") == 0 {
			v = pv{K: "*", A: []pv{{K: "$", S: gen.B(strings.Repeat("x", gen.Sized(t, "len", 1<<20, 4000, 4096, 8190, 16384, 65536, 70000, 130000)))}, genPV(t, 1)}}
		}
		p.V = append(p.V, v)
	}
	p.Site = rapid.IntRange(0, rapid.SampledFrom([]int{3, 12, 12, 60, 5000}).Draw(t, "far")).Draw(t, "site")
	p.How = rapid.IntRange(0, 9).Draw(t, "how")
	p.N = rapid.SampledFrom([]int64{-1, 1, -2, 2, 3, 10, -10, 100, 256, 32, 128, 1 << 32, -1 << 32, 1 << 40}).Draw(t, "by")
	if rapid.IntRange(0, 7).Draw(t, "any") == 0 {
		p.N = gen.Int(t, "by")
	}
	p.Frag = gen.B(rapid.SampledFrom(frag).Draw(t, "frag"))
	if gen.Wordy(t, "frag") {
		p.Frag = gen.Word(t, "frag")
	}
	return p
}

type short struct{ Prefix, Tail gen.B }

func runShort(p short) h.Outcome {
	const abc = "$*+-:\r\n012a"
	o := h.Outcome{NonTrivial: true}
	buf := []byte(string(p.Prefix) + "????" + string(p.Tail))
	k := len(p.Prefix)
	for a := 0; a < len(abc); a++ {
		for b := 0; b < len(abc); b++ {
			for c := 0; c < len(abc); c++ {
				for d := 0; d < len(abc); d++ {
					buf[k], buf[k+1], buf[k+2], buf[k+3] = abc[a], abc[b], abc[c], abc[d]
					if r := runRaw(raw{Data: gen.B(buf)}); r.Violation != "" {
						return r
					}
					o.Steps++
				}
			}
		}
	}
	return o
}
