package core

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/lxdlam/vertex/pkg/log"
	"github.com/lxdlam/vertex/pkg/protocol"
	"pgregory.net/rapid"

	"vertexverif/gen"
	"vertexverif/h"
	"vertexverif/resp"
)

// rec is one request to be logged.
type rec struct {
	Name  gen.B
	Index int
	Args  []pv
}

func genRec(t *rapid.T) rec {
	r := rec{Name: rapid.SampledFrom([]gen.B{"set", "lpush", "SADD", "x", "日本", "a name", ""}).Draw(t, "name"), Index: rapid.SampledFrom([]int{0, 0, 1, 2, -1, 15, 2147483647, -2147483648, 1, 99}).Draw(t, "index")}
	if r.Index == 99 {
		r.Index = int(int32(gen.Int(t, "anyindex")))
	}
	if rapid.Bool().Draw(t, "anyname") {
		r.Name = gen.B(rapid.StringN(0, 12, -1).Draw(t, "name2"))
	}
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "nargs"); i < n; i++ {
		if rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
			r.Args = append(r.Args, genPV(t, 1))
		} else {
			r.Args = append(r.Args, pv{K: "$", S: gen.Value(t, "arg")})
		}
	}
	return r
}

type packed struct {
	name  string
	index int
	args  []string // encodings
	raw   string
	bytes []byte
}

func pack(r rec) (packed, string) {
	objs := []protocol.RedisObject{protocol.NewBulkRedisString(string(r.Name))}
	p := packed{name: string(r.Name), index: r.Index}
	all := []resp.Value{resp.Bulk(string(r.Name))}
	for _, a := range r.Args {
		v := a.value()
		all = append(all, v)
		objs = append(objs, build(v))
		p.args = append(p.args, string(v.Encode()))
	}
	p.raw = string(resp.Array(all...).Encode())
	vl := log.NewLog(p.name, p.index, objs)
	if vl == nil {
		return p, "NewLog gave nil"
	}
	b, err := log.PackLog(vl)
	if err != nil {
		return p, fmt.Sprintf("PackLog of name %s with %d arguments: %v", h.Short(p.name, 60), len(p.args), err)
	}
	if len(b) < 4 || int(binary.LittleEndian.Uint32(b)) != len(b)-4 {
		return p, "the packed record does not carry its own length"
	}
	p.bytes = b
	return p, ""
}

func (p packed) same(v *log.VertexLog) string {
	if v == nil {
		return "nil record"
	}
	if v.Name != p.name {
		return fmt.Sprintf("name %s, want %s", h.Short(v.Name, 60), h.Short(p.name, 60))
	}
	if int(v.Index) != p.index {
		return fmt.Sprintf("index %d, want %d", v.Index, p.index)
	}
	if len(v.Arguments) != len(p.args) {
		return fmt.Sprintf("%d arguments, want %d", len(v.Arguments), len(p.args))
	}
	for i, a := range v.Arguments {
		if string(a) != p.args[i] {
			return fmt.Sprintf("argument %d is %s, want %s", i, h.Short(string(a), 80), h.Short(p.args[i], 80))
		}
		back, err := protocol.Parse(bytes.NewReader([]byte(a)))
		if err != nil {
			return fmt.Sprintf("argument %d does not parse back: %v", i, err)
		}
		if string(back.Byte()) != p.args[i] {
			return fmt.Sprintf("argument %d parses back differently", i)
		}
	}
	if string(v.RawRequest) != p.raw {
		return fmt.Sprintf("raw request %s, want %s", h.Short(string(v.RawRequest), 80), h.Short(p.raw, 80))
	}
	if log.FormatLog(v) == "" {
		return "FormatLog gave nothing"
	}
	return ""
}

type logPlan struct {
	Recs  []rec
	Sizes []int
	// Cut is where to truncate, in thousandths of the length; -1: everywhere.
	Cut int
	// Damage is the record to corrupt (-1 none), Flips random byte changes.
	Damage int
	Flips  [][2]int
	// Many destroys the bodies of these records (modulo the number) at once.
	Many []int `json:",omitempty"`
	// Rep repeats the records that many times.
	Rep int `json:",omitempty"`
}

func matchAll(got []*log.VertexLog, want []packed) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d records, want %d", len(got), len(want))
	}
	for i := range got {
		if w := want[i].same(got[i]); w != "" {
			return fmt.Sprintf("record %d: %s", i, w)
		}
	}
	return ""
}

func runLog(p logPlan) h.Outcome {
	var all []byte
	var ps []packed
	var copies [][]byte
	var alone []*log.VertexLog
	ends := []int{0}
	recs := p.Recs
	for i := 1; i < p.Rep; i++ {
		recs = append(recs, p.Recs...)
	}
	for i, r := range recs {
		k, w := pack(r)
		if w != "" {
			return h.Fail("record %d: %s", i, w)
		}
		ps = append(ps, k)
		copies = append(copies, append([]byte{}, k.bytes...))
		one, err := log.ParseLog(bytes.NewReader(k.bytes))
		if err != nil {
			return h.Fail("record %d parsed alone: %v", i, err)
		}
		if w := matchAll(one, []packed{k}); w != "" {
			return h.Fail("record %d parsed alone: %s", i, w)
		}
		alone = append(alone, one...)
		all = append(all, k.bytes...)
		ends = append(ends, len(all))
	}
	// packed and parsed records stay what they are
	for i := range ps {
		if !bytes.Equal(ps[i].bytes, copies[i]) {
			return h.Fail("packed record %d of %d changed when others were packed", i, len(ps))
		}
	}
	if w := matchAll(alone, ps); w != "" {
		return h.Fail("records parsed alone, looked at again after others: %s", w)
	}
	read := func(b []byte) ([]*log.VertexLog, error) {
		return log.ParseLog(&chunked{data: b, sizes: p.Sizes})
	}
	o := h.Outcome{NonTrivial: len(ps) > 0, Steps: len(ps), Labels: []string{"sequence"}}
	got, err := read(append([]byte{}, all...))
	if err != nil {
		return h.Fail("%d records in sequence: %v", len(ps), err)
	}
	if w := matchAll(got, ps); w != "" {
		return h.Fail("%d records in sequence: %s", len(ps), w)
	}
	// truncation
	cut := func(k int) string {
		n := 0
		for n+1 < len(ends) && ends[n+1] <= k {
			n++
		}
		got, err := read(append([]byte{}, all[:k]...))
		if w := matchAll(got, ps[:n]); w != "" {
			return fmt.Sprintf("file of %d records cut at byte %d of %d (records end at %v): %s (err %v)", len(ps), k, len(all), ends, w, err)
		}
		if k == ends[n] && err != nil {
			return fmt.Sprintf("file cut exactly behind record %d: %v", n, err)
		}
		if k != ends[n] && err == nil {
			return fmt.Sprintf("file of %d records cut at byte %d of %d, inside record %d: not reported as incomplete", len(ps), k, len(all), n)
		}
		return ""
	}
	if p.Cut < 0 && len(all) <= 4000 {
		for k := 0; k <= len(all); k++ {
			if w := cut(k); w != "" {
				return h.Fail("%s", w)
			}
			o.Steps++
		}
		o.Labels = append(o.Labels, "cut-everywhere")
	} else {
		k := len(all) * (p.Cut & 1023) / 1024
		if w := cut(k); w != "" {
			return h.Fail("%s", w)
		}
		o.Labels = append(o.Labels, "cut")
	}
	// one record's body corrupted beyond recognition
	if p.Damage >= 0 && len(ps) > 0 {
		d := p.Damage % len(ps)
		b := append([]byte{}, all...)
		for i := ends[d] + 4; i < ends[d+1]; i++ {
			b[i] = 0xff
		}
		got, err := read(b)
		rest := append(append([]packed{}, ps[:d]...), ps[d+1:]...)
		if err != nil {
			return h.Fail("record %d of %d has a corrupt body: %v", d, len(ps), err)
		}
		if w := matchAll(got, rest); w != "" {
			return h.Fail("record %d of %d has a corrupt body: %s", d, len(ps), w)
		}
		o.Labels = append(o.Labels, "corrupt-body")
		// arbitrary damage inside that body: the others are untouched
		b = append([]byte{}, all...)
		size := ends[d+1] - ends[d] - 4
		for _, f := range p.Flips {
			b[ends[d]+4+mod(f[0], size)] = byte(f[1])
		}
		got, err = read(b)
		if err != nil {
			return h.Fail("bytes of record %d of %d changed: %v", d, len(ps), err)
		}
		switch len(got) {
		case len(ps) - 1:
			if w := matchAll(got, rest); w != "" {
				return h.Fail("bytes of record %d of %d changed: %s", d, len(ps), w)
			}
		case len(ps):
			if w := matchAll(append(append([]*log.VertexLog{}, got[:d]...), got[d+1:]...), rest); w != "" {
				return h.Fail("bytes of record %d of %d changed: %s", d, len(ps), w)
			}
			_ = log.FormatLog(got[d])
		default:
			return h.Fail("bytes of record %d of %d changed: %d records came back", d, len(ps), len(got))
		}
		o.Labels = append(o.Labels, "flipped-body")
	}
	// several bodies destroyed, some with a torn record behind them
	if len(p.Many) > 0 {
		gone := map[int]bool{}
		for _, m := range p.Many {
			gone[mod(m, len(ps))] = true
		}
		b := append([]byte{}, all...)
		var rest []packed
		for d := range ps {
			if !gone[d] {
				rest = append(rest, ps[d])
				continue
			}
			for i := ends[d] + 4; i < ends[d+1]; i++ {
				b[i] = 0xff
			}
		}
		for _, tail := range []string{"", "\x05\x00\x00\x00abc"} {
			got, err := read(append(append([]byte{}, b...), tail...))
			if (tail != "") != (err != nil) {
				return h.Fail("records %v of %d have corrupt bodies, tail %q: error %v", p.Many, len(ps), tail, err)
			}
			if w := matchAll(got, rest); w != "" {
				return h.Fail("records %v of %d have corrupt bodies, tail %q: %s", p.Many, len(ps), tail, w)
			}
		}
		o.Labels = append(o.Labels, "many-corrupt")
	}
	return o
}

func mod(a, n int) int {
	a %= n
	if a < 0 {
		a += n
	}
	return a
}

type junk struct {
	Recs  []rec
	Flips [][2]int
	Junk  gen.B
	At    int
}

// runJunk parses damaged or arbitrary input: it may say anything but must end.
func runJunk(p junk) h.Outcome {
	var all []byte
	for _, r := range p.Recs {
		k, w := pack(r)
		if w != "" {
			return h.Fail("%s", w)
		}
		all = append(all, k.bytes...)
	}
	k := 0
	if len(all) > 0 {
		k = mod(p.At, len(all)+1)
	}
	all = append(append(append([]byte{}, all[:k]...), p.Junk...), all[k:]...)
	for _, f := range p.Flips {
		if len(all) > 0 {
			all[mod(f[0], len(all))] = byte(f[1])
		}
	}
	got, err := log.ParseLog(bytes.NewReader(all))
	for _, g := range got {
		if g == nil {
			return h.Fail("ParseLog gave a nil record")
		}
		_ = log.FormatLog(g)
	}
	// framing oracle: walk the lengths
	pos, complete, torn := 0, 0, false
	for {
		if pos == len(all) {
			break
		}
		if len(all)-pos < 4 {
			torn = true
			break
		}
		n := int(binary.LittleEndian.Uint32(all[pos:]))
		if len(all)-pos-4 < n {
			torn = true
			break
		}
		pos += 4 + n
		complete++
	}
	if len(got) > complete {
		return h.Fail("%d records from input that holds %d complete frames", len(got), complete)
	}
	if torn && err == nil {
		return h.Fail("input that ends inside a record was not reported as incomplete (%d bytes: %s)", len(all), h.Short(string(all), 80))
	}
	if !torn && err != nil {
		return h.Fail("input made of %d complete frames was reported as %v", complete, err)
	}
	o := h.Outcome{NonTrivial: len(all) > 4, Steps: 1, Labels: []string{fmt.Sprintf("torn=%v", torn)}}
	return o
}

// failing is a reader that fails in the middle with an error that is not EOF.
type failing struct {
	data []byte
}

func (f *failing) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, io.ErrClosedPipe
	}
	n := copy(p, f.data)
	f.data = f.data[n:]
	return n, nil
}

func runBroken(p logPlan) h.Outcome {
	var all []byte
	for _, r := range p.Recs {
		k, w := pack(r)
		if w != "" {
			return h.Fail("%s", w)
		}
		all = append(all, k.bytes...)
	}
	k := len(all) * (p.Cut & 1023) / 1024
	_, err := log.ParseLog(&failing{data: append([]byte{}, all[:k]...)})
	if err == nil {
		return h.Fail("the stream broke off with an error at byte %d of %d and ParseLog reported success", k, len(all))
	}
	return h.Outcome{NonTrivial: k > 0, Steps: 1}
}

func genLog(t *rapid.T) logPlan {
	p := logPlan{Sizes: genSizes(t), Cut: rapid.IntRange(0, 1023).Draw(t, "cut"), Damage: rapid.IntRange(-1, 6).Draw(t, "damage")}
	if rapid.IntRange(0, 9).Draw(t, "everywhere") == 0 {
		p.Cut = -1
	}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
		p.Recs = append(p.Recs, genRec(t))
	}
	p.Flips = genFlips(t)
	if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
		if rapid.IntRange(0, 2).Draw(t, "long") == 0 && len(p.Recs) < 4 {
			p.Rep = gen.Sized(t, "rep", 2000, 2, 5, 10, 40)
			if p.Rep > 5 {
				p.Recs = []rec{{Name: "set", Args: []pv{{K: "$", S: "k"}, {K: "$", S: gen.Small(t, "v")}}}}
				p.Cut &= 1023
			}
		}
		n := len(p.Recs) * max(p.Rep, 1)
		if rapid.Bool().Draw(t, "run") { // one behind the other
			at := rapid.IntRange(0, n-1).Draw(t, "from")
			for i := rapid.IntRange(1, n).Draw(t, "len"); i > 0; i-- {
				p.Many = append(p.Many, at%n)
				at++
			}
		} else {
			p.Many = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, min(n, 60)).Draw(t, "which")
		}
	}
	return p
}

func genFlips(t *rapid.T) [][2]int {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) [2]int {
		return [2]int{rapid.IntRange(0, 10000).Draw(t, "at"), rapid.IntRange(0, 255).Draw(t, "to")}
	}), 1, 4).Draw(t, "flips")
}

func TestC12(t *testing.T) {
	h.Plan(3)
	h.Check(t, "C12", h.Prop[logPlan]{
		Name: "records", Cases: 2500, Gen: genLog, Run: runLog, Weight: 2,
		Rule: "random requests packed and parsed alone and in sequence through arbitrary reads, the file truncated at one random byte (every byte for a tenth of the cases), one or many records' bodies destroyed or one partly changed; names, index, every argument and the surviving records compared; non-trivial when at least one record was written",
		Fixed: []logPlan{
			{Recs: []rec{{Name: "set", Args: []pv{{K: "$", S: gen.B(strings.Repeat("\xff\x00", 40000))}, {K: "$"}}}, {Name: "x"}}, Cut: 1000, Damage: 0, Flips: [][2]int{{1, 255}}},
			{Recs: []rec{{Name: "get"}, {Name: "set", Args: []pv{{K: "$", S: "\xff"}, {K: "$", S: "\xc3("}}}}, Cut: -1, Damage: 1, Flips: [][2]int{{0, 0}}},
			{Recs: []rec{{Name: "set", Args: []pv{{K: "$", S: "k"}, {K: "$", S: gen.B(strings.Repeat("\xff\x00\r\n", 1<<18))}}}, {Name: "mset", Args: []pv{{K: "$", S: "k"}, {K: "$", S: gen.B(strings.Repeat("0123456789", 300000))}, {K: "$"}}}, {Name: "x"}}, Cut: 600, Damage: 1, Flips: [][2]int{{1, 255}}},
		},
	})
	h.Check(t, "C12", h.Prop[junk]{
		Name: "damage", Cases: 4000, Run: runJunk,
		Rule: "files with bytes overwritten and junk spliced in anywhere, and arbitrary bytes; the parser must end, give no more records than there are complete frames and report incompleteness exactly when the last frame is incomplete; non-trivial when longer than a length prefix",
		Gen: func(t *rapid.T) junk {
			p := junk{Flips: genFlips(t), At: rapid.IntRange(0, 10000).Draw(t, "at")}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
				p.Recs = append(p.Recs, genRec(t))
			}
			switch rapid.IntRange(0, 3).Draw(t, "junk") {
			case 0:
				p.Junk = gen.B(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "j"))
			case 1:
				p.Junk = rapid.SampledFrom([]gen.B{"\x00\x00\x00\x00", "\xff\xff\xff\xff", "\xff\xff\xff\x7f", "\x01\x00\x00\x00\xff", "\x02\x00\x00\x00\x28\x01", "\x00"}).Draw(t, "jf")
			}
			return p
		},
	})
	h.Check(t, "C12", h.Prop[logPlan]{Name: "huge", Cases: 1, Run: runLog, Weight: 0.2, Shrink: 5 * time.Second,
		Rule: "a request of 32 to 134 thousand arguments, or one of many megabytes, between small ones, treated as above; always non-trivial",
		Gen: func(t *rapid.T) logPlan {
			p := logPlan{Cut: rapid.IntRange(0, 1023).Draw(t, "cut"), Damage: rapid.IntRange(-1, 2).Draw(t, "damage"), Flips: genFlips(t)}
			r := rec{Name: "sadd", Args: []pv{{K: "$", S: "k"}}}
			if rapid.Bool().Draw(t, "wide") {
				a := pv{K: "$", S: gen.Small(t, "v")}
				for n := gen.HugeSize(t); len(r.Args) < n; {
					r.Args = append(r.Args, a)
				}
			} else {
				n := rapid.SampledFrom([]int{1 << 20, 1 << 22, 1 << 23, 1 << 24}).Draw(t, "size")
				r.Args = append(r.Args, pv{K: "$", S: gen.B(strings.Repeat("0123456\n", n/8))})
			}
			p.Recs = []rec{genRec(t), r, genRec(t)}
			return p
		}})
	h.Check(t, "C12", h.Prop[logPlan]{Name: "broken", Cases: 400, Gen: genLog, Run: runBroken, Weight: 0.3,
		Rule: "a stream of records that fails with an I/O error at a random byte must make the parser report an error; non-trivial when some bytes came before"})
}
