// Package dict makes a dictionary for the generators out of the code under test,
// as coverage-guided fuzzers do: the strings, numbers and durations written in
// its source that are not in the committed baseline of what was there when the
// harness was made. They only weigh what the generators draw; no oracle looks at
// them. On an unchanged tree the dictionary is empty.
package dict

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

//go:embed baseline.json
var baseline []byte

// Root of the code under test.
const Root = "/repo"

var (
	once  sync.Once
	strs  []string
	ints  []int64
	durns []time.Duration
)

func load() {
	once.Do(func() {
		base := map[string]int{}
		_ = json.Unmarshal(baseline, &base)
		now := Harvest(Root)
		if f := os.Getenv("VERIF_DICT"); f != "" { // for trying the generators out
			now = map[string]int{}
			b, _ := os.ReadFile(f)
			_ = json.Unmarshal(b, &now)
			base = nil
		}
		var keys []string
		for k := range now {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		seenS, seenI, seenD := map[string]bool{}, map[int64]bool{}, map[time.Duration]bool{}
		for _, k := range keys {
			if now[k] <= base[k] {
				continue
			}
			f := strings.SplitN(k, "\t", 3)
			switch f[1] {
			case "s":
				if !seenS[f[2]] && len(f[2]) < 4096 {
					seenS[f[2]] = true
					strs = append(strs, f[2])
				}
			case "i":
				var n int64
				if _, err := fmt.Sscan(f[2], &n); err == nil && !seenI[n] && (n > 2 || n < -2) {
					seenI[n] = true
					ints = append(ints, n)
				}
			case "d":
				var n int64
				if _, err := fmt.Sscan(f[2], &n); err == nil && !seenD[time.Duration(n)] && n > 0 {
					seenD[time.Duration(n)] = true
					durns = append(durns, time.Duration(n))
				}
			}
		}
		const most = 40
		strs, ints, durns = strs[:min(len(strs), most)], ints[:min(len(ints), most)], durns[:min(len(durns), most)]
	})
}

// Strings of the code that the baseline does not know.
func Strings() []string { load(); return strs }

// Ints of the code that the baseline does not know.
func Ints() []int64 { load(); return ints }

// Durations of the code that the baseline does not know.
func Durations() []time.Duration { load(); return durns }

// Sizes gives the integers between 3 and max.
func Sizes(max int) []int {
	var out []int
	for _, n := range Ints() {
		if n > 2 && n <= int64(max) {
			out = append(out, int(n))
		}
	}
	return out
}

// Harvest counts the constants of the tree, by package directory, kind and value.
func Harvest(root string) map[string]int {
	out := map[string]int{}
	_ = filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && strings.HasPrefix(d.Name(), ".") && path != root {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || strings.HasSuffix(path, ".pb.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(path))
		file, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Walk(visitor{func(kind, val string) { out[rel+"\t"+kind+"\t"+val]++ }}, file)
		return nil
	})
	return out
}

type visitor struct{ add func(kind, val string) }

func (v visitor) Visit(n ast.Node) ast.Visitor {
	switch x := n.(type) {
	case *ast.ImportSpec:
		return nil
	case *ast.Field:
		// no struct tags
		if x.Type != nil {
			ast.Walk(v, x.Type)
		}
		return nil
	case ast.Expr:
		val, dur, _ := eval(x)
		if val == nil {
			return v
		}
		switch val.Kind() {
		case constant.String:
			v.add("s", constant.StringVal(val))
		case constant.Int, constant.Float:
			k := "i"
			if dur {
				k = "d"
			}
			if i, ok := constant.Int64Val(constant.ToInt(val)); ok && constant.ToInt(val).Kind() == constant.Int {
				v.add(k, fmt.Sprint(i))
				if lit, ok := x.(*ast.BasicLit); ok && lit.Kind == token.CHAR && i > 0 && i < 0x110000 {
					v.add("s", string(rune(i)))
				}
			}
		}
		return nil
	}
	return v
}

var units = map[string]time.Duration{"Nanosecond": 1, "Microsecond": time.Microsecond, "Millisecond": time.Millisecond, "Second": time.Second, "Minute": time.Minute, "Hour": time.Hour}

// eval gives the value of a constant expression, if it is one without names
// other than the units of time.
func eval(e ast.Expr) (v constant.Value, dur, ok bool) {
	defer func() {
		if recover() != nil {
			v, dur, ok = nil, false, false
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		v = constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.SelectorExpr:
		if p, is := x.X.(*ast.Ident); is && p.Name == "time" {
			if u, is := units[x.Sel.Name]; is {
				return constant.MakeInt64(int64(u)), true, true
			}
		}
		return nil, false, false
	case *ast.CallExpr:
		// a conversion
		if len(x.Args) != 1 {
			return nil, false, false
		}
		switch f := x.Fun.(type) {
		case *ast.Ident:
			switch f.Name {
			case "int", "int64", "int32", "uint", "uint32", "uint64", "byte", "string", "float64":
				return eval(x.Args[0])
			}
		case *ast.SelectorExpr:
			if p, is := f.X.(*ast.Ident); is && p.Name == "time" && f.Sel.Name == "Duration" {
				v, _, ok = eval(x.Args[0])
				return v, true, ok
			}
		}
		return nil, false, false
	case *ast.UnaryExpr:
		a, d, k := eval(x.X)
		if !k {
			return nil, false, false
		}
		return constant.UnaryOp(x.Op, a, 0), d, true
	case *ast.BinaryExpr:
		a, d1, k1 := eval(x.X)
		b, d2, k2 := eval(x.Y)
		if !k1 || !k2 {
			return nil, false, false
		}
		switch x.Op {
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(b)
			if n > 62 {
				return nil, false, false
			}
			return constant.Shift(a, x.Op, uint(n)), d1, true
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ, token.LAND, token.LOR:
			return nil, false, false
		case token.QUO:
			if a.Kind() == constant.Int && b.Kind() == constant.Int {
				return constant.BinaryOp(a, token.QUO_ASSIGN, b), d1 || d2, true
			}
		}
		return constant.BinaryOp(a, x.Op, b), d1 || d2, true
	}
	if v == nil || v.Kind() == constant.Unknown {
		return nil, false, false
	}
	return v, dur, true
}
