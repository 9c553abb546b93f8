package gen

import (
	"strings"

	"pgregory.net/rapid"

	"vertexverif/dict"
)

// alike are families of strings that are easily taken for one another: by
// letter case, white space, numeric value, a common prefix, an unusual encoding,
// the way they are put together, or their hash.
var alike = [][]B{
	{"key", "KEY", "Key", "kEy", "KEy"},
	{"k", "k ", " k", "k\x00", "\x00k", "k\n", "k\r\n", "k\t", "\"k\"", "'k'"},
	{"1", "01", "+1", "1.0", "-1", " 1", "1 ", "0x1", "1e0", "1_0", "10", "\x01"},
	{"0", "-0", "+0", "00", "", "0.0", "false", "nil", "(nil)", "null"},
	{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "09223372036854775807", "18446744073709551615", "-1"},
	{"é", "e\u0301", "\xe9", "\xc3", "\ufffd", "\xff", "\xfe", "É", "e"},
	{"日", "日本", "\xe6\x97", "\xe6\x97\xa5\xe6", "本"},
	{"\xff", "\xfe", "\x80", "\x81", "\ufffd", "\xff\xff", "\xc0\x80"},
	{"ab", "ba", "a", "b", "aba", "abb", "a\x00b", "a:b", "a,b", "a b"},
	{"a:b", "a", "b", "a:", ":b", "a:b:", "::"},
	{"Aa", "BB", "AaBB", "BBAa", "AaAa", "BBBB"},
	{"costarring", "liquid", "declinate", "macallums", "altarage", "zinke"},
	{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ", "gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf"},
	{"bwndur", "iuuhru", "yexydv", "jempyt", "ozozhd", "ryluqq"},
	{"plumless", "buckeroo", "hetairas", "mentioner", "ab", "bA"},
	{"abc", "acb", "bac", "bca", "cab", "cba"},
	{"global", "anonymous", "dummy string", "dummy", "", "set", "list", "hash"},
	{"\r\n", "\n", "\r", "\r\n\r\n", "", " "},
	{"$-1\r\n", "$-1", "*-1\r\n", "-1", "*0\r\n", ""},
}

// Pool draws two to six different strings that are alike.
func Pool(t *rapid.T) []B {
	var from []B
	if len(dict.Strings()) > 0 && rapid.IntRange(0, 4).Draw(t, "words") == 0 {
		// what is new in the code under test, and what looks like it
		seen := map[B]bool{}
		for i := 0; i < 12 && len(from) < 5; i++ {
			if w := Word(t, "pool"); !seen[w] {
				seen[w] = true
				from = append(from, w)
			}
		}
		if !seen["k"] {
			from = append(from, "k")
		}
		return from
	}
	k := rapid.IntRange(0, len(alike)+2).Draw(t, "family")
	if k < len(alike) {
		from = alike[k]
	} else {
		// a long common part in front, behind or on both sides
		n := Sized(t, "common", 200000, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 1023, 1024, 4096, 70000)
		c := rapid.SampledFrom([]string{"p", "\x00", "é"}).Draw(t, "of")
		p := strings.Repeat(c, n/len(c)+1)[:n]
		switch rapid.IntRange(0, 2).Draw(t, "where") {
		case 0:
			from = []B{B(p), B(p + "a"), B(p + "b"), B(p + "aa"), B(p[1:]), B(p + "\x00")}
		case 1:
			from = []B{B(p), B("a" + p), B("b" + p), B("aa" + p), B(p[1:]), B("\x00" + p)}
		default:
			from = []B{B(p + "a" + p), B(p + "b" + p), B(p + p), B(p + "A" + p), B(p + "\x00" + p)}
		}
	}
	perm := rapid.Permutation(from).Draw(t, "order")
	return perm[:min(len(perm), rapid.IntRange(2, 6).Draw(t, "pool"))]
}

// Of gives a generator that draws from the pool.
func Of(pool []B) func(*rapid.T, string) B {
	return func(t *rapid.T, label string) B { return rapid.SampledFrom(pool).Draw(t, label) }
}
