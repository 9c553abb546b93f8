// Package model is the reference model of the key-value store: plain Go maps
// and slices, told each command together with the reply the real system gave.
// Step says whether the reply is one the semantics allow and moves the model
// to the state that reply implies.
package model

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"vertexverif/resp"
)

// Documented error replies.
const (
	ENoCmd = "ERR no such command"
	EArg   = "ERR invalid argument"
	ENoKey = "ERR no such key"
	EInt   = "ERR value is not an integer or out of range"
	ERange = "ERR index out of range"
)

// Store is the model state. Each type has its own name space.
type Store struct {
	Str  map[string]string
	List map[string][]string
	Hash map[string]map[string]string
	Set  map[string]map[string]struct{}

	// Ambiguous is set after a command whose documented effect leaves two
	// states open (LTRIM with a range outside the list: unchanged or empty);
	// the caller must read the list back with LRANGE key 0 -1 at once.
	Ambiguous string
	ambig     bool
}

// New returns an empty store.
func New() *Store {
	return &Store{
		Str:  map[string]string{},
		List: map[string][]string{},
		Hash: map[string]map[string]string{},
		Set:  map[string]map[string]struct{}{},
	}
}

// Clone makes a deep copy.
func (s *Store) Clone() *Store {
	c := New()
	for k, v := range s.Str {
		c.Str[k] = v
	}
	for k, v := range s.List {
		c.List[k] = append([]string(nil), v...)
	}
	for k, v := range s.Hash {
		m := map[string]string{}
		for f, x := range v {
			m[f] = x
		}
		c.Hash[k] = m
	}
	for k, v := range s.Set {
		m := map[string]struct{}{}
		for f := range v {
			m[f] = struct{}{}
		}
		c.Set[k] = m
	}
	c.Ambiguous, c.ambig = s.Ambiguous, s.ambig
	return c
}

// Fingerprint is a canonical text of the observable state.
func (s *Store) Fingerprint() string {
	var sb strings.Builder
	for _, k := range sortedKeys(s.Str) {
		fmt.Fprintf(&sb, "S%q=%q;", k, s.Str[k])
	}
	for _, k := range sortedKeys(s.List) {
		if len(s.List[k]) > 0 {
			fmt.Fprintf(&sb, "L%q=%q;", k, s.List[k])
		}
	}
	for _, k := range sortedKeys(s.Hash) {
		if len(s.Hash[k]) > 0 {
			fmt.Fprintf(&sb, "H%q={", k)
			for _, f := range sortedKeys(s.Hash[k]) {
				fmt.Fprintf(&sb, "%q:%q,", f, s.Hash[k][f])
			}
			sb.WriteString("};")
		}
	}
	for _, k := range sortedKeys(s.Set) {
		if len(s.Set[k]) > 0 {
			fmt.Fprintf(&sb, "T%q=%q;", k, sortedKeys(s.Set[k]))
		}
	}
	return sb.String()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// NeedsResync reports a list whose content the last command left open.
func (s *Store) NeedsResync() (string, bool) { return s.Ambiguous, s.ambig }

// --- expectations on replies

func wantErr(r resp.Value, codes ...string) error {
	if !r.IsErr() {
		return fmt.Errorf("reply %s, want an error %v", r, codes)
	}
	for _, c := range codes {
		if r.Str == c {
			return nil
		}
	}
	if len(codes) == 0 {
		return nil
	}
	return fmt.Errorf("reply %s, want error %v", r, codes)
}

func wantInt(r resp.Value, n int) error {
	if r.Kind != ':' || r.Int != int64(n) {
		return fmt.Errorf("reply %s, want integer %d", r, n)
	}
	return nil
}

func wantOK(r resp.Value) error {
	if r.Kind != '+' || r.Str != "OK" {
		return fmt.Errorf("reply %s, want OK", r)
	}
	return nil
}

func wantNull(r resp.Value) error {
	if r.Kind != '$' || !r.Null {
		return fmt.Errorf("reply %s, want null", r)
	}
	return nil
}

func wantBulk(r resp.Value, s string) error {
	if r.Kind != '$' || r.Null || r.Str != s {
		return fmt.Errorf("reply %s, want bulk %q", r, cut(s))
	}
	return nil
}

func wantMaybe(r resp.Value, s string, ok bool) error {
	if ok {
		return wantBulk(r, s)
	}
	return wantNull(r)
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// arrayItems accepts an array of non-null bulks (or a null or empty array).
func arrayItems(r resp.Value) ([]string, error) {
	if r.Kind != '*' {
		return nil, fmt.Errorf("reply %s, want an array", r)
	}
	var out []string
	for _, x := range r.Arr {
		if x.Kind != '$' || x.Null {
			return nil, fmt.Errorf("reply %s, want an array of strings", r)
		}
		out = append(out, x.Str)
	}
	return out, nil
}

func wantSeq(r resp.Value, want []string) error {
	got, err := arrayItems(r)
	if err != nil {
		return err
	}
	if !eq(got, want) {
		return fmt.Errorf("reply %q, want %q", got, want)
	}
	return nil
}

func wantBag(r resp.Value, want []string) error {
	got, err := arrayItems(r)
	if err != nil {
		return err
	}
	g := append([]string(nil), got...)
	w := append([]string(nil), want...)
	sort.Strings(g)
	sort.Strings(w)
	if !eq(g, w) {
		return fmt.Errorf("reply (sorted) %q, want in any order %q", g, w)
	}
	return nil
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func isInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// Segment resolves [l, r] as documented: negative counts from the end, the
// left end must exist, only the right end is clamped.
func Segment(l, r int64, size int) (int, int, bool) {
	n := int64(size)
	if l < 0 {
		l += n
	}
	if r < 0 {
		r += n
	}
	if l < 0 || r < 0 || l >= n || l > r {
		return 0, 0, false
	}
	if r >= n {
		r = n - 1
	}
	return int(l), int(r), true
}

// Known tells whether name (in any case) is a command.
func Known(name string) bool { return Modifies(name) || Reads(name) }

// Modifies tells whether the command may change state.
func Modifies(name string) bool {
	switch strings.ToLower(name) {
	case "set", "mset", "append", "incr", "incrby", "decr", "decrby",
		"lpop", "rpop", "linsert", "lpush", "rpush", "ltrim", "lrem", "lset",
		"hset", "hdel", "sadd", "srem", "spop":
		return true
	}
	return false
}

// Reads tells whether the command only reads.
func Reads(name string) bool {
	switch strings.ToLower(name) {
	case "get", "mget", "exists", "strlen", "getrange", "lindex", "llen", "lrange",
		"hget", "hexists", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen",
		"sismember", "smembers", "srandmember", "sdiff", "sinter", "sunion", "scard":
		return true
	}
	return false
}

// All lists every command name.
var All = []string{"set", "get", "mset", "mget", "exists", "strlen", "append", "incr", "incrby", "decr", "decrby", "getrange",
	"lpop", "rpop", "lindex", "linsert", "llen", "lpush", "rpush", "lrange", "ltrim", "lrem", "lset",
	"hset", "hget", "hexists", "hdel", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen",
	"sadd", "srem", "sismember", "smembers", "srandmember", "spop", "sdiff", "sinter", "sunion", "scard"}

// arityOK says whether the number of arguments (after the name) is right.
func arityOK(cmd string, n int) bool {
	switch cmd {
	case "get", "strlen", "incr", "decr", "lpop", "rpop", "llen", "hkeys", "hvals", "hgetall", "hlen", "smembers", "scard":
		return n == 1
	case "set", "append", "incrby", "decrby", "lindex", "hget", "hexists", "hstrlen", "sismember":
		return n == 2
	case "mset":
		return n >= 2 && n%2 == 0
	case "mget", "exists", "sdiff", "sinter", "sunion":
		return n >= 1
	case "getrange", "lrange", "ltrim", "lrem", "lset":
		return n == 3
	case "linsert":
		return n == 4
	case "lpush", "rpush", "hdel", "hmget", "sadd", "srem":
		return n >= 2
	case "hset":
		return n >= 3 && n%2 == 1
	case "srandmember", "spop":
		return n == 1 || n == 2
	}
	return false
}

// Step checks the reply to one command and applies the command.
func (s *Store) Step(args []string, r resp.Value) error {
	s.ambig = false
	if err := s.step(args, r); err != nil {
		return fmt.Errorf("%s: %w", Cmd(args), err)
	}
	return nil
}

// Cmd renders a command for messages.
func Cmd(args []string) string {
	var sb strings.Builder
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if len(a) > 60 {
			a = a[:60] + fmt.Sprintf("...(%d bytes)", len(a))
		}
		sb.WriteString(strconv.QuoteToASCII(a))
	}
	return sb.String()
}

func (s *Store) step(args []string, r resp.Value) error {
	if len(args) == 0 {
		return wantErr(r)
	}
	name := strings.ToLower(args[0])
	a := args[1:]
	if !Known(name) {
		return wantErr(r, ENoCmd)
	}
	if !arityOK(name, len(a)) {
		switch {
		case (name == "incr" || name == "decr") && len(a) > 1:
			// extra arguments are tolerated: either refused or ignored
			if r.IsErr() && r.Str == EArg {
				return nil
			}
			a = a[:1]
		case (name == "incrby" || name == "decrby") && len(a) == 1:
			// a missing operand is tolerated: either refused or one
			if r.IsErr() && r.Str == EArg {
				return nil
			}
			a = []string{a[0], "1"}
		default:
			if len(a) > 0 && a[0] == "" && r.IsErr() {
				// both the arity and the empty key are wrong
				return nil
			}
			return wantErr(r, EArg)
		}
	}
	switch name {
	// ---------------------------------------------------------- strings
	case "set":
		if err := wantOK(r); err != nil {
			return err
		}
		s.Str[a[0]] = a[1]
	case "mset":
		if err := wantOK(r); err != nil {
			return err
		}
		for i := 0; i < len(a); i += 2 {
			s.Str[a[i]] = a[i+1]
		}
	case "get":
		v, ok := s.Str[a[0]]
		return wantMaybe(r, v, ok)
	case "mget":
		if r.Kind != '*' || len(r.Arr) != len(a) {
			return fmt.Errorf("reply %s, want an array of %d", r, len(a))
		}
		for i, k := range a {
			v, ok := s.Str[k]
			if err := wantMaybe(r.Arr[i], v, ok); err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
	case "exists":
		n := 0
		for _, k := range a {
			if _, ok := s.Str[k]; ok {
				n++
			}
		}
		return wantInt(r, n)
	case "strlen":
		return wantInt(r, len(s.Str[a[0]]))
	case "append":
		v := s.Str[a[0]] + a[1]
		if err := wantInt(r, len(v)); err != nil {
			return err
		}
		s.Str[a[0]] = v
	case "getrange":
		l, ok1 := isInt(a[1])
		e, ok2 := isInt(a[2])
		if !ok1 || !ok2 {
			return wantErr(r, EArg)
		}
		v := s.Str[a[0]]
		i, j, ok := Segment(l, e, len(v))
		if !ok {
			return wantBulk(r, "")
		}
		return wantBulk(r, v[i:j+1])
	case "incr", "decr", "incrby", "decrby":
		d := int64(1)
		if name == "incrby" || name == "decrby" {
			x, ok := isInt(a[1])
			if !ok {
				return wantErr(r) // which error is not specified
			}
			d = x
		}
		v, ok := s.Str[a[0]]
		if !ok {
			return wantErr(r, ENoKey)
		}
		n, ok := isInt(v)
		if !ok {
			return wantErr(r, EInt)
		}
		b := big.NewInt(n)
		if strings.HasPrefix(name, "incr") {
			b.Add(b, big.NewInt(d))
		} else {
			b.Sub(b, big.NewInt(d))
		}
		if !b.IsInt64() {
			return wantErr(r, EInt)
		}
		if r.Kind != ':' || r.Int != b.Int64() {
			return fmt.Errorf("reply %s, want integer %d", r, b.Int64())
		}
		s.Str[a[0]] = b.String()

	// ---------------------------------------------------------- lists
	case "lpush", "rpush":
		k := a[0]
		if k == "" {
			return wantErr(r) // no list can be stored under the empty name
		}
		l := append([]string(nil), s.List[k]...)
		for _, x := range a[1:] {
			if name == "lpush" {
				l = append([]string{x}, l...)
			} else {
				l = append(l, x)
			}
		}
		if err := wantInt(r, len(l)); err != nil {
			return err
		}
		s.List[k] = l
	case "lpop", "rpop":
		l := s.List[a[0]]
		if len(l) == 0 {
			return wantNull(r)
		}
		if name == "lpop" {
			if err := wantBulk(r, l[0]); err != nil {
				return err
			}
			s.List[a[0]] = l[1:]
		} else {
			if err := wantBulk(r, l[len(l)-1]); err != nil {
				return err
			}
			s.List[a[0]] = l[:len(l)-1]
		}
	case "llen":
		return wantInt(r, len(s.List[a[0]]))
	case "lrange":
		b, ok1 := isInt(a[1])
		e, ok2 := isInt(a[2])
		if !ok1 || !ok2 {
			return wantErr(r, EArg)
		}
		l := s.List[a[0]]
		i, j, ok := Segment(b, e, len(l))
		if !ok {
			return wantSeq(r, nil)
		}
		return wantSeq(r, l[i:j+1])
	case "lindex":
		i, ok := isInt(a[1])
		if !ok {
			return wantErr(r, EArg)
		}
		l := s.List[a[0]]
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return wantNull(r)
		}
		return wantBulk(r, l[i])
	case "lset":
		i, ok := isInt(a[1])
		if !ok {
			return wantErr(r, EArg)
		}
		l := s.List[a[0]]
		if len(l) == 0 {
			return wantErr(r, ENoKey, ERange)
		}
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return wantErr(r, ERange)
		}
		if err := wantOK(r); err != nil {
			return err
		}
		n := append([]string(nil), l...)
		n[i] = a[2]
		s.List[a[0]] = n
	case "lrem":
		c, ok := isInt(a[1])
		if !ok {
			return wantErr(r, EArg)
		}
		l := s.List[a[0]]
		var keep []string
		var removed int
		limit := uint64(len(l)) + 1
		if c > 0 {
			limit = uint64(c)
		} else if c < 0 {
			limit = uint64(-(c + 1)) + 1
		}
		if c >= 0 {
			for _, x := range l {
				if x == a[2] && uint64(removed) < limit {
					removed++
				} else {
					keep = append(keep, x)
				}
			}
		} else {
			for i := len(l) - 1; i >= 0; i-- {
				if l[i] == a[2] && uint64(removed) < limit {
					removed++
				} else {
					keep = append(keep, l[i])
				}
			}
			for i, j := 0, len(keep)-1; i < j; i, j = i+1, j-1 {
				keep[i], keep[j] = keep[j], keep[i]
			}
		}
		if err := wantInt(r, removed); err != nil {
			return err
		}
		s.List[a[0]] = keep
	case "ltrim":
		b, ok1 := isInt(a[1])
		e, ok2 := isInt(a[2])
		if !ok1 || !ok2 {
			return wantErr(r, EArg)
		}
		if err := wantOK(r); err != nil {
			return err
		}
		l := s.List[a[0]]
		if i, j, ok := Segment(b, e, len(l)); ok {
			s.List[a[0]] = append([]string(nil), l[i:j+1]...)
		} else if len(l) > 0 {
			s.ambig, s.Ambiguous = true, a[0]
		}
	case "linsert":
		w := strings.ToLower(a[1])
		if w != "before" && w != "after" {
			return wantErr(r, EArg)
		}
		l := s.List[a[0]]
		for i, x := range l {
			if x == a[2] {
				if err := wantInt(r, len(l)+1); err != nil {
					return err
				}
				if w == "after" {
					i++
				}
				n := append([]string(nil), l[:i]...)
				n = append(n, a[3])
				s.List[a[0]] = append(n, l[i:]...)
				return nil
			}
		}
		if len(l) == 0 && r.Kind == ':' && r.Int == 0 {
			return nil
		}
		return wantInt(r, -1)

	// ---------------------------------------------------------- hashes
	case "hset":
		k := a[0]
		if k == "" {
			return wantErr(r)
		}
		added := 0
		m := map[string]string{}
		for f, v := range s.Hash[k] {
			m[f] = v
		}
		for i := 1; i < len(a); i += 2 {
			if _, ok := m[a[i]]; !ok {
				added++
			}
			m[a[i]] = a[i+1]
		}
		if err := wantInt(r, added); err != nil {
			return err
		}
		s.Hash[k] = m
	case "hget":
		if a[1] == "" && r.IsErr() {
			return wantErr(r, EArg)
		}
		v, ok := s.Hash[a[0]][a[1]]
		return wantMaybe(r, v, ok)
	case "hmget":
		if r.Kind != '*' || len(r.Arr) != len(a)-1 {
			return fmt.Errorf("reply %s, want an array of %d", r, len(a)-1)
		}
		for i, f := range a[1:] {
			v, ok := s.Hash[a[0]][f]
			if err := wantMaybe(r.Arr[i], v, ok); err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
	case "hexists":
		if a[1] == "" && r.IsErr() {
			return wantErr(r, EArg)
		}
		n := 0
		if _, ok := s.Hash[a[0]][a[1]]; ok {
			n = 1
		}
		return wantInt(r, n)
	case "hlen":
		return wantInt(r, len(s.Hash[a[0]]))
	case "hstrlen":
		if a[1] == "" && r.IsErr() {
			return wantErr(r, EArg)
		}
		return wantInt(r, len(s.Hash[a[0]][a[1]]))
	case "hkeys":
		return wantBag(r, sortedKeys(s.Hash[a[0]]))
	case "hvals":
		var vs []string
		for _, v := range s.Hash[a[0]] {
			vs = append(vs, v)
		}
		return wantBag(r, vs)
	case "hgetall":
		got, err := arrayItems(r)
		if err != nil {
			return err
		}
		m := s.Hash[a[0]]
		if len(got) != 2*len(m) {
			return fmt.Errorf("reply %s has %d items, want %d pairs", r, len(got), len(m))
		}
		seen := map[string]bool{}
		for i := 0; i < len(got); i += 2 {
			v, ok := m[got[i]]
			if !ok || seen[got[i]] || v != got[i+1] {
				return fmt.Errorf("reply %s: wrong pair %q %q", r, got[i], got[i+1])
			}
			seen[got[i]] = true
		}
	case "hdel":
		m := map[string]string{}
		for f, v := range s.Hash[a[0]] {
			m[f] = v
		}
		n := 0
		for _, f := range a[1:] {
			if _, ok := m[f]; ok {
				delete(m, f)
				n++
			}
		}
		if err := wantInt(r, n); err != nil {
			return err
		}
		s.Hash[a[0]] = m

	// ---------------------------------------------------------- sets
	case "sadd":
		k := a[0]
		if k == "" {
			return wantErr(r)
		}
		m := copySet(s.Set[k])
		n := 0
		for _, x := range a[1:] {
			if _, ok := m[x]; !ok {
				m[x] = struct{}{}
				n++
			}
		}
		if err := wantInt(r, n); err != nil {
			return err
		}
		s.Set[k] = m
	case "srem":
		if a[0] == "" && r.IsErr() {
			return nil
		}
		m := copySet(s.Set[a[0]])
		n := 0
		for _, x := range a[1:] {
			if _, ok := m[x]; ok {
				delete(m, x)
				n++
			}
		}
		if err := wantInt(r, n); err != nil {
			return err
		}
		s.Set[a[0]] = m
	case "sismember":
		if a[1] == "" && r.IsErr() {
			return wantErr(r, EArg)
		}
		n := 0
		if _, ok := s.Set[a[0]][a[1]]; ok {
			n = 1
		}
		return wantInt(r, n)
	case "smembers":
		return wantBag(r, sortedKeys(s.Set[a[0]]))
	case "scard":
		return wantInt(r, len(s.Set[a[0]]))
	case "spop", "srandmember":
		m := s.Set[a[0]]
		var got []string
		if len(a) == 2 {
			c, ok := isInt(a[1])
			if !ok {
				return wantErr(r, EArg)
			}
			var err error
			if got, err = arrayItems(r); err != nil {
				return err
			}
			want := uint64(c)
			if c < 0 {
				want = uint64(-(c + 1)) + 1
			}
			if want > uint64(len(m)) {
				want = uint64(len(m))
			}
			if uint64(len(got)) != want {
				return fmt.Errorf("reply %s has %d members, want %d", r, len(got), want)
			}
		} else {
			if len(m) == 0 {
				return wantNull(r)
			}
			if r.Kind != '$' || r.Null {
				return fmt.Errorf("reply %s, want a member", r)
			}
			got = []string{r.Str}
		}
		seen := map[string]bool{}
		for _, x := range got {
			if _, ok := m[x]; !ok || seen[x] {
				return fmt.Errorf("reply %s: %q is not a member or repeated", r, x)
			}
			seen[x] = true
		}
		if name == "spop" && len(got) > 0 {
			n := copySet(m)
			for _, x := range got {
				delete(n, x)
			}
			s.Set[a[0]] = n
		}
	case "sdiff", "sinter", "sunion":
		m := copySet(s.Set[a[0]])
		for _, k := range a[1:] {
			o := s.Set[k]
			switch name {
			case "sdiff":
				for x := range o {
					delete(m, x)
				}
			case "sinter":
				for x := range m {
					if _, ok := o[x]; !ok {
						delete(m, x)
					}
				}
			case "sunion":
				for x := range o {
					m[x] = struct{}{}
				}
			}
		}
		return wantBag(r, sortedKeys(m))
	}
	return nil
}

func copySet(m map[string]struct{}) map[string]struct{} {
	c := make(map[string]struct{}, len(m))
	for k := range m {
		c[k] = struct{}{}
	}
	return c
}

// Resync adopts the reply to LRANGE key 0 -1 after an ambiguous LTRIM.
func (s *Store) Resync(r resp.Value) error {
	got, err := arrayItems(r)
	if err != nil {
		return err
	}
	if len(got) != 0 && !eq(got, s.List[s.Ambiguous]) {
		return fmt.Errorf("after a trim outside the list, key %q holds %q: neither unchanged (%q) nor empty", s.Ambiguous, got, s.List[s.Ambiguous])
	}
	if len(got) == 0 {
		delete(s.List, s.Ambiguous)
	}
	s.ambig = false
	return nil
}

// DumpCommands are read commands that together show everything stored under
// the given keys; running them through Step compares the whole store.
func DumpCommands(keys []string) [][]string {
	var out [][]string
	if len(keys) > 0 {
		out = append(out, append([]string{"mget"}, keys...))
	}
	for _, k := range keys {
		out = append(out, []string{"exists", k}, []string{"lrange", k, "0", "-1"}, []string{"llen", k},
			[]string{"hgetall", k}, []string{"smembers", k})
	}
	return out
}
