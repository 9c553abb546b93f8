package h

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Env carries what the driver (check.py) passes to a shard.
type Env struct {
	Out      string  // directory for stats, hashes and replays
	Seed     uint64  // already specific to the shard
	Shard    int     // shard number
	Scale    float64 // multiplies the number of cases of every property
	Replay   string  // replay file: run that plan only
	Deadline time.Time
	Thorough bool
	GenOnly  bool // for trying the generators out: nothing is run
}

var env = readEnv()

func readEnv() Env {
	e := Env{Out: os.Getenv("VERIF_OUT"), Replay: os.Getenv("VERIF_REPLAY"), Scale: 1, Seed: 1}
	if e.Out == "" {
		e.Out = os.TempDir()
	}
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SHARD_SEED"), 10, 64); err == nil {
		e.Seed = s
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SHARD")); err == nil {
		e.Shard = s
	}
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil {
		e.Scale = s
	}
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET_S"), 64); err == nil {
		e.Deadline = time.Now().Add(time.Duration(s * float64(time.Second)))
	}
	e.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	e.GenOnly = os.Getenv("VERIF_GENONLY") != ""
	return e
}

// GetEnv returns the shard's environment.
func GetEnv() Env { return env }

// Outcome of running one plan.
type Outcome struct {
	Violation  string   // non-empty: the property is broken, and how
	NonTrivial bool     // by the rule stated with the property
	Labels     []string // what the case exercised, counted in the evidence
	Steps      int      // operations executed in the case
}

// Fail makes an Outcome that reports a violation.
func Fail(format string, a ...interface{}) Outcome {
	return Outcome{Violation: fmt.Sprintf(format, a...), NonTrivial: true}
}

// Prop is one executable property over generated plans of type P.
type Prop[P any] struct {
	Name    string // sub-property, e.g. "roundtrip"
	Rule    string // how cases are made and which are non-trivial
	Cases   int    // cases per shard at scale 1
	Gen     func(t *rapid.T) P
	Run     func(p P) Outcome
	Journal bool // record each plan before running it (the process may die)
	Retries int  // in replay mode, how often to try a schedule-dependent plan
	Weight  float64
	// Shrink is an optional bound on shrinking time.
	Shrink time.Duration
	// Fixed plans run before the generated ones (regressions, corner cases).
	Fixed []P
}

type stat struct {
	Name        string                 `json:"name"`
	Rule        string                 `json:"rule"`
	Evaluations int                    `json:"evaluations"`
	NonTrivial  int                    `json:"nontrivial"`
	Steps       int                    `json:"steps"`
	Labels      map[string]int         `json:"labels"`
	Samples     []json.RawMessage      `json:"samples"`
	Violations  int                    `json:"violations"`
	TimedOut    bool                   `json:"stopped_by_time_budget"`
	WallS       float64                `json:"wall_s"`
	Extra       map[string]interface{} `json:"extra,omitempty"`
}

// Replay file contents.
type replayFile struct {
	Property  string          `json:"property"`
	Sub       string          `json:"sub"`
	Violation string          `json:"violation"`
	Plan      json.RawMessage `json:"plan"`
}

const maxSampleBytes = 1500
const maxHashes = 400000

// InternalError is panicked by harness code when the harness itself (not the
// code under test) cannot go on; it is never reported as a violation.
type InternalError struct{ Msg string }

// Internal aborts the run with a harness error.
func Internal(format string, a ...interface{}) {
	panic(InternalError{fmt.Sprintf(format, a...)})
}

func runSafe[P any](run func(P) Outcome, p P) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(InternalError); ok {
				panic(ie)
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "lxdlam/vertex") && !strings.Contains(st, "/repo/") {
				panic(fmt.Sprintf("harness panic: %v\n%s", r, st))
			}
			o = Fail("the code under test panicked: %v\n%s", r, trimStack(st))
		}
	}()
	return run(p)
}

// runCounted is runSafe that returns what went wrong in the harness itself.
func runCounted[P any](run func(P) Outcome, p P) (o Outcome, trouble any) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case InternalError:
			trouble = r
		case string:
			trouble = r
		default:
			panic(r)
		}
	}()
	return runSafe(run, p), nil
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var keep []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "lxdlam/vertex") || strings.Contains(lines[i], "/repo/") {
			keep = append(keep, strings.TrimSpace(lines[i]))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

// Check runs a property: fixed plans, then generated plans until the case
// count or the time budget is reached; or a single replayed plan.
func Check[P any](t *testing.T, id string, prop Prop[P]) {
	t.Run(prop.Name, func(t *testing.T) { check(t, id, prop) })
}

func check[P any](t *testing.T, id string, prop Prop[P]) {
	warpT = t
	if env.Replay != "" {
		replay(t, id, prop)
		return
	}
	start := time.Now()
	st := &stat{Name: prop.Name, Rule: prop.Rule, Labels: map[string]int{}}
	hashes := map[uint64]struct{}{}
	var mu sync.Mutex
	base := fmt.Sprintf("%s-%s-%d", id, prop.Name, env.Shard)
	replayPath := filepath.Join(env.Out, "replay-"+base+".json")
	curPath := filepath.Join(env.Out, "current-"+base+".json")

	one := func(p P) Outcome {
		raw, err := json.Marshal(p)
		if err != nil {
			panic(InternalError{"plan does not marshal: " + err.Error()})
		}
		cur := replayFile{Property: id, Sub: prop.Name, Violation: "the process running the code under test died or hung while executing this plan", Plan: raw}
		if prop.Journal {
			writeReplay(curPath, cur)
		}
		// a case that takes very long is journalled anyway: it may hang
		slow := time.AfterFunc(15*time.Second, func() { writeReplay(curPath, cur) })
		o, trouble := runCounted(prop.Run, p)
		slow.Stop()
		mu.Lock()
		defer mu.Unlock()
		if trouble != nil {
			// a case the harness could not carry out is no verdict on the code;
			// one is counted and left out, many are an error of the check
			fmt.Fprintf(os.Stderr, "harness trouble: %v\n", trouble)
			if st.Labels["harness trouble"]++; st.Labels["harness trouble"] > 5 {
				panic(trouble)
			}
			return Outcome{}
		}
		st.Evaluations++
		st.Steps += o.Steps
		if o.NonTrivial {
			st.NonTrivial++
			if len(hashes) < maxHashes {
				hashes[hash64(append([]byte(prop.Name), raw...))] = struct{}{}
			}
			if len(st.Samples) < 2 && len(raw) < maxSampleBytes {
				st.Samples = append(st.Samples, raw)
			}
		}
		seen := map[string]bool{}
		for _, l := range o.Labels {
			if !seen[l] {
				seen[l] = true
				st.Labels[l]++
			}
		}
		if o.Violation != "" {
			st.Violations++
			writeReplay(replayPath, replayFile{Property: id, Sub: prop.Name, Violation: o.Violation, Plan: raw})
		}
		return o
	}
	defer func() {
		st.WallS = time.Since(start).Seconds()
		saveStats(base, st, hashes)
		_ = os.Remove(curPath)
	}()

	if env.GenOnly {
		prop.Fixed = nil
	}
	for i, p := range prop.Fixed {
		if o := one(p); o.Violation != "" {
			t.Fatalf("fixed plan %d: %s", i, o.Violation)
		}
	}

	w := prop.Weight
	if w == 0 {
		w = 1
	}
	n := int(float64(prop.Cases)*env.Scale + 0.5)
	if n < 1 {
		n = 1
	}
	deadline := subDeadline(w)
	seed := env.Seed*1000003 + hash64([]byte(id+"/"+prop.Name))%1000000007
	if seed == 0 {
		seed = 1
	}
	setFlag("rapid.checks", strconv.Itoa(n))
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.nofailfile", "true")
	sh := prop.Shrink
	if sh == 0 {
		sh = 20 * time.Second
	}
	setFlag("rapid.shrinktime", sh.String())
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && !deadline.IsZero() && time.Now().After(deadline) {
			st.TimedOut = true
			return
		}
		p, ok := generate(prop.Gen, rt)
		if !ok {
			st.Labels["generator failed"]++
			return
		}
		if env.GenOnly {
			if _, err := json.Marshal(p); err != nil {
				panic(InternalError{"plan does not marshal: " + err.Error()})
			}
			return
		}
		o := one(p)
		if o.Violation != "" {
			failed = true
			rt.Fatalf("%s", o.Violation)
		}
	})
}

// generate draws a plan. A generator that trips over its own feet costs the case,
// not the verdict; the evidence counts it.
func generate[P any](gen func(*rapid.T) P, rt *rapid.T) (p P, ok bool) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case string, runtime.Error: // rapid's own signals are of other types
			if env.GenOnly {
				panic(r)
			}
			ok = false
		default:
			panic(r)
		}
	}()
	return gen(rt), true
}

// Weights of the sub-properties still to come share what is left of the budget.
var weightsLeft float64

// Plan announces the total weight of the Check calls of a test, so that each
// gets its share of the time budget.
func Plan(total float64) { weightsLeft = total }

func subDeadline(w float64) time.Time {
	if env.Deadline.IsZero() {
		return time.Time{}
	}
	left := time.Until(env.Deadline)
	share := 1.0
	if weightsLeft > w {
		share = w / weightsLeft
		weightsLeft -= w
	}
	return time.Now().Add(time.Duration(float64(left) * share))
}

func setFlag(name, v string) {
	if err := flag.Set(name, v); err != nil {
		panic(InternalError{err.Error()})
	}
}

func writeReplay(path string, r replayFile) {
	b, _ := json.MarshalIndent(r, "", " ")
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0644); err == nil {
		_ = os.Rename(tmp, path)
	}
}

func saveStats(base string, st *stat, hashes map[uint64]struct{}) {
	b, _ := json.Marshal(st)
	_ = os.WriteFile(filepath.Join(env.Out, "stats-"+base+".json"), b, 0644)
	hs := make([]uint64, 0, len(hashes))
	for x := range hashes {
		hs = append(hs, x)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	buf := make([]byte, 8*len(hs))
	for i, x := range hs {
		binary.LittleEndian.PutUint64(buf[8*i:], x)
	}
	_ = os.WriteFile(filepath.Join(env.Out, "hashes-"+base+".bin"), buf, 0644)
}

func replay[P any](t *testing.T, id string, prop Prop[P]) {
	b, err := os.ReadFile(env.Replay)
	if err != nil {
		panic(InternalError{err.Error()})
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		panic(InternalError{err.Error()})
	}
	if r.Property != id || r.Sub != prop.Name {
		t.Skip("replay file is for another property")
	}
	var p P
	if err := json.Unmarshal(r.Plan, &p); err != nil {
		panic(InternalError{err.Error()})
	}
	tries := prop.Retries
	if tries < 1 {
		tries = 1
	}
	for i := 0; i < tries; i++ {
		if o := runSafe(prop.Run, p); o.Violation != "" {
			fmt.Printf("REPLAYED (try %d): %s\n", i+1, o.Violation)
			writeReplay(filepath.Join(env.Out, "replay-"+id+"-"+prop.Name+"-0.json"), replayFile{Property: id, Sub: prop.Name, Violation: o.Violation, Plan: r.Plan})
			t.Fatalf("%s", o.Violation)
		}
	}
	fmt.Printf("replay: no violation in %d tries\n", tries)
}
