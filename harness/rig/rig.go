// Package rig is what the drivers have in common: the list of cases, and the
// record of what was observed.
package rig

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Rig drives the cases of one property.
type Rig struct {
	Prop   string
	Tier   string
	Seed   int64
	Only   int // replay a single case
	Out    string
	Now    string // file that holds the current case
	mu     sync.Mutex
	Case   int
	Evals  int
	Seen   map[uint64]bool
	Counts map[string]int
	Sample []string
	Viol   []Violation
	Known  map[string]bool
	Shard  string
	shard  int
	shards int
	curr   string
	began  time.Time
	start  time.Time
}

// What a case can't possibly take: they take milliseconds.
const (
	tooLong = 150 * time.Second
	tooMuch = 5 << 30
)

// Violation of the property.
type Violation struct {
	Case   int
	Kind   string
	Detail string
	Spec   any
}

// New parses the command line.
func New() *Rig {
	r := &Rig{Seen: map[uint64]bool{}, Counts: map[string]int{}, Known: map[string]bool{}}
	flag.StringVar(&r.Prop, "prop", "", "property")
	flag.StringVar(&r.Tier, "tier", "quick", "tier")
	flag.Int64Var(&r.Seed, "seed", 1, "seed")
	flag.IntVar(&r.Only, "case", -1, "only this case")
	flag.StringVar(&r.Out, "out", "", "result file")
	flag.StringVar(&r.Now, "now", "", "current case file")
	flag.StringVar(&r.Shard, "shard", "0/1", "which of the cases: i/n")
	flag.Parse()

	if _, err := fmt.Sscanf(r.Shard, "%d/%d", &r.shard, &r.shards); err != nil || r.shards < 1 {
		panic("shard")
	}

	r.start, r.began = time.Now(), time.Now()

	go r.watch()

	return r
}

// watch for a case that does not end, or consumes everything.
func (r *Rig) watch() {
	var m runtime.MemStats

	for range time.Tick(time.Second) {
		r.mu.Lock()
		long := time.Since(r.began) > tooLong
		r.mu.Unlock()

		if runtime.ReadMemStats(&m); !long && m.HeapAlloc < tooMuch {
			continue
		}

		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]

		r.Fail("hang", fmt.Sprintf("does not end (heap %d MB)\n%s", m.HeapAlloc>>20, buf), nil)
		r.Done()
		os.Exit(0)
	}
}

// N scales the number of cases by tier.
func (r *Rig) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return 50 * thorough
	}

	if n, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil && n > 0 { // development only
		return n * quick
	}

	return 25 * quick
}

// Cases runs fn for n cases; each has its own seed. Stops after a few
// violations.
func (r *Rig) Cases(name string, n int, fn func(seed int64)) {
	for i := range n {
		r.Case++
		if r.Only >= 0 && r.Only != r.Case || r.Only < 0 && r.Case%r.shards != r.shard {
			continue
		}

		if time.Since(r.start) > r.budget() {
			r.Count("cases left out for lack of time", 1)
			continue
		}

		r.mu.Lock()
		r.began = time.Now()
		r.mu.Unlock()

		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%s/%d", r.Seed, r.Prop, name, i)
		r.curr = fmt.Sprintf("%s[%d]", name, i)

		if r.Now != "" {
			_ = os.WriteFile(r.Now, []byte(fmt.Sprintf("%d %s", r.Case, r.curr)), 0o644)
		}

		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Fail("harness", fmt.Sprintf("panic: %v\n%s", p, debug.Stack()), nil)
				}
			}()
			fn(int64(h.Sum64() >> 1))
		}()

		if len(r.Viol) >= 5 {
			break
		}
	}
}

func (r *Rig) budget() time.Duration {
	if r.Tier == "thorough" {
		return 2 * time.Hour
	}

	return 8 * time.Minute
}

// Fail records a violation.
func (r *Rig) Fail(kind, detail string, spec any) {
	r.mu.Lock()
	defer r.mu.Unlock()

	if len(r.Viol) < 20 {
		r.Viol = append(r.Viol, Violation{Case: r.Case, Kind: r.curr + " " + kind, Detail: detail, Spec: spec})
	}
}

// Observe one evaluation of the oracle: what identifies the situation.
func (r *Rig) Observe(what ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evals++

	h := fnv.New64a()
	for _, w := range what {
		h.Write([]byte(w))
		h.Write([]byte{0})
	}

	if k := h.Sum64(); !r.Seen[k] {
		r.Seen[k] = true

		if len(r.Sample) < 5 {
			s := strings.Join(what, " ; ")
			if len(s) > 400 {
				s = s[:400] + "..."
			}

			r.Sample = append(r.Sample, r.curr+": "+s)
		}
	}
}

// Count something that was observed.
func (r *Rig) Count(k string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Counts[k] += n
}

// Diff two renderings; empty if equal.
func Diff(want, got []string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}

	if i == len(want) && i == len(got) {
		return ""
	}

	var b strings.Builder
	fmt.Fprintf(&b, "differs at #%d (of %d expected, %d observed)\n", i, len(want), len(got))

	for j := max(0, i-3); j < i; j++ {
		fmt.Fprintf(&b, "      same: %s\n", want[j])
	}

	for j := i; j < min(len(want), i+4); j++ {
		fmt.Fprintf(&b, "  expected: %s\n", want[j])
	}

	for j := i; j < min(len(got), i+4); j++ {
		fmt.Fprintf(&b, "  observed: %s\n", got[j])
	}

	return b.String()
}

// Equal compares and fails.
func (r *Rig) Equal(kind string, want, got []string, spec any) bool {
	if d := Diff(want, got); d != "" {
		r.Fail(kind, d, spec)
		return false
	}

	return true
}

// Same compares two values and fails.
func (r *Rig) Same(kind string, want, got any, spec any) bool {
	if w, g := fmt.Sprint(want), fmt.Sprint(got); w != g {
		r.Fail(kind, fmt.Sprintf("  expected: %s\n  observed: %s\n", w, g), spec)
		return false
	}

	return true
}

// Sorted copy.
func Sorted(xs []string) []string {
	xs = append([]string{}, xs...)
	sort.Strings(xs)

	return xs
}

// Done writes the result.
func (r *Rig) Done() {
	r.mu.Lock()
	defer r.mu.Unlock()

	seen := make([]string, 0, len(r.Seen))
	for k := range r.Seen {
		seen = append(seen, fmt.Sprintf("%x", k))
	}

	b, err := json.MarshalIndent(map[string]any{
		"prop": r.Prop, "cases": r.Case, "evals": r.Evals, "distinct": len(r.Seen), "seen": seen,
		"counts": r.Counts, "samples": r.Sample, "violations": r.Viol, "known": r.Known,
	}, "", " ")
	if err != nil {
		panic(err)
	}

	if r.Out == "" {
		fmt.Println(string(b))
	} else if err := os.WriteFile(r.Out, b, 0o644); err != nil {
		panic(err)
	}
}

// Current case's name, without its number.
func (r *Rig) Current() string { s, _, _ := strings.Cut(r.curr, "["); return s }
