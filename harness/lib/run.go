// Package lib is the shared part of the checks: reporting, launching the real om-core, fake matchmaking functions,
// generators and the reference models (oracles).
package lib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"sync"
	"time"
)

// Run is one execution of one check.
type Run struct {
	ID, Tier string
	Seed     int64
	Dir      string // scratch directory, removed by the caller
	Verif    string // /verif
	Bins     map[string]string
	Start    time.Time

	Rule        string
	Level       string
	Assumptions []string

	mu       sync.Mutex
	evals    int64
	counters map[string]int64
	maxes    map[string]int64
	distinct map[uint64]struct{}
	samples  []any
	nviol    int
	known    map[string]int
	done     bool
	cleanups []func()
	knownDB  map[string]string
	childOut string // component driver: where the report goes
}

// NewRun prepares a run.
func NewRun(id, tier string, seed int64, dir, verif string, bins map[string]string) *Run {
	r := &Run{ID: id, Tier: tier, Seed: seed, Dir: dir, Verif: verif, Bins: bins, Start: time.Now(), Level: "exploration",
		counters: map[string]int64{}, maxes: map[string]int64{}, distinct: map[uint64]struct{}{}, known: map[string]int{}, knownDB: map[string]string{}}
	r.loadKnown()
	return r
}

// Thorough tells whether the deep variant was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the size for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Rng makes an independent deterministic generator for a named part of the run.
func (r *Run) Rng(part string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", r.Seed, r.ID, part)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// OnExit registers a cleanup, run before the process ends.
func (r *Run) OnExit(f func()) { r.mu.Lock(); r.cleanups = append(r.cleanups, f); r.mu.Unlock() }

// Count adds to a named counter of the evidence.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += int64(n)
	r.mu.Unlock()
}

// Counter reads a counter.
func (r *Run) Counter(name string) int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.counters[name] }

// Max keeps the maximum of a measured value.
func (r *Run) Max(name string, v int64) {
	r.mu.Lock()
	if v > r.maxes[name] {
		r.maxes[name] = v
	}
	r.mu.Unlock()
}

// Eval records one judged case; sig identifies it; nontrivial ones are counted once per distinct sig.
func (r *Run) Eval(nontrivial bool, sig ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, sig...)
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Sample keeps a case for the evidence (the first few only).
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// WantSample tells whether more samples are wanted.
func (r *Run) WantSample() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.samples) < 6 }

func (r *Run) loadKnown() {
	f, err := os.ReadFile(filepath.Join(r.Verif, "known-findings.json"))
	if err != nil {
		return
	}
	var db struct {
		Findings []struct{ ID, Property, What string } `json:"findings"`
	}
	if json.Unmarshal(f, &db) == nil {
		for _, k := range db.Findings {
			if k.Property == r.ID {
				r.knownDB[k.ID] = k.What
			}
		}
	}
}

// Known reports a violation that has been identified as the known finding id; true if it is listed.
func (r *Run) Known(id string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.knownDB[id]; !ok {
		return false
	}
	r.known[id]++
	return true
}

func (r *Run) writeEvidence() {
	cov := map[string]any{
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule, "samples": r.samples,
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	obs := map[string]any{}
	for k, v := range r.counters {
		obs[k] = v
	}
	for k, v := range r.maxes {
		obs["max_"+k] = v
	}
	cov["observed"] = obs
	if len(r.known) > 0 {
		cov["known_findings_seen"] = r.known
	}
	ev := map[string]any{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"assumptions": r.Assumptions, "wall_s": time.Since(r.Start).Seconds(), "violations": r.nviol}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.Verif, "evidence", r.ID+".json"), append(b, '\n'), 0o644)
}

func (r *Run) exit(code int) {
	for i := len(r.cleanups) - 1; i >= 0; i-- {
		func() { defer func() { recover() }(); r.cleanups[i]() }()
	}
	os.Exit(code)
}

// Violate reports a violation with its witness and ends the run.
func (r *Run) Violate(kind string, detail any) {
	r.mu.Lock()
	if r.done {
		r.mu.Unlock()
		select {}
	}
	r.done = true
	if r.childOut != "" {
		r.childViolate(kind, detail)
	}
	r.nviol++
	dir := filepath.Join(r.Verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", r.ID, r.Tier, r.Seed))
	b, err := json.MarshalIndent(map[string]any{
		"property": r.ID, "kind": kind, "detail": detail, "seed": r.Seed, "tier": r.Tier,
		"replay":   fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", r.Seed, r.Tier, r.ID),
		"counters": r.counters, "after_s": time.Since(r.Start).Seconds(), "stack": string(debug.Stack()),
	}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%s: %+v", kind, detail))
	}
	os.WriteFile(p, append(b, '\n'), 0o644)
	r.writeEvidence()
	d, _ := json.Marshal(detail)
	if len(d) > 1500 {
		d = append(d[:1500], "..."...)
	}
	fmt.Printf("%s: %s\n", kind, d)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
	r.exit(1)
}

// Inconclusive ends the run without a verdict.
func (r *Run) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	if r.done {
		r.mu.Unlock()
		select {}
	}
	r.done = true
	if r.childOut != "" {
		c := r.childReport()
		c.Incon = fmt.Sprintf(format, a...)
		r.childWrite(c)
		r.exit(2)
	}
	fmt.Printf("INCONCLUSIVE property=%s: %s\n", r.ID, fmt.Sprintf(format, a...))
	r.exit(2)
}

// Finish ends a run that found no violation.
func (r *Run) Finish() {
	r.mu.Lock()
	if r.done {
		r.mu.Unlock()
		select {}
	}
	r.done = true
	if r.evals == 0 || len(r.distinct) == 0 {
		fmt.Printf("INCONCLUSIVE property=%s: nothing was observed\n", r.ID)
		r.exit(2)
	}
	ids := []string{}
	for k := range r.known {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (seen %d times)\n", r.ID, k, r.knownDB[k], r.known[k])
	}
	r.writeEvidence()
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", r.ID, r.Tier, r.Seed, r.evals, len(r.distinct), time.Since(r.Start).Seconds())
	r.exit(0)
}

// Await polls cond until it holds. It gives up (false) only after max time AND enough polls that a starved machine
// is not the reason.
func Await(max time.Duration, cond func() bool) bool {
	const step = 5 * time.Millisecond
	t0 := time.Now()
	need := int(max / step / 10)
	if need < 20 {
		need = 20
	}
	for n := 0; ; n++ {
		if cond() {
			return true
		}
		if time.Since(t0) > max && n >= need {
			return false
		}
		if time.Since(t0) > 3*max {
			return false
		}
		time.Sleep(step)
	}
}
