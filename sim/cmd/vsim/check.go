package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// known is one accepted finding of the known-findings file.
type known struct {
	prop, class string
	detail      *regexp.Regexp
	what        string
}

// loadKnown reads lines "known: property=ID class=CLASS detail=/RE/ what".
// Lines starting with "fixed:" document repairs and suppress nothing.
func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	re := regexp.MustCompile(`^known: property=(\S+) class=(\S+) detail=/(.*)/ (.*)$`)
	var out []known
	for i, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		m := re.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("%s:%d: not understood", path, i+1)
		}
		d, err := regexp.Compile(m[3])
		if err != nil {
			return nil, fmt.Errorf("%s:%d: %w", path, i+1, err)
		}
		out = append(out, known{m[1], m[2], d, m[4]})
	}
	return out, nil
}

type stats struct {
	sync.Mutex
	runs, evals, nontriv, nontrivRuns int
	steps, yields                     uint64
	choices                           int
	virtual                           int64
	fired, probes                     map[string]int
	sites                             map[int]bool
	scheds, histories, ntHistories    map[uint64]bool
	outcomes                          map[string]int
	firstErr                          string
	raceReports                       int
}

func newStats() *stats {
	return &stats{fired: map[string]int{}, probes: map[string]int{}, sites: map[int]bool{}, scheds: map[uint64]bool{}, histories: map[uint64]bool{}, ntHistories: map[uint64]bool{}, outcomes: map[string]int{}}
}

func (s *stats) add(r *result) {
	s.Lock()
	defer s.Unlock()
	s.runs++
	s.outcomes[r.Outcome]++
	s.evals += r.Evals
	s.nontriv += r.Nontriv
	s.steps += r.Steps
	s.yields += r.Yields
	s.choices += r.Choices
	s.virtual += r.VirtualMs
	for k, v := range r.Fired {
		s.fired[k] += v
	}
	for k, v := range r.Probes {
		s.probes[k] += v
	}
	for _, k := range r.Sites {
		s.sites[k] = true
	}
	if r.Outcome == "ok" {
		s.scheds[r.SchedHash] = true
		h := r.EventHash*31 + r.SchedHash
		s.histories[h] = true
		if r.Nontriv > 0 {
			s.nontrivRuns++
			s.ntHistories[h] = true
		}
	}
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func verifDir() string { return filepath.Dir(simDir()) }

// check searches one property; it returns the exit status.
func check(prop, tier string) int {
	t0 := time.Now()
	info, ok := props[prop]
	if !ok {
		fail("no check for property %q", prop)
	}
	seed := envInt("VERIF_SEED", 1)
	knowns, err := loadKnown(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		fail("%v", err)
	}
	dir := scratch()
	node, err := build(dir, false)
	if err != nil {
		fail("%v", err)
	}
	built := time.Since(t0)
	limit, budget := info.quick, 300*time.Second
	if tier == "thorough" {
		limit, budget = 1<<30, time.Duration(envInt("VERIF_THOROUGH_S", 700))*time.Second
	}
	if v := envInt("VSIM_RUNS", 0); v > 0 {
		limit = v
	}
	rn := &runner{dir: dir, node: node, prop: prop, tier: tier}
	st := newStats()
	search := time.Now()
	fmt.Printf("%s %s: built in %.1fs, searching %d seeds\n", prop, tier, built.Seconds(), limit)

	type hit struct {
		i int
		r *result
	}
	var mu sync.Mutex
	var hits []hit
	knownSeen := map[string]int{}
	next, stop := 0, false
	base := uint64(uint32(seed)) << 32
	var wg sync.WaitGroup
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= limit || time.Since(search) > budget {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				r := rn.exec(nil, "run", prop, strconv.FormatUint(base+uint64(i), 10))
				r.Seed = base + uint64(i)
				st.add(r)
				switch {
				case r.Outcome == "ok":
				case r.Class != "" && (r.Outcome == "violation" || r.Outcome == "died"):
					if kn := matchKnown(knowns, prop, r); kn != nil {
						mu.Lock()
						knownSeen[kn.what]++
						mu.Unlock()
						continue
					}
					mu.Lock()
					hits = append(hits, hit{i, r})
					if len(hits) >= 4 {
						stop = true
					}
					mu.Unlock()
				default:
					st.Lock()
					if st.firstErr == "" {
						st.firstErr = fmt.Sprintf("seed %d: %s: %s", r.Seed, r.Outcome, r.Detail)
					}
					st.Unlock()
				}
				// One violation ends the search, after the seeds in flight.
				mu.Lock()
				if len(hits) > 0 {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(search)
	sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })

	// Confirm in a fresh process, minimise, write the replay file.
	viol := 0
	unrep := 0
	if extra := info.extra; extra != nil && len(hits) == 0 {
		v, err := extra(rn, st, tier, seed)
		if err != nil {
			fail("%v", err)
		}
		if v != "" {
			viol++
			fmt.Println(v)
		}
	}
	for _, h := range hits {
		path, cls, detail, err := confirm(rn, h.r)
		if err != nil && strings.HasSuffix(h.r.Class, ":hang") && strings.HasPrefix(err.Error(), "got ok") {
			fmt.Fprintf(os.Stderr, "vsim: seed %d took long, but ended without a violation when repeated\n", h.r.Seed)
			continue
		}
		if err != nil {
			unrep++
			fmt.Fprintf(os.Stderr, "vsim: seed %d: %s was not reproduced: %v\n", h.r.Seed, h.r.Class, err)
			continue
		}
		viol++
		fmt.Printf("%s: %s\n", cls, detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		break
	}
	for _, kn := range knowns {
		if kn.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kn.what)
		}
	}
	det := determinism(rn, base, 6)
	samples := sample(rn, base, 3)
	writeEvidence(prop, tier, seed, info, st, viol, unrep, det, samples, time.Since(t0), searchWall, knownSeen)
	fmt.Printf("%s %s: %d runs (%v), %d checks, %d violations, %.1fs\n", prop, tier, st.runs, st.outcomes, st.evals, viol, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	bad := st.outcomes["error"] + st.outcomes["invalid"]
	for o, n := range st.outcomes {
		if o == "died" {
			bad += n
		}
	}
	if st.firstErr != "" {
		fmt.Fprintf(os.Stderr, "vsim: %d runs gave no verdict; first: %s\n", bad, st.firstErr)
	}
	if st.firstErr != "" || st.runs == 0 || unrep > 0 {
		return 2
	}
	return 0
}

func matchKnown(ks []known, prop string, r *result) *known {
	for i, k := range ks {
		if k.prop == prop && k.class == r.Class && k.detail.MatchString(r.Detail) {
			return &ks[i]
		}
	}
	return nil
}

// determinism re-executes seeds and compares the complete histories.
func determinism(rn *runner, base uint64, n int) map[string]int {
	out := map[string]int{"checked": 0, "differing": 0}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := strconv.FormatUint(base+uint64(i), 10)
			a := rn.exec(nil, "run", rn.prop, s)
			b := rn.exec(nil, "run", rn.prop, s)
			mu.Lock()
			defer mu.Unlock()
			out["checked"]++
			if a.EventHash != b.EventHash || a.SchedHash != b.SchedHash || a.Steps != b.Steps || a.Outcome != b.Outcome || a.VirtualMs != b.VirtualMs {
				out["differing"]++
			}
		}()
	}
	wg.Wait()
	return out
}

// sample writes out a few of the simulated executions.
func sample(rn *runner, base uint64, n int) (out []any) {
	for i := 0; i < n; i++ {
		r := rn.exec([]string{"SIM_LOG=1"}, "run", rn.prop, strconv.FormatUint(base+uint64(i), 10))
		l := r.Log
		if len(l) > 25 {
			l = l[:25]
		}
		for j := range l {
			if len(l[j]) > 300 {
				l[j] = l[j][:300]
			}
		}
		out = append(out, map[string]any{"seed": base + uint64(i), "outcome": r.Outcome, "checks": r.Evals, "faults": r.Fired, "virtual_ms": r.VirtualMs, "statements": r.Steps, "scheduling_choices": r.Choices, "history": l})
	}
	return
}

func writeEvidence(prop, tier string, seed int, info *propInfo, st *stats, viol, unrep int, det map[string]int, samples []any, wall, search time.Duration, knownSeen map[string]int) {
	perHour := float64(st.runs) / search.Hours()
	cov := map[string]any{
		"evaluations":                     st.evals,
		"distinct_nontrivial":             len(st.ntHistories),
		"rule":                            info.rule + " evaluations counts oracle evaluations; a run is non-trivial when " + info.nontriv + "; distinct means a different hash of (event history with virtual times, schedule).",
		"samples":                         samples,
		"simulated_runs":                  st.runs,
		"outcomes":                        st.outcomes,
		"seeds_per_hour":                  int(perHour),
		"first_seed":                      uint64(uint32(seed)) << 32,
		"simulated_time_s":                float64(st.virtual) / 1000,
		"faults_and_variations":           st.fired,
		"probes":                          st.probes,
		"distinct_schedules":              len(st.scheds),
		"distinct_histories":              len(st.histories),
		"scheduling_choices":              st.choices,
		"context_switches_at_statements":  st.yields,
		"library_statements_run":          st.steps,
		"library_statement_sites_reached": len(st.sites),
		"determinism":                     det,
		"unreproducible":                  unrep,
		"search_wall_s":                   search.Seconds(),
		"real_components":                 info.real,
		"stub_components":                 info.stubs,
	}
	if st.raceReports > 0 || info.extra != nil {
		cov["race_detector_runs"] = st.outcomes["race-run"]
	}
	if len(knownSeen) > 0 {
		cov["known_findings_seen"] = knownSeen
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": wall.Seconds(), "assumptions": info.assume, "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	d := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(d, 0755); err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(filepath.Join(d, prop+".json"), append(b, '\n'), 0644); err != nil {
		fail("%v", err)
	}
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	var s struct {
		Prop      string `json:"prop"`
		Violation struct{ Class, Detail string }
	}
	if err := json.Unmarshal(b, &s); err != nil {
		fail("%v", err)
	}
	dir := scratch()
	node, err := build(dir, strings.Contains(s.Violation.Class, ":race"))
	if err != nil {
		fail("%v", err)
	}
	abs, err := filepath.Abs(path)
	if err != nil {
		fail("%v", err)
	}
	rn := &runner{dir: dir, node: node, prop: s.Prop, tier: "quick", race: strings.Contains(s.Violation.Class, ":race")}
	r := rn.exec([]string{"SIM_LOG=1"}, "exec", abs)
	for _, l := range r.Log {
		fmt.Println(l)
	}
	if rn.race {
		if rep := raceReport(r.Stderr); rep != "" {
			r.Outcome, r.Class, r.Detail = "violation", s.Prop+":race", rep
		}
	}
	fmt.Printf("outcome %s %s\n%s\n", r.Outcome, r.Class, r.Detail)
	if r.Class != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.Prop, path)
		return 1
	}
	if r.Outcome != "ok" {
		return 2
	}
	return 0
}
