package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"sync"
	"time"
)

// confirm reproduces a violation from its scenario file in fresh processes,
// minimises the scenario and its schedule, and writes the replay file.
func confirm(rn *runner, r *result) (path, class, detail string, err error) {
	d := rn.dump(r.Seed)
	if d == nil {
		return "", "", "", fmt.Errorf("scenario cannot be dumped")
	}
	class, detail = r.Class, r.Detail
	if _, got := rn.try(d); got.Class != class {
		if _, got = rn.try(d); got.Class != class {
			return "", "", "", fmt.Errorf("got %s %s %s", got.Outcome, got.Class, got.Detail)
		}
	}
	sh := &shrinker{rn: rn, class: class, shape: shape(detail), deadline: time.Now().Add(time.Duration(envInt("VSIM_SHRINK_S", 25)) * time.Second)}
	small := sh.run(d)
	_, got := rn.try(small)
	if got.Class != class {
		small = d
	} else {
		detail = got.Detail
	}
	if m, ok := small.(map[string]any); ok {
		m["violation"] = map[string]any{"class": class, "detail": detail, "found_at_seed": r.Seed, "shrink_attempts": sh.tries}
	}
	b, err := json.MarshalIndent(small, "", " ")
	if err != nil {
		return "", "", "", err
	}
	dir := filepath.Join(verifDir(), "replays")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", "", "", err
	}
	path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", rn.prop, r.Seed))
	return path, class, detail, os.WriteFile(path, append(b, '\n'), 0644)
}

// dump is the scenario of a seed as generic JSON.
func (r *runner) dump(seed uint64) any {
	f := filepath.Join(r.dir, "dump.json")
	res := r.exec([]string{"SIM_DUMP=" + f}, "dump", r.prop, strconv.FormatUint(seed, 10))
	_ = res
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var v any
	if unmarshal(b, &v) != nil {
		return nil
	}
	return v
}

// unmarshal keeps numbers exact.
func unmarshal(b []byte, v *any) error {
	d := json.NewDecoder(bytesReader(b))
	d.UseNumber()
	return d.Decode(v)
}

var tryMu sync.Mutex
var trySeq int

// try executes a scenario.
func (r *runner) try(v any) (trace []int, res *result) {
	return r.tryEnv(v)
}

func (r *runner) tryEnv(v any, env ...string) ([]int, *result) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, &result{Outcome: "error"}
	}
	tryMu.Lock()
	trySeq++
	f := filepath.Join(r.dir, fmt.Sprintf("try%d.json", trySeq))
	tryMu.Unlock()
	if os.WriteFile(f, b, 0644) != nil {
		return nil, &result{Outcome: "error"}
	}
	defer os.Remove(f)
	res := r.exec(env, "exec", f)
	if r.race && res.Outcome == "ok" {
		if rep := raceReport(res.Stderr); rep != "" {
			res.Outcome, res.Class, res.Detail = "violation", r.prop+":race", rep
		}
	}
	return res.Trace, res
}

type shrinker struct {
	rn       *runner
	class    string
	shape    string
	deadline time.Time
	tries    int
}

// shape is a violation's message without its particulars; a smaller scenario
// must show the violation in the same shape.
func shape(detail string) string {
	if m := labelRE.FindStringIndex(detail); m != nil && m[0] == 0 {
		detail = detail[m[1]:]
	}
	detail = quotedRE.ReplaceAllString(detail, "Q")
	detail = numRE.ReplaceAllString(detail, "N")
	if len(detail) > 100 {
		detail = detail[:100]
	}
	return detail
}

var (
	labelRE  = regexp.MustCompile(`^actor \d+ step \d+ \([^)]*\):? `)
	quotedRE = regexp.MustCompile(`"(\\.|[^"\\])*"`)
	numRE    = regexp.MustCompile(`-?\d+`)
)

func (s *shrinker) same(r *result) bool { return r.Class == s.class && shape(r.Detail) == s.shape }

func (s *shrinker) over() bool { return time.Now().After(s.deadline) }

func clone(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = clone(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = clone(e)
		}
		return l
	}
	return v
}

// first executes candidates in parallel and returns the first (in order) that
// still shows the violation.
func (s *shrinker) first(cands []any) any {
	w := workers()
	for i := 0; i < len(cands) && !s.over(); i += w {
		j := min(i+w, len(cands))
		ok := make([]bool, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, r := s.rn.try(cands[k])
				ok[k-i] = s.same(r)
			}()
		}
		wg.Wait()
		s.tries += j - i
		for k := range ok {
			if ok[k] {
				return cands[i+k]
			}
		}
	}
	return nil
}

func (s *shrinker) run(v any) any {
	// The schedule first: plain FIFO, then an explicit list of choices.
	v = s.schedule(v)
	for pass := 0; pass < 6 && !s.over(); pass++ {
		before, _ := json.Marshal(v)
		v = s.structure(v)
		v = s.scalars(v)
		after, _ := json.Marshal(v)
		if string(before) == string(after) {
			break
		}
	}
	return s.schedule(v)
}

func (s *shrinker) schedule(v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	sc, _ := m["sched"].(map[string]any)
	if sc == nil {
		return v
	}
	with := func(sched map[string]any) any {
		c := clone(v).(map[string]any)
		c["sched"] = sched
		return c
	}
	var cands []any
	if len(sc) > 0 {
		cands = append(cands, with(map[string]any{}))
		if y, ok := sc["yield_in"]; ok {
			cands = append(cands, with(map[string]any{"yield_in": y}))
			if sc["random"] == true {
				cands = append(cands, with(map[string]any{"random": true}))
			}
		}
	}
	if c := s.first(cands); c != nil {
		v = c
		m = v.(map[string]any)
		sc, _ = m["sched"].(map[string]any)
	}
	if sc == nil {
		return v
	}
	if sc["random"] == true {
		tr, r := s.rn.tryEnv(v, "SIM_TRACE=1")
		if !s.same(r) || len(tr) == 0 {
			return v
		}
		list := make([]any, len(tr))
		for i, c := range tr {
			list[i] = json.Number(strconv.Itoa(c))
		}
		ns := map[string]any{"list": list}
		if y, ok := sc["yield_in"]; ok {
			ns["yield_in"] = y
		}
		c := with(ns)
		if _, r := s.rn.try(c); !s.same(r) {
			return v
		}
		v, sc = c, ns
	}
	list, _ := sc["list"].([]any)
	if len(list) == 0 {
		return v
	}
	set := func(l []any) any {
		for len(l) > 0 && fmt.Sprint(l[len(l)-1]) == "0" {
			l = l[:len(l)-1]
		}
		ns := map[string]any{}
		for k, e := range sc {
			ns[k] = e
		}
		if len(l) > 0 {
			ns["list"] = l
		} else {
			delete(ns, "list")
		}
		c := clone(v).(map[string]any)
		c["sched"] = ns
		return c
	}
	// Truncate, then zero ever smaller blocks of choices.
	for !s.over() {
		var cs []any
		for _, k := range []int{len(list) / 16, len(list) / 4, len(list) / 2, len(list) * 3 / 4, len(list) * 15 / 16} {
			if k < len(list) {
				cs = append(cs, set(list[:k]))
			}
		}
		c := s.first(cs)
		if c == nil {
			break
		}
		v = c
		sc = c.(map[string]any)["sched"].(map[string]any)
		list, _ = sc["list"].([]any)
		if len(list) == 0 {
			return v
		}
	}
	for block := len(list) / 2; block >= 1 && !s.over(); block /= 2 {
		for at := 0; at < len(list) && !s.over(); {
			var cs []any
			var ends []int
			for k := 0; k < workers() && at < len(list); k++ {
				e := min(at+block, len(list))
				l := append([]any(nil), list...)
				change := false
				for i := at; i < e; i++ {
					if fmt.Sprint(l[i]) != "0" {
						l[i] = json.Number("0")
						change = true
					}
				}
				if change {
					cs = append(cs, set(l))
					ends = append(ends, e)
				}
				at = e
			}
			if c := s.first(cs); c != nil {
				v = c
				sc = c.(map[string]any)["sched"].(map[string]any)
				list, _ = sc["list"].([]any)
			}
		}
		if len(list) == 0 {
			break
		}
		block = min(block, len(list))
	}
	return v
}

// path into a JSON value.
type step struct {
	key string
	idx int
}

func walk(v any, p []step, f func(p []step, v any)) {
	f(p, v)
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(x[k], append(append([]step(nil), p...), step{k, -1}), f)
		}
	case []any:
		for i := range x {
			walk(x[i], append(append([]step(nil), p...), step{"", i}), f)
		}
	}
}

// edit returns a copy of v with the value at p replaced by f(value); f
// returning drop removes it.
func edit(v any, p []step, f func(any) (any, bool)) any {
	if len(p) == 0 {
		n, _ := f(v)
		return n
	}
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = e
		}
		if len(p) == 1 {
			if n, keep := f(m[p[0].key]); keep {
				m[p[0].key] = n
			} else {
				delete(m, p[0].key)
			}
		} else {
			m[p[0].key] = edit(m[p[0].key], p[1:], f)
		}
		return m
	case []any:
		l := append([]any(nil), x...)
		if p[0].idx >= len(l) {
			return v
		}
		if len(p) == 1 {
			if n, keep := f(l[p[0].idx]); keep {
				l[p[0].idx] = n
			} else {
				l = append(l[:p[0].idx], l[p[0].idx+1:]...)
			}
		} else {
			l[p[0].idx] = edit(l[p[0].idx], p[1:], f)
		}
		return l
	}
	return v
}

var frozen = map[string]bool{"prop": true, "seed": true, "sched": true, "violation": true}

// structure removes list elements and object members.
func (s *shrinker) structure(v any) any {
	for again := true; again && !s.over(); {
		again = false
		type target struct {
			p    []step
			size int
			lo   int
			hi   int // list range; hi<0: a member
		}
		var ts []target
		walk(v, nil, func(p []step, e any) {
			if len(p) > 0 && frozen[p[0].key] {
				return
			}
			if l, ok := e.([]any); ok && len(l) > 0 {
				for b := len(l); b >= 1; b /= 2 {
					for i := 0; i < len(l); i += b {
						ts = append(ts, target{p, b * 50, i, min(i+b, len(l))})
					}
				}
			}
			if len(p) > 0 && p[len(p)-1].key != "" {
				switch e.(type) {
				case map[string]any, []any:
					ts = append(ts, target{p, 40, 0, -1})
				}
			}
		})
		sort.SliceStable(ts, func(i, j int) bool {
			if len(ts[i].p) != len(ts[j].p) {
				return len(ts[i].p) < len(ts[j].p)
			}
			return ts[i].size > ts[j].size
		})
		for i := 0; i < len(ts) && !s.over(); i += 64 {
			var cs []any
			for _, t := range ts[i:min(i+64, len(ts))] {
				if t.hi < 0 {
					cs = append(cs, edit(v, t.p, func(any) (any, bool) { return nil, false }))
				} else {
					cs = append(cs, edit(v, t.p, func(e any) (any, bool) {
						l := e.([]any)
						n := append(append([]any{}, l[:t.lo]...), l[t.hi:]...)
						return n, true
					}))
				}
			}
			if c := s.first(cs); c != nil {
				v = c
				again = true
				break
			}
		}
	}
	return v
}

// scalars simplifies numbers, strings and flags.
func (s *shrinker) scalars(v any) any {
	type target struct {
		p []step
		n any
		d bool
	}
	for again := true; again && !s.over(); {
		again = false
		var ts []target
		walk(v, nil, func(p []step, e any) {
			if len(p) == 0 || frozen[p[0].key] {
				return
			}
			key := p[len(p)-1].key
			switch x := e.(type) {
			case bool:
				if key != "" {
					ts = append(ts, target{p, nil, true})
				}
			case json.Number:
				n, err := x.Int64()
				if err != nil || n == 0 {
					return
				}
				if key != "" {
					ts = append(ts, target{p, nil, true})
				}
				if n > 1 || n < 0 {
					ts = append(ts, target{p, json.Number(strconv.FormatInt(n/2, 10)), false})
				}
			case string:
				if x == "" || key == "key" || key == "op" || key == "t" {
					return
				}
				if key != "" {
					ts = append(ts, target{p, nil, true})
				}
				if r := []rune(x); len(r) > 1 {
					ts = append(ts, target{p, string(r[:len(r)/2]), false}, target{p, string(r[len(r)/2:]), false})
				}
			}
		})
		for i := 0; i < len(ts) && !s.over(); i += 64 {
			var cs []any
			for _, t := range ts[i:min(i+64, len(ts))] {
				cs = append(cs, edit(v, t.p, func(any) (any, bool) { return t.n, !t.d }))
			}
			if c := s.first(cs); c != nil {
				v = c
				again = true
				break
			}
		}
	}
	return v
}
