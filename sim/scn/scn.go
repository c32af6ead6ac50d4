// Package scn holds the simulated worlds: scenario files, their generators,
// their execution against the real library and command, and the oracles.
package scn

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/sim/model"
	"verif/sim/simhook"
	"verif/sim/simnet"
)

// Sched decides every scheduling choice of the run.
type Sched struct {
	List    []int `json:"list,omitempty"` // explicit choices
	Random  bool  `json:"random,omitempty"`
	YieldIn int   `json:"yield_in,omitempty"` // a scheduling point at one in N statements
}

// Zone is the simulated machine's time zone.
type Zone struct {
	Name   string `json:"name"`
	Offset int    `json:"offset"` // seconds
	// Later are changes of the zone, as by daylight saving.
	Later []ZoneChange `json:"later,omitempty"`
}

// ZoneChange is a change of the local time zone.
type ZoneChange struct {
	At     int64  `json:"at"` // in seconds from the start of the simulation
	Name   string `json:"name"`
	Offset int    `json:"offset"`
}

// location makes the zone in a simulation starting at the given time.
func (z *Zone) location(start int64) *time.Location {
	if len(z.Later) == 0 {
		return time.FixedZone(z.Name, z.Offset)
	}
	var times, idx, infos, abbrev []byte
	zone := func(name string, off int) {
		infos = binary.BigEndian.AppendUint32(infos, uint32(int32(off)))
		infos = append(infos, 0, byte(len(abbrev)))
		abbrev = append(append(abbrev, name...), 0)
	}
	zone(z.Name, z.Offset)
	last := int64(math.MinInt64)
	for i, c := range z.Later {
		if c.At <= last || len(z.Later) > 10 {
			Invalid("changes of the zone")
		}
		last = c.At
		times = binary.BigEndian.AppendUint64(times, uint64(start+c.At))
		idx = append(idx, byte(i+1))
		zone(c.Name, c.Offset)
	}
	header := func(times, infos, abbrev int) []byte {
		b := append([]byte("TZif2"), make([]byte, 15)...)
		for _, n := range []int{0, 0, 0, times, infos, abbrev} {
			b = binary.BigEndian.AppendUint32(b, uint32(n))
		}
		return b
	}
	b := append(header(0, 1, 1), 0, 0, 0, 0, 0, 0, 0) // the part for 32 bits
	b = append(b, header(len(idx), len(idx)+1, len(abbrev))...)
	b = append(append(append(append(b, times...), idx...), infos...), abbrev...)
	l, err := time.LoadLocationFromTZData("Simulated/Zone", append(b, "\n\n"...))
	if err != nil {
		Invalid("time zone: %v", err)
	}
	return l
}

// Scenario is one complete, replayable simulated execution.
type Scenario struct {
	Prop    string      `json:"prop"`
	Seed    uint64      `json:"seed"`
	Sched   Sched       `json:"sched"`
	Zone    *Zone       `json:"zone,omitempty"`
	Net     NetSpec     `json:"net,omitzero"`
	Servers []Server    `json:"servers,omitempty"`
	Clients []Client    `json:"clients,omitempty"`
	Actors  []*Actor    `json:"actors,omitempty"`
	Stream  *StreamSpec `json:"stream,omitempty"`
	CLI     *CLISpec    `json:"cli,omitempty"`
	Rand    *RandSpec   `json:"rand,omitempty"`
	Note    string      `json:"note,omitempty"`
}

// NetSpec is the behaviour of the simulated network.
type NetSpec struct {
	Default simnet.Plan   `json:"default,omitzero"`
	Plans   []simnet.Plan `json:"plans,omitempty"`
}

// Violation is one broken invariant.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Result is what one simulated execution reports.
type Result struct {
	Prop      string         `json:"prop"`
	Seed      uint64         `json:"seed"`
	Outcome   string         `json:"outcome"` // ok | violation | invalid | error
	Class     string         `json:"class,omitempty"`
	Detail    string         `json:"detail,omitempty"`
	Fired     map[string]int `json:"fired,omitempty"`
	Evals     int            `json:"evals"`
	Nontriv   int            `json:"nontriv"`
	Probes    map[string]int `json:"probes,omitempty"`
	Steps     uint64         `json:"steps"`
	Yields    uint64         `json:"yields"`
	Choices   int            `json:"choices"`
	SchedHash uint64         `json:"sched_hash"`
	EventHash uint64         `json:"event_hash"`
	VirtualMs int64          `json:"virtual_ms"`
	Sites     []int          `json:"sites,omitempty"`
	Trace     []int          `json:"trace,omitempty"`
	Log       []string       `json:"log,omitempty"`
}

// Prop is one property's search space and oracle.
type Prop struct {
	ID    string
	World func(s *Scenario, r *Run)
	Gen   func(g *G) *Scenario
}

var Props = map[string]*Prop{}

func reg(p *Prop) { Props[p.ID] = p }

// G is a scenario generator's source of choices.
type G struct {
	*rand.Rand
	Seed     uint64
	Thorough bool
}

func NewG(prop string, seed uint64, thorough bool) *G {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return &G{Rand: rand.New(rand.NewPCG(seed, h.Sum64())), Seed: seed, Thorough: thorough}
}

// One is true once in n.
func (g *G) One(n int) bool { return g.IntN(n) == 0 }

// Between returns a number in [a,b].
func (g *G) Between(a, b int) int { return a + g.IntN(b-a+1) }

func pick[T any](g *G, l []T) T { return l[g.IntN(len(l))] }

// wpick picks an index with the given weights.
func (g *G) wpick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := g.IntN(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Generate makes the scenario of a seed.
func Generate(prop string, seed uint64, thorough bool) (*Scenario, error) {
	p := Props[prop]
	if p == nil {
		return nil, fmt.Errorf("unknown property %s", prop)
	}
	g := NewG(prop, seed, thorough)
	s := p.Gen(g)
	s.Prop, s.Seed = prop, seed
	g.http2(s)
	return s, nil
}

// Run is a scenario in execution.
type Run struct {
	S       *Scenario
	Net     *simnet.Net
	V       []Violation
	Fired   map[string]int
	Probes  map[string]int
	Evals   int
	Nontriv int
	Start   time.Time // virtual
	Scratch string
	events  []string
	evhash  uint64
	LogOn   bool
	// KeepTrace asks for the schedule choices in the result.
	KeepTrace bool
	finish    func(r *Result)
	finished  bool
	goBase    int
}

// Violate records a broken invariant.
func (r *Run) Violate(class, format string, a ...any) {
	r.V = append(r.V, Violation{r.S.Prop + ":" + class, clip(fmt.Sprintf(format, a...), 2000)})
}

// Event adds to the history of the run.
func (r *Run) Event(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	// No lock: one processor, no switch in here, and a lock would order the
	// actors and so hide data races between them.
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %d %s", r.evhash, time.Since(r.Start), s)
	r.evhash = h.Sum64()
	if r.LogOn {
		r.events = append(r.events, fmt.Sprintf("%v %s", time.Since(r.Start), clip(s, 400)))
	}
}

func (r *Run) Fire(kind string) { r.Fired[kind]++ }

// Probe counts a rare condition.
func (r *Run) Probe(name string) { r.Probes[name]++ }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ErrInvalid marks scenarios that are not in the space (over-shrunk).
var ErrInvalid = errors.New("invalid scenario")

type invalid struct{ why string }

// Invalid aborts the run: the scenario is outside the space.
func Invalid(format string, a ...any) { panic(invalid{fmt.Sprintf(format, a...)}) }

// Execute runs a scenario in the current process and reports through done,
// which must end the process.
func Execute(s *Scenario, scratch string, keepTrace, logOn bool, done func(*Result)) {
	p := Props[s.Prop]
	r := &Run{S: s, Fired: map[string]int{}, Probes: map[string]int{}, Scratch: scratch, KeepTrace: keepTrace, LogOn: logOn}
	r.finish = done
	if p == nil {
		done(&Result{Outcome: "error", Detail: "unknown property " + s.Prop})
	}
	var list []uint8
	for _, c := range s.Sched.List {
		list = append(list, uint8(c))
	}
	capTrace := 0
	if keepTrace {
		capTrace = 1 << 17
	}
	simhook.YieldOneIn = uint32(s.Sched.YieldIn)
	simhook.Limit = 1 << 28
	runtime.SimStart(s.Seed, list, s.Sched.Random, capTrace)
	seedEntropy(s.Seed)
	runtime.SimBubble(func() {
		time.SimMono = true
		r.Start = time.Now()
		defer func() {
			if e := recover(); e != nil {
				if iv, ok := e.(invalid); ok {
					r.End("invalid", "", iv.why)
				}
				r.End("error", "", fmt.Sprintf("harness panic: %v\n%s", e, debug.Stack()))
			}
		}()
		p.World(s, r)
		r.Finish()
	})
}

// Finish ends the run with the recorded verdict.
func (r *Run) Finish() {
	if len(r.V) > 0 {
		v := r.V[0]
		// Deterministic choice of the class reported first.
		sort.SliceStable(r.V, func(i, j int) bool { return r.V[i].Class < r.V[j].Class })
		_ = v
		r.End("violation", r.V[0].Class, r.V[0].Detail)
	}
	r.End("ok", "", "")
}

// End reports the outcome; it does not return.
func (r *Run) End(outcome, class, detail string) {
	if r.finished {
		select {}
	}
	r.finished = true
	_, total, hash := runtime.SimSchedule()
	res := &Result{Prop: r.S.Prop, Seed: r.S.Seed, Outcome: outcome, Class: class, Detail: detail, Fired: r.Fired, Probes: r.Probes, Evals: r.Evals, Nontriv: r.Nontriv,
		Steps: simhook.Steps, Yields: simhook.Yields, Choices: total, SchedHash: hash, EventHash: r.evhash, VirtualMs: time.Since(r.Start).Milliseconds(), Log: r.events}
	if r.Net != nil {
		for k, n := range r.Net.Fired {
			res.Fired[k] += n
		}
		if r.LogOn {
			res.Log = append(res.Log, r.Net.Log...)
		}
	}
	for i, h := range simhook.Hit {
		if h {
			res.Sites = append(res.Sites, i)
		}
	}
	if r.KeepTrace {
		tr, _, _ := runtime.SimSchedule()
		// Trailing FIFO choices carry no information.
		for len(tr) > 0 && tr[len(tr)-1] == 0 {
			tr = tr[:len(tr)-1]
		}
		for _, c := range tr {
			res.Trace = append(res.Trace, int(c))
		}
	}
	r.finish(res)
	os.Exit(3)
}

// Horizon waits for all actors, at most d of virtual time; it reports whether
// they finished.
func (r *Run) Horizon(wg *sync.WaitGroup, d time.Duration) bool {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// guard runs f, converting a panic in the code under test to a string.
func guard(f func()) (crash string) {
	defer func() {
		if e := recover(); e != nil {
			if iv, ok := e.(invalid); ok {
				panic(iv)
			}
			if np, ok := e.(simhook.NoProgress); ok {
				crash = "no progress after " + fmt.Sprint(np.Steps) + " statements"
				return
			}
			st := string(debug.Stack())
			if !underTest(st) {
				panic(fmt.Sprintf("%v\n%s", e, st))
			}
			crash = fmt.Sprintf("panic: %v at %s", e, topFrame(st))
		}
	}()
	f()
	return ""
}

// underTest: the panic passed through the library or its command.
func underTest(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/aclindsa/") {
			return true
		}
		if strings.HasPrefix(l, "verif/sim/") && !strings.HasPrefix(l, "verif/sim/simhook") {
			return false
		}
	}
	return false
}

func topFrame(stack string) string {
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	ls := strings.Split(stack, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "github.com/aclindsa/ofxgo") {
			f := l
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			pos := ""
			if i+1 < len(ls) {
				pos = strings.TrimSpace(ls[i+1])
				if j := strings.Index(pos, " +0x"); j > 0 {
					pos = pos[:j]
				}
			}
			return f + " " + pos
		}
	}
	return "?"
}

func mustCheck(d *model.Doc, rq bool) {
	if err := model.CheckDoc(d, rq); err != nil {
		Invalid("%v", err)
	}
}

// Load reads a scenario file.
func Load(path string) (*Scenario, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var s Scenario
	if err := json.Unmarshal(b, &s); err != nil {
		return nil, err
	}
	return &s, nil
}
