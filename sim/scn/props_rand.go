package scn

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	mrand "math/rand/v2"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/aclindsa/ofxgo"
)

// RandSpec is the behaviour of the system's source of randomness.
type RandSpec struct {
	Seed    uint64      `json:"seed,omitempty"`
	Short   int         `json:"short,omitempty"`    // at most this many bytes per read
	Yield   bool        `json:"yield,omitempty"`    // other goroutines may run during a read
	GapMs   int         `json:"gap_ms,omitempty"`   // a read takes up to this long
	FailIn  int         `json:"fail_in,omitempty"`  // one read in N fails
	Partial bool        `json:"partial,omitempty"`  // a failing read delivers some bytes first
	FailErr string      `json:"fail_err,omitempty"` // eof | io
	Dead    int         `json:"dead,omitempty"`     // after this many bytes every read fails
	Same    int         `json:"same,omitempty"`     // the source repeats one byte in its output this often
	Callers []RandCalls `json:"callers"`
}

// RandCalls is one goroutine that asks for ids.
type RandCalls struct {
	N       int `json:"n"`
	DelayMs int `json:"delay_ms,omitempty"`
}

// entropySource stands in for the operating system's generator and records
// which goroutine was given which bytes.
type entropySource struct {
	s     *RandSpec
	gen   *mrand.ChaCha8
	dec   *mrand.Rand
	given int
	by    map[uint64][]byte
	fails map[uint64]int
	r     *Run
}

func goid() uint64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return n
}

func (e *entropySource) Read(p []byte) (int, error) {
	id := goid()
	if e.s.GapMs > 0 {
		time.Sleep(time.Duration(e.dec.IntN(e.s.GapMs+1)) * time.Millisecond)
	}
	if e.s.Yield {
		runtime.Gosched()
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if e.s.Short > 0 {
		if k := 1 + e.dec.IntN(e.s.Short); k < n {
			n = k
			e.r.Fire("entropy-short")
		}
	}
	fail := e.s.FailIn > 0 && e.dec.IntN(e.s.FailIn) == 0
	if e.s.Dead > 0 && e.given >= e.s.Dead {
		fail, n = true, 0
	}
	if fail && !e.s.Partial {
		n = 0
	}
	e.gen.Read(p[:n])
	if e.s.Same > 0 {
		for i := range p[:n] {
			if (e.given+i)%e.s.Same == 0 {
				p[i] = 0
			}
		}
	}
	e.given += n
	e.by[id] = append(e.by[id], p[:n]...)
	if fail {
		e.r.Fire("entropy-fail")
		e.fails[id]++
		if e.s.FailErr == "eof" {
			return n, io.EOF
		}
		return n, errDevice
	}
	if e.s.Yield {
		runtime.Gosched()
	}
	return n, nil
}

// errFatal marks the point where the process would have ended.
type errFatal struct{ err error }

type uidRec struct {
	caller, call int
	uid          string
	err          error
	nilUID       bool
	fatal        bool
	crash        string
	drawn        []byte
	fails        int
}

func canonical(b []byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:16])
}

func init() {
	reg(&Prop{ID: "C13", World: func(s *Scenario, r *Run) {
		if s.Rand == nil || len(s.Rand.Callers) == 0 {
			Invalid("no callers")
		}
		time.Local = time.UTC
		var sb [32]byte
		for i := 0; i < 8; i++ {
			sb[i] = byte(s.Rand.Seed >> (8 * i))
		}
		src := &entropySource{s: s.Rand, gen: mrand.NewChaCha8(sb), dec: mrand.New(mrand.NewPCG(s.Rand.Seed, 77)), by: map[uint64][]byte{}, fails: map[uint64]int{}, r: r}
		rand.SimSetReader(src)
		rand.SimFatal = func(err error) { panic(errFatal{err}) }
		var recs []*uidRec
		var wg sync.WaitGroup
		for ci, c := range s.Rand.Callers {
			for i := 0; i < c.N; i++ {
				recs = append(recs, &uidRec{caller: ci, call: i})
			}
			mine := recs[len(recs)-c.N:]
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(c.DelayMs) * time.Millisecond)
				id := goid()
				for _, u := range mine {
					before, fb := len(src.by[id]), src.fails[id]
					u.crash = guard(func() {
						defer func() {
							if e := recover(); e != nil {
								if _, ok := e.(errFatal); !ok {
									panic(e)
								}
								u.fatal = true
							}
						}()
						p, err := ofxgo.RandomUID()
						u.err, u.nilUID = err, p == nil
						if p != nil {
							u.uid = string(*p)
						}
					})
					u.drawn = append([]byte(nil), src.by[id][before:]...)
					u.fails = src.fails[id] - fb
					r.Event("uid %d.%d %q %v fatal=%v drawn=%x", u.caller, u.call, u.uid, u.err, u.fatal, u.drawn)
				}
			}()
		}
		if !r.Horizon(&wg, 10*day) {
			r.Violate("stuck", "a call did not return")
		}
		seen := map[string]*uidRec{}
		for _, u := range recs {
			r.Evals++
			what := fmt.Sprintf("call %d of caller %d", u.call, u.caller)
			switch {
			case u.crash != "":
				r.Violate("crash", "%s: %s", what, u.crash)
			case u.fails > 0:
				r.Nontriv++
				if len(u.drawn) == 16 && u.uid == canonical(u.drawn) {
					r.Probe("failed-with-the-last-byte")
				} else if !u.fatal && !u.nilUID {
					r.Violate("failed-source", "%s: id %q although the source failed after %d bytes", what, u.uid, len(u.drawn))
				} else if !u.fatal && u.err == nil {
					r.Violate("failed-source", "%s: no error although the source failed", what)
				}
				r.Probe("source-failed")
			case u.fatal:
				r.Violate("refused", "%s: process ended although the source worked", what)
			case u.err != nil || u.nilUID:
				r.Violate("refused", "%s: error %v although the source worked", what, u.err)
			case len(u.drawn) != 16:
				r.Violate("randomness", "%s: %d bytes drawn for id %q", what, len(u.drawn), u.uid)
			case u.uid != canonical(u.drawn):
				r.Violate("randomness", "%s: id %q is not the canonical form of the %x drawn for it", what, u.uid, u.drawn)
			default:
				if ok, err := ofxgo.UID(u.uid).Valid(); !ok {
					r.Violate("form", "%s: id %q is not valid: %v", what, u.uid, err)
				}
				r.Probe("ids")
			}
			if u.uid != "" {
				if o := seen[u.uid]; o != nil && !bytes.Equal(o.drawn, u.drawn) {
					r.Violate("repeated", "%s: id %q was also given to call %d of caller %d", what, u.uid, o.call, o.caller)
				}
				seen[u.uid] = u
			}
		}
		if len(s.Rand.Callers) > 1 {
			r.Nontriv++
		}
	}, Gen: func(g *G) *Scenario {
		s := &Scenario{Sched: g.sched(true)}
		p := &RandSpec{Seed: g.Uint64() >> 12}
		if !g.One(3) {
			p.Short = pick(g, []int{1, 2, 4, 7, 12, 15, 16})
		}
		p.Yield = !g.One(3)
		if g.One(3) {
			p.GapMs = g.Between(1, 50)
		}
		switch g.IntN(4) {
		case 0:
			p.FailIn = pick(g, []int{1, 2, 5, 20})
			p.Partial = g.One(2)
			p.FailErr = pick(g, []string{"eof", "io"})
		case 1:
			p.Dead = g.IntN(200)
			p.FailErr = pick(g, []string{"eof", "io"})
		}
		if g.One(4) {
			p.Same = pick(g, []int{1, 2, 4, 16})
		}
		for n := g.Between(1, 8); n > 0; n-- {
			p.Callers = append(p.Callers, RandCalls{N: g.Between(1, 30), DelayMs: g.IntN(2) * g.IntN(20)})
		}
		s.Rand = p
		return s
	}})
}

var _ = errors.New
