package scn

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"verif/sim/bank"
	"verif/sim/lib"
	"verif/sim/model"
	"verif/sim/simnet"
)

// cookiesIn: the reply sets at least one cookie.
func cookiesIn(p *Reply) bool {
	for _, h := range p.Header {
		if strings.EqualFold(h[0], "Set-Cookie") {
			return true
		}
	}
	return false
}

func (p *Reply) status() int {
	if p.Status == 0 {
		return 200
	}
	return p.Status
}

// sentEnd is how many body bytes a client may legitimately read of a reply.
func (p *Reply) sentEnd() int {
	n := len(p.body())
	if p.CutHow != "" && p.Cut < n {
		n = p.Cut
	}
	if p.Framing != "chunked" && p.Framing != "close" && p.BadLen < 0 && len(p.body())+p.BadLen < n {
		n = len(p.body()) + p.BadLen
	}
	if p.KillHow != "" || p.EarlyCut != "" || p.Garbage != "" {
		n = 0
	}
	return n
}

// whole are the requests of a step that the server could process.
func (w *World) whole(rec *StepRec) []*bank.Req {
	var out []*bank.Req
	for _, q := range w.ReqsOf(rec) {
		if q.Whole {
			out = append(out, q)
		}
	}
	return out
}

// outcome checks the contract of a request step under any failures.
func (w *World) outcome(rec *StepRec) {
	w.Evals++
	if rec.Crash != "" {
		w.Violate("crash", "%s: %s", rec.label(), rec.Crash)
		return
	}
	if !rec.Done {
		w.Violate("stuck", "%s did not return", rec.label())
		return
	}
	qs := w.whole(rec)
	max := 1
	if rec.Client.eff() == "vanguard" {
		max = 2
		if len(qs) == 2 {
			p := w.used[qs[0]]
			if p == nil || len(p.body()) > 0 || !cookiesIn(p) || p.status() != 200 {
				w.Violate("resent", "%s: the request was sent again although the first answer was not an empty one with cookies", rec.label())
			}
			w.Probe("handshake")
		}
	}
	if len(qs) > max {
		w.Violate("resent", "%s: the server processed the request %d times", rec.label(), len(qs))
	}
	if rec.FailsEnd > rec.Fails {
		w.Nontriv++
	}
	switch rec.Step.Op {
	case "request":
		if rec.Err != nil {
			if rec.Resp != nil {
				w.Violate("both", "%s: a response together with error %v", rec.label(), rec.Err)
			}
			w.Probe("failed")
			return
		}
		if rec.Resp == nil {
			w.Violate("neither", "%s: neither response nor error", rec.label())
			return
		}
		w.Probe("succeeded")
		p := w.served(rec)
		if p == nil {
			w.Violate("invented", "%s: a response although the server answered nothing", rec.label())
			return
		}
		if p.status() != 200 {
			w.Violate("status", "%s: a response although the status was %d", rec.label(), p.status())
			return
		}
		if p.Doc == nil {
			w.Violate("invented", "%s: a response although the server sent no document", rec.label())
			return
		}
		if e := docEnd(p.body()); p.sentEnd() < e {
			w.Violate("partial", "%s: a response although only %d of %d bytes were sent", rec.label(), p.sentEnd(), e)
			return
		}
		if d := lib.DiffResponse(p.Doc, rec.Resp); d != "" {
			w.Violate("differs", "%s: %s", rec.label(), d)
		}
	case "noparse", "raw":
		if rec.Err == nil {
			if rec.HTTP == nil {
				w.Violate("neither", "%s: neither response nor error", rec.label())
				return
			}
			p := w.served(rec)
			if p == nil {
				w.Violate("invented", "%s: an answer although the server sent none", rec.label())
				return
			}
			if p.status() != 200 {
				w.Violate("status", "%s: success although the status was %d", rec.label(), p.status())
				return
			}
			if rec.Step.Unread {
				return
			}
			b := p.body()
			if rec.Left {
				if !bytes.HasPrefix(b, rec.Body) {
					w.Violate("differs", "%s: body %.100q is not what the server sent", rec.label(), rec.Body)
				}
				return
			}
			if !bytes.HasPrefix(b, rec.Body) {
				w.Violate("differs", "%s: body %.100q is not what the server sent", rec.label(), rec.Body)
			} else if rec.BodyErr == nil && len(rec.Body) < p.sentEnd() && p.Framing != "close" {
				w.Violate("partial", "%s: body ended silently after %d of %d bytes", rec.label(), len(rec.Body), len(b))
			} else if rec.BodyErr == nil && p.CutHow != "" && p.Cut < len(b) && p.Framing != "close" {
				w.Violate("partial", "%s: a body cut at %d of %d ended without an error", rec.label(), len(rec.Body), len(b))
			}
		}
	}
}

// mustSucceed: no failure touched the step.
func (w *World) mustSucceed(rec *StepRec, calm int) bool {
	if rec.FailsEnd != rec.Fails {
		return false
	}
	if t := rec.Client.TimeoutMs; t > 0 && rec.End-rec.Start >= time.Duration(t)*time.Millisecond {
		return false
	}
	if rec.Client.eff() == "discover" {
		return true
	}
	return rec.Fails == calm
}

var failKinds = []string{"rst", "fin"}

// badReply makes an answer that fails in some way.
func (g *G) badReply(rq *model.Doc, c *Client, stall bool) *Reply {
	p := g.good(rq, c)
	kill := func() string {
		if stall && g.One(4) {
			return "stall"
		}
		return pick(g, []string{"eof", "rst", "fin"})
	}
	switch g.IntN(8) {
	case 0, 1:
		n := len(p.body())
		switch g.IntN(4) {
		case 0:
			p.Cut = g.IntN(n)
		case 1:
			p.Cut = n - 1 - g.IntN(min(n, 30))
		case 2:
			p.Cut = g.IntN(min(n, 300))
		default:
			p.Cut = n // after the body, before the end of the framing
		}
		p.CutHow = kill()
		if p.CutHow == "stall" && p.Cut >= docEnd(p.body()) {
			p.CutHow = "eof" // a complete answer; the stall would outlast the call
		}
		if p.Framing == "chunked" && g.One(5) {
			p.CutHow = "badchunk"
		}
	case 2, 3:
		p.Status = g.failStatus()
		if g.One(3) {
			p.Doc, p.Body = nil, []byte(pick(g, []string{"", "<html>no</html>", strings.Repeat("x", 5000)}))
		}
		if c.eff() != "discover" && g.One(4) {
			// Turned down at once, with the request still coming in.
			p.Hasty, p.ReadMs = true, g.IntN(20)
		}
	case 4:
		p.KillHow = kill()
	case 5:
		p.EarlyCut = kill()
	case 6:
		p.Garbage = pick(g, []string{"HTTP/1.1 200", "\r\n", "HTTP/1.1 2x0 OK\r\n\r\n", "OFXHEADER:100\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -4\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip\r\n\r\n", "HTTP/1.1 200 OK\r\nbroken header\r\n\r\n"})
	case 7:
		p.Framing, p.Close = "", true
		p.BadLen = -1 - g.IntN(min(len(p.body()), 200))
		if g.One(3) {
			p.BadLen = 1 + g.IntN(100)
			if g.One(4) {
				p.BadLen = pick(g, absurd)
			}
		}
	}
	return p
}

// badPlan makes a network plan with failures.
func (g *G) badPlan(stall bool) simnet.Plan {
	p := g.benign()
	switch g.IntN(4) {
	case 0:
		p.DialErr = pick(g, []string{"refused", "timeout", "unreachable", "nohost"})
		if stall && g.One(3) {
			p.DialErr = "hang"
		}
	default:
		ks := failKinds
		if stall {
			ks = []string{"rst", "fin", "stall"}
		}
		if g.One(4) {
			ks = []string{"pause"}
		}
		p.Faults = append(p.Faults, g.fault(ks...))
		if g.One(4) {
			p.Faults = append(p.Faults, g.fault(ks...))
		}
	}
	return p
}

// plans mixes plans for the first n connections.
func (g *G) plans(n int, stall bool) (out []simnet.Plan) {
	for i := 0; i < n; i++ {
		if g.One(2) {
			out = append(out, g.badPlan(stall))
		} else {
			out = append(out, g.benign())
		}
	}
	return
}

// vanguardise makes some exchanges cookie handshakes.
func (g *G) handshake(p *Reply) *Reply {
	h := &Reply{Reply: g.framing()}
	h.Framing, h.Chunk = pick(g, []string{"", "", "chunked", "close"}), 0
	for n := g.Between(1, 3); n > 0; n-- {
		v := fmt.Sprintf("c%d=%s", n, pick(g, []string{"", "", "", "\"q\"", "", "a=b&c/d+e%20==", "\"x y, z\""}))
		if strings.HasSuffix(v, "=") && !g.One(6) {
			v += fmt.Sprintf("%x", g.Uint32())
		}
		if n > 1 && g.One(6) {
			v = "c1" + v[2:] // the same name for another path
		}
		for _, a := range []string{"Path=/", "Path=/us", "Path=/OfxDirectConnectServlet/", "path=/us/x", "Secure", "HttpOnly", "Domain=bank.test", "Domain=.vanguard.com", "SameSite=Strict", "Max-Age=3600", "Expires=Tue, 01-Jan-2180 00:00:00 GMT", "Expires=Tue, 01 Jan 2180 00:00:00 GMT", "Priority=High"} {
			if g.One(6) {
				v += "; " + a
			}
		}
		h.Header = append(h.Header, [2]string{"Set-Cookie", v})
	}
	_ = p
	return h
}

// silence makes the server pause for long in the middle of an answer.
func (g *G) silence(p *Reply) {
	if n := len(p.body()); n > 0 {
		p.PauseAt, p.PauseMs = g.IntN(n), pick(g, []int{60000, 400000, 4000000, 90000000})
		if g.One(3) {
			p.PauseAt = g.IntN(min(n, 1500))
		}
	}
}

// faultyWorld is the shared scenario of the failure properties.
func (g *G) faultyWorld(nsteps int, stallOK bool, ops ...string) *Scenario {
	s := g.base(false)
	k := &keys{}
	s.addServers("good", hosts...)
	c := g.clientSpec(pick(g, []string{"basic", "basic", "vanguard", "discover"}))
	stall := false
	if c.Kind == "basic" && stallOK && g.One(2) {
		c.HTTP, c.TimeoutMs, stall = true, pick(g, []int{15000, 30000, 90000}), true
		c.Bare = g.One(3)
	}
	s.Clients = []Client{c}
	a := &Actor{}
	host := pick(g, hosts)
	for i := 0; i < nsteps; i++ {
		if g.One(3) {
			host = pick(g, hosts)
		}
		st := g.request(&c, k, host)
		st.Op = pick(g, ops)
		if st.Op == "raw" {
			st.Doc, st.Payload = nil, "raw "+st.Key
			if g.One(3) {
				st.Reader = g.reader()
				st.Reader.GapMs = 0
			}
		}
		if st.Op != "request" {
			st.Unread = g.One(4)
		}
		rq := st.Doc
		if rq == nil {
			rq = &model.Doc{Version: c.version(), Sets: []*model.Node{{}}}
		}
		if g.One(2) {
			st.Replies = []*Reply{g.badReply(rq, &c, stall)}
		}
		if c.TimeoutMs == 0 && len(st.Replies) > 0 && g.One(6) {
			g.silence(st.Replies[0])
		}
		if c.Kind == "vanguard" && g.One(3) {
			st.Replies = append([]*Reply{g.handshake(st.Replies[0])}, st.Replies...)
		}
		a.Steps = append(a.Steps, st)
		if st.Doc != nil && g.One(5) {
			// The same request object once more, with another outcome.
			again := &Step{Op: st.Op, URL: st.URL, Reuse: len(a.Steps), Unread: st.Unread}
			if g.One(3) {
				again.Replies = []*Reply{g.goodAny(1)}
			} else {
				again.Replies = []*Reply{g.badReply(rq, &c, stall)}
			}
			a.Steps = append(a.Steps, again)
		}
		switch g.IntN(6) {
		case 0:
			a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: pick(g, []int{1, 1000, 60000, 200000})})
		case 1:
			a.Steps = append(a.Steps, &Step{Op: "drop-idle"})
		}
	}
	s.Actors = []*Actor{a}
	if !g.One(4) {
		s.Net.Plans = g.plans(nsteps+2, stall)
	}
	return s
}

func init() {
	reg(&Prop{ID: "C06", World: clientWorld(func(w *World) {
		calm := 0
		for _, rec := range w.Recs {
			switch rec.Step.Op {
			case "drop-idle":
				if rec.Client.Kind == "basic" {
					calm = rec.Fails
				}
			case "request", "noparse", "raw":
				w.outcome(rec)
				if rec.Err != nil && w.mustSucceed(rec, calm) {
					if p := w.served(rec); p != nil && p.status() == 200 && p.Doc != nil && p.sentEnd() >= len(p.body()) && p.BadLen == 0 {
						w.Violate("refused", "%s: error %v although nothing failed", rec.label(), rec.Err)
					}
				}
			}
		}
	}), Gen: func(g *G) *Scenario {
		return g.faultyWorld(g.Between(1, 6), true, "request", "request", "request", "noparse", "raw")
	}})
	reg(&Prop{ID: "C07", World: clientWorld(func(w *World) {
		w.noCrash()
		for _, rec := range w.Recs {
			if !rec.Done {
				w.Violate("stuck", "%s did not return", rec.label())
			}
		}
		w.Evals += len(w.Recs)
		w.Nontriv += w.failures()
		// Let everything that is still on its way arrive.
		time.Sleep(time.Minute)
		perHost := map[string]int{}
		open := 0
		for _, c := range w.Net.Conns {
			if !c.Closed() {
				perHost[c.Remote()]++
				open++
			}
		}
		kind := w.S.Clients[0].Kind
		for h, n := range perHost {
			if kind == "discover" {
				w.Violate("leak", "%d of %d connections to %s still open after all answers were consumed and closed", n, len(w.Net.Conns), h)
			} else if n > 2 {
				w.Violate("leak", "%d of %d connections to %s still open after all calls", n, len(w.Net.Conns), h)
			}
		}
		busy, sample := Goroutines(func(st string) bool {
			return strings.Contains(st, "(*persistConn).readLoop") && !strings.Contains(st, "simnet.(*Conn).Read")
		})
		if busy > 0 {
			w.Violate("leak", "%d connections wait for their answer to be consumed although all calls returned: %s", busy, sample)
		}
		left, sample := Goroutines(func(st string) bool {
			return strings.Contains(st, "github.com/aclindsa/") && !strings.Contains(st, "RunActors")
		})
		if left > 0 {
			w.Violate("goroutine", "%d goroutines of the library left behind: %s", left, sample)
		}
		http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		for _, h := range w.HTTPs {
			if h != nil {
				h.CloseIdleConnections()
			}
		}
		time.Sleep(time.Second)
		if o := w.Net.Open(); kind == "basic" && len(o) > 0 {
			w.Violate("leak", "connections neither idle nor closed: %v", o)
		}
	}), Gen: func(g *G) *Scenario {
		s := g.faultyWorld(g.Between(1, 6), true, "request", "request", "noparse", "raw")
		a := s.Actors[0]
		// Answers that hold a complete document but never end.
		for _, st := range a.Steps {
			if st.Op != "request" || st.Doc == nil || !g.One(6) {
				continue
			}
			for try := 0; try < 5; try++ {
				p := g.good(st.Doc, &s.Clients[0])
				if n := docEnd(p.body()); p.Gzip || n < 1100 || n > len(p.body()) {
					continue
				}
				p.Info, p.Cut, p.CutHow = nil, len(p.body()), "stall"
				if p.Framing == "" {
					p.BadLen = g.Between(1, 1<<20)
				}
				st.Replies = []*Reply{p}
				break
			}
		}
		// Make repetition likely: accumulation shows only then.
		if g.One(2) {
			var reqs []*Step
			for _, st := range a.Steps {
				if st.Doc != nil && st.Op != "raw" {
					reqs = append(reqs, st)
				}
			}
			for i := g.Between(3, 6); i > 0 && len(reqs) > 0; i-- {
				j := g.IntN(len(a.Steps))
				st := a.Steps[j]
				if st.Doc == nil || st.Op == "raw" {
					continue
				}
				a.Steps = append(a.Steps, &Step{Op: st.Op, URL: st.URL, Reuse: j + 1, Replies: st.Replies, Unread: st.Unread})
			}
		}
		return s
	}})
}

// ---- C23

func init() {
	reg(&Prop{ID: "C23", World: clientWorld(func(w *World) {
		for _, rec := range w.Recs {
			if rec.Crash != "" {
				w.Violate("crash", "%s: %s", rec.label(), rec.Crash)
			}
			if rec.Step.Expect != "recover" {
				continue
			}
			w.Evals++
			if rec.Fails > 0 {
				w.Nontriv++
			}
			if !rec.Done {
				w.Violate("stuck", "%s did not return after failures stopped", rec.label())
				continue
			}
			if rec.FailsEnd != rec.Fails {
				w.Probe("late-fault")
				continue
			}
			if rec.Err != nil {
				w.Violate("not-recovered", "%s: error %v although failures had stopped", rec.label(), rec.Err)
				continue
			}
			w.fidelity(rec)
			for _, q := range w.ReqsOf(rec) {
				w.wire(rec, q)
			}
			limit := 2 * time.Minute
			if p := w.S.Net.Default; p.DialMs+p.LatencyMs+p.JitterMs <= 8 && p.Window == 0 && rec.DialsEnd > rec.Dials && rec.Dials >= len(w.S.Net.Plans) {
				limit = time.Second
				w.Probe("fast-network")
			}
			if d := rec.End - rec.Start; d > limit {
				w.Violate("slow", "%s took %v although failures had stopped, limit %v", rec.label(), d, limit)
			}
		}
	}), Gen: func(g *G) *Scenario {
		n := g.Between(1, 5)
		s := g.faultyWorld(n, true, "request", "request", "noparse", "raw")
		a := s.Actors[0]
		c := &s.Clients[0]
		var last *Step
		at := -1
		for i, st := range a.Steps {
			if st.Op == "request" {
				last, at = st, i
			}
		}
		if len(s.Net.Plans) > n {
			s.Net.Plans = s.Net.Plans[:n]
		}
		if g.One(2) {
			s.Net.Default = simnet.Plan{LatencyMs: g.IntN(3), SegMax: pick(g, []int{0, 0, 1460, 300})}
		}
		a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: 30000})
		for i := g.Between(1, 2); i > 0; i-- {
			if last != nil && g.One(2) {
				r := g.goodAny(2)
				r.DelayMs, r.GapMs = 0, 0
				a.Steps = append(a.Steps, &Step{Op: "request", URL: last.URL, Reuse: at + 1, Replies: []*Reply{r}, Expect: "recover"})
			} else {
				k := &keys{n: 1000 + i}
				st := g.request(c, k, pick(g, hosts))
				st.Replies[0].DelayMs, st.Replies[0].GapMs = 0, 0
				st.Expect = "recover"
				a.Steps = append(a.Steps, st)
			}
			a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: 30000})
		}
		return s
	}})
}

// ---- C10

func init() {
	reg(&Prop{ID: "C10", World: clientWorld(func(w *World) {
		for _, rec := range w.Recs {
			if rec.Crash != "" {
				w.Violate("crash", "%s: %s", rec.label(), rec.Crash)
			}
			if rec.Step.Op != "request" && rec.Step.Op != "noparse" && rec.Step.Op != "raw" {
				continue
			}
			w.Evals++
			limit := time.Duration(rec.Client.TimeoutMs)*time.Millisecond + 6*time.Second // closing a TLS connection may take 5 s
			if !rec.Done {
				w.Violate("late", "%s never returned, limit %v", rec.label(), limit)
				continue
			}
			if d := rec.End - rec.Start; d > limit {
				w.Violate("late", "%s took %v, limit %v", rec.label(), d, limit)
			}
			if rec.FailsEnd != rec.Fails {
				w.Nontriv++
			}
			if rec.FailsEnd == 0 && rec.Err != nil && rec.Step.Expect == "fast" {
				w.Violate("refused", "%s: error %v although nothing failed and the answer was in time", rec.label(), rec.Err)
			}
			if rec.Err == nil && rec.Step.Op == "request" {
				w.fidelity(rec)
			}
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		s.addServers("good", hosts...)
		c := g.clientSpec("basic")
		c.HTTP, c.TimeoutMs = true, pick(g, []int{50, 1000, 5000, 30000, 120000})
		c.Bare = g.One(3)
		s.Clients = []Client{c}
		a := &Actor{}
		calm := g.One(5)
		slow := calm && g.One(2)
		if calm {
			s.Net.Default = simnet.Plan{LatencyMs: g.IntN(3)}
		}
		if slow {
			c.TimeoutMs = pick(g, []int{30000, 100000, 200000, 400000, 1000000, 4000000, 90000000})
			s.Clients[0] = c
		}
		for n := g.Between(1, 4); n > 0; n-- {
			st := g.request(&c, k, pick(g, hosts))
			st.Op = pick(g, []string{"request", "request", "noparse", "raw"})
			if st.Op == "raw" {
				st.Payload = "raw " + st.Key + strings.Repeat("p", pick(g, []int{0, 100, 100000}))
				st.Doc = nil
			}
			r := st.Replies[0]
			if calm {
				r.DelayMs, r.GapMs = 0, 0
				if slow {
					// A slow server, in time all the same.
					r.DelayMs = c.TimeoutMs / 10 * g.IntN(10)
				}
				st.Expect = "fast"
				a.Steps = append(a.Steps, st)
				continue
			}
			switch g.IntN(7) {
			case 0:
				r.Chunk, r.GapMs = 1+g.IntN(20), pick(g, []int{100, 900, 4000}) // trickle
			case 1:
				r.CutHow, r.Cut = "stall", g.IntN(len(r.body())+1)
			case 2:
				r.KillHow = "stall"
			case 3:
				r.EarlyCut = "stall"
			case 4:
				r.DelayMs = c.TimeoutMs + pick(g, []int{-20, 20, 5000, 10000000})
				if r.DelayMs < 0 {
					r.DelayMs = 0
				}
			}
			a.Steps = append(a.Steps, st)
			if g.One(3) {
				a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: pick(g, []int{1, 1000, 100000})})
			}
		}
		s.Actors = []*Actor{a}
		if !calm {
			for i := 0; i < 4; i++ {
				p := g.benign()
				switch g.IntN(4) {
				case 0:
					p.DialErr = "hang"
				case 1:
					p.Faults = []simnet.Fault{g.fault("stall")}
					if g.One(2) {
						p.Window = 1000
					}
				case 2:
					p.Faults = []simnet.Fault{g.fault("pause")}
				}
				s.Net.Plans = append(s.Net.Plans, p)
			}
		}
		return s
	}})
}

// ---- C09

func init() {
	reg(&Prop{ID: "C09", World: clientWorld(func(w *World) {
		for _, rec := range w.Recs {
			if rec.Crash != "" {
				w.Violate("crash", "%s: %s", rec.label(), rec.Crash)
			}
			if rec.Step.Op != "request" && rec.Step.Op != "noparse" {
				continue
			}
			w.Evals++
			if rec.Before != rec.After {
				w.Violate("mutated", "%s: the caller's request changed from\n%s\nto\n%s", rec.label(), rec.Before, rec.After)
			}
			qs := w.ReqsOf(rec)
			if len(qs) == 0 && rec.FailsEnd == 0 {
				w.Violate("count", "%s: nothing was sent: %v", rec.label(), rec.Err)
			}
			for _, q := range qs {
				if !q.Whole {
					continue
				}
				dec, err := model.Decode(q.Body, true)
				if err != nil {
					w.Violate("malformed", "%s: %v", rec.label(), err)
					continue
				}
				son := dec.Doc.Sets[0].K[0]
				n := son.Kid("DTCLIENT")
				if n == nil {
					w.Violate("time", "%s: no DTCLIENT", rec.label())
					continue
				}
				t, err := model.ParseDate(n.V)
				if err != nil {
					w.Violate("time", "%s: DTCLIENT %q in zone %v is not an OFX date", rec.label(), n.V, w.S.Zone)
					continue
				}
				if want := rec.Wall.Truncate(time.Millisecond).Round(0); !t.Equal(want) {
					w.Violate("time", "%s: DTCLIENT %q is %v, the local clock said %v (off by %v)", rec.label(), n.V, t.UTC(), want, t.Sub(want))
				}
				if rec.Wall.Sub(w.Start) != 0 {
					w.Nontriv++
				}
				if w.S.Actors[0].Steps[rec.I].Reuse > 0 {
					w.Probe("resend")
				}
				// The client-controlled fields hold what was sent.
				{
					r := rec.Ctl
					if r.AppID != son.Kid("APPID").V || r.AppVer != son.Kid("APPVER").V || r.Version != dec.Doc.Version {
						w.Violate("fields", "%s: request says %q %q %d, sent %q %q %d", rec.label(), r.AppID, r.AppVer, r.Version, son.Kid("APPID").V, son.Kid("APPVER").V, dec.Doc.Version)
					}
					if !r.DtClient.Truncate(time.Millisecond).Equal(t) {
						w.Violate("fields", "%s: request says client time %v, sent %v", rec.label(), r.DtClient, t)
					}
				}
			}
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		s.addServers("good", hosts...)
		s.Zone = g.zone()
		c := g.clientSpec(pick(g, []string{"basic", "basic", "vanguard", "discover"}))
		s.Clients = []Client{c}
		if g.One(3) {
			s.Clients = append(s.Clients, g.clientSpec(pick(g, []string{"basic", "vanguard", "discover"})))
		}
		a := &Actor{}
		for n := g.Between(2, 8); n > 0; n-- {
			switch g.IntN(4) {
			case 0:
				a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: g.IntN(100000000)})
			case 1:
				a.Steps = append(a.Steps, &Step{Op: "jump", Ms: (g.IntN(2)*2 - 1) * g.IntN(pick(g, []int{1500, 100000, 2000000000}))})
			}
			if i := len(a.Steps) - 1; i >= 0 && a.Steps[i].Doc != nil && a.Steps[i].Reuse == 0 && g.One(2) {
				a.Steps = append(a.Steps, &Step{Op: pick(g, []string{"sleep", "jump"}), Ms: g.IntN(1000000)},
					&Step{Op: a.Steps[i].Op, URL: a.Steps[i].URL, Reuse: i + 1, Replies: []*Reply{g.goodAny(1)}, Via: g.via(s, a.Steps[i])})
				continue
			}
			st := g.request(&c, k, pick(g, hosts))
			if g.One(3) {
				st.Op = "noparse"
			}
			if g.One(4) {
				st.Replies = []*Reply{g.badReply(st.Doc, &c, false)}
			}
			if c.Kind == "vanguard" && g.One(2) {
				st.Replies = append([]*Reply{g.handshake(nil)}, st.Replies...)
			}
			a.Steps = append(a.Steps, st)
		}
		s.Actors = []*Actor{a}
		if g.One(4) {
			s.Net.Plans = g.plans(3, false)
		}
		return s
	}})
}

// zone makes a local time zone, one in three with changes around the time of
// the simulation.
func (g *G) zone() *Zone {
	z := g.fixedZone()
	if g.One(3) {
		at := -int64(g.IntN(pick(g, []int{100, 100000, 100000, 2000000})))
		for n := g.Between(1, 6); n > 0; n-- {
			c := g.fixedZone()
			if g.One(2) { // daylight saving
				c.Name, c.Offset = z.Name, min(max(z.Offset+pick(g, []int{3600, 3600, 1800, -3600, -1800, 7200}), -12*3600), 14*3600)
				if g.One(2) {
					c.Name = pick(g, []string{"XDT", "+0X", ""})
				}
			}
			z.Later = append(z.Later, ZoneChange{at, c.Name, c.Offset})
			at += 1 + int64(g.IntN(pick(g, []int{5000, 100000, 100000, 2000000})))
		}
	}
	return z
}

func (g *G) fixedZone() *Zone {
	type z = Zone
	if g.One(2) {
		c := pick(g, []z{{Name: "UTC", Offset: 0}, {Name: "GMT", Offset: 0}, {Name: "EST", Offset: -18000}, {Name: "EDT", Offset: -14400}, {Name: "CST", Offset: -21600}, {Name: "PST", Offset: -28800}, {Name: "CET", Offset: 3600}, {Name: "CEST", Offset: 7200}, {Name: "IST", Offset: 19800}, {Name: "JST", Offset: 32400}, {Name: "NST", Offset: -12600}, {Name: "NDT", Offset: -9000}, {Name: "ACDT", Offset: 37800}, {Name: "HST", Offset: -36000}})
		return &c
	}
	off := (g.IntN(14*4+12*4+1) - 12*4) * 900
	if g.One(3) {
		off = (g.IntN(9) - 4) * 900
	}
	if g.One(12) { // local mean time
		return &z{Name: "LMT", Offset: g.IntN(2*12*3600) - 12*3600}
	}
	name := ""
	switch g.IntN(3) {
	case 0: // as the system's zone database names zones without a letter abbreviation
		sg, o := "+", off
		if off < 0 {
			sg, o = "-", -off
		}
		name = fmt.Sprintf("%s%02d", sg, o/3600)
		if o%3600 != 0 {
			name += fmt.Sprintf("%02d", o%3600/60)
		}
	case 1:
		name = pick(g, []string{"XST", "AEST", "WXYZT"})
	}
	return &z{Name: name, Offset: off}
}

// ---- C05

type secret struct{ what, val string }

func (w *World) secrets() (out []secret) {
	for _, rec := range w.Recs {
		if rec.Step.Doc != nil {
			son := rec.Step.Doc.Sets[0].K[0]
			for _, t := range []string{"USERID", "USERPASS", "USERKEY"} {
				if n := son.Kid(t); n != nil && len(n.V) >= 8 {
					out = append(out, secret{t, n.V})
				}
			}
		}
		if rec.Step.Payload != "" {
			out = append(out, secret{"raw payload", rec.Step.Payload})
		}
	}
	return
}

func init() {
	reg(&Prop{ID: "C05", World: clientWorld(func(w *World) {
		w.noCrash()
		secrets := w.secrets()
		for _, c := range w.Net.Conns {
			w.Evals++
			for _, s := range secrets {
				if bytes.Contains(c.Sent, []byte(s.val)) {
					w.Violate("plaintext", "%s %q was sent unencrypted to %s", s.what, s.val, c.Remote())
				}
			}
		}
		for _, q := range w.Reqs {
			if q.TLS && bank.ValidFor(q.Cert, q.Host, q.Opened, q.Secured) {
				continue
			}
			if !q.TLS {
				continue // covered by the bytes on the wire
			}
			w.Violate("impostor", "a request was sent to %s presenting a certificate that is %s", q.Host, q.Cert)
		}
		for _, rec := range w.Recs {
			switch rec.Step.Expect {
			case "insecure":
				w.Nontriv++
				if rec.Done && rec.Err == nil {
					w.Violate("accepted", "%s: success for %s", rec.label(), rec.Step.URL)
				}
				if rec.Resp != nil {
					w.Violate("accepted", "%s: a response for %s", rec.label(), rec.Step.URL)
				}
			case "secure":
				if rec.Done && rec.Err != nil && rec.FailsEnd == 0 {
					w.Violate("refused", "%s: %v for a secure server", rec.label(), rec.Err)
				}
			}
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		badCerts := []string{"untrusted", "wronghost", "expired", "notyet", "selfsigned", "parent", "child", "wild", "lookalike", "b0.test", "byserver", "clientauth"}
		g.Shuffle(len(badCerts), func(i, j int) { badCerts[i], badCerts[j] = badCerts[j], badCerts[i] })
		s.addServers("good", "bank.test", "bank.test:8443", "other.test")
		impostors := []string{"b0.test", "b1.test", "b2.test", "vesnc.vanguard.com", "ofx.discovercard.com", "sub.bank.test"}
		for i, h := range impostors {
			s.addServers(badCerts[i], h)
		}
		// Hosts whose connections change their identity or lose it.
		seq := func(first string) []string { return []string{first, pick(g, append(badCerts, "plain"))} }
		s.Servers = append(s.Servers, Server{Addr: "b3.bank.test:443", Cert: "good", CertSeq: seq("good")},
			Server{Addr: "plain.bank.test:443"}, Server{Addr: "bank.test:80"}, Server{Addr: "other.test:80"}, Server{Addr: "evil.test:80"},
			Server{Addr: "evil.test:443", Cert: "good"}, Server{Addr: "bank.test:8080"})
		s.addServers("lapsing", "day1.bank.test")
		s.addServers("starting", "day2.bank.test")
		for _, ip := range []string{"10.0.0.%s:443", "[2001:db8::%s]:443"} {
			s.Servers = append(s.Servers, Server{Addr: fmt.Sprintf(ip, "9"), Cert: "ip"}, Server{Addr: fmt.Sprintf(ip, "10"), Cert: "ip"}, Server{Addr: fmt.Sprintf(ip, "11"), Cert: pick(g, badCerts)})
		}
		kind := pick(g, []string{"basic", "basic", "vanguard", "discover"})
		s.Clients = []Client{g.clientSpec(kind)}
		c := &s.Clients[0]
		a := &Actor{}
		for n := g.Between(1, 4); n > 0; n-- {
			st := g.request(c, k, "bank.test")
			st.Expect = "secure"
			st.Doc.Sets[0].K[0].Kid("USERID").V = st.Key + fmt.Sprintf("sU%x", g.Uint64()>>16)
			if p := st.Doc.Sets[0].K[0].Kid("USERPASS"); p != nil {
				p.V = fmt.Sprintf("sP%xq", g.Uint64())
			}
			if p := st.Doc.Sets[0].K[0].Kid("USERKEY"); p != nil {
				p.V = fmt.Sprintf("sK%xq", g.Uint64())
			}
			if g.One(4) {
				st.Op = "noparse"
			}
			path := "/" + st.Key
			switch g.IntN(9) {
			case 7: // an address instead of a name
				h := pick(g, []string{"10.0.0.9", "10.0.0.9", "[2001:db8::9]", "10.0.0.10", "10.0.0.11", "[2001:db8::10]", "[2001:db8::11]"})
				st.URL, st.Expect = "https://"+h+path, "insecure"
				if strings.HasSuffix(h, "9") {
					st.Expect = "secure"
				} else if strings.HasSuffix(h, "9]") {
					st.Expect = ""
				}
			case 8: // validity begins or ends as time passes
				st.URL, st.Expect = "https://"+pick(g, []string{"day1.bank.test", "day2.bank.test"})+path, ""
				if n := len(a.Steps); n > 0 && g.One(2) {
					// The same once more, later.
					st.URL = strings.Replace(a.Steps[n-1].URL, a.Steps[n-1].Key, st.Key, 1)
				}
				if g.One(2) {
					a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: pick(g, []int{1000, 86400000 + g.IntN(100000000)})})
				} else if g.One(2) {
					a.Steps = append(a.Steps, &Step{Op: "jump", Ms: (g.IntN(3) - 1) * 86500000})
				}
				if g.One(2) {
					a.Steps = append(a.Steps, &Step{Op: "drop-idle"})
				}
			case 0: // an impostor
				st.URL, st.Expect = "https://"+pick(g, impostors)+path, "insecure"
			case 1:
				if g.One(2) {
					// Any other scheme with anything that resembles a secure one
					// further on.
					st.URL = pick(g, []string{"http", "HTTP", "Http", "ws", "ftp", "h2", "httpsx", "xhttps", "http+https"}) + "://" + pick(g, []string{"", "", "https:x@", "https:@"}) +
						pick(g, []string{"bank.test", "evil.test", "other.test", "bank.test:443", "bank.test:8080", "https"}) + path + pick(g, []string{"", "?u=https://bank.test", "?u=HTTPS://bank.test/", "#https://bank.test", "/https://bank.test/", "https://", "&https://bank.test", "%0ahttps://bank.test"})
					st.Expect = "insecure"
					break
				}
				u := pick(g, []string{"https://plain.bank.test", "https://evil.test", "http://bank.test", "http://evil.test", "HTTP://bank.test", "http://bank.test:443", "https://bank.test:80", "https://bank.test@evil.test", "https://bank.test:8080", "http:/bank.test", "//bank.test", "bank.test", "ftp://bank.test", " https://bank.test", "http://https://bank.test", "https://[::1]", "https://127.0.0.1", "https://bank.test%2eevil.test", "https:///", "https:bank.test", "http+unix://bank.test", "https://evil.test#@bank.test", "https://[::1", "https://bank.test:port", "https://ba nk.test", "https://bank.test/%zz", "https://%41bank.test", "https://bank.test\x7f"})
				st.URL, st.Expect = u+path, "insecure"
			case 2:
				u := pick(g, []string{"HTTPS://bank.test", "Https://bank.test", "https://BANK.test", "https://bank.test:443", "https://bank.test:8443", "https://user:pw@bank.test", "https://sub2.bank.test", "https://bank.test."})
				st.URL, st.Expect = u+path, ""
			case 3, 4: // redirects
				code := pick(g, []int{301, 302, 303, 307, 308})
				to := pick(g, []string{"http://bank.test", "http://evil.test", "http://other.test", "https://b0.test", "https://b1.test", "https://plain.bank.test", "https://evil.test", "//bank.test:80", "http://bank.test:443", "HTTP://bank.test:8080"}) + path
				r1 := &Reply{}
				r1.Status, r1.Header = code, [][2]string{{"Location", to}}
				if g.One(3) {
					r1.Header = append(r1.Header, [2]string{"Set-Cookie", "a=b"})
				}
				st.Replies = append([]*Reply{r1}, st.Replies...)
				if g.One(3) { // via another secure server
					r0 := &Reply{}
					r0.Status, r0.Header = pick(g, []int{307, 308}), [][2]string{{"Location", "https://other.test" + path}}
					st.Replies = append([]*Reply{r0}, st.Replies...)
				}
				st.Expect = "insecure"
			case 5: // the second connection meets an impostor
				st.URL, st.Expect = "https://b3.bank.test"+path, ""
				if kind == "vanguard" {
					st.Replies = append([]*Reply{g.handshake(nil)}, st.Replies...)
				}
				st.Replies[0].Close = true
			}
			if g.One(4) {
				st.Op = "raw"
				st.Doc, st.Payload = nil, fmt.Sprintf("sR%x %s", g.Uint64(), st.Key)
			}
			if u, err := url.Parse(st.URL); err != nil || u == nil {
				st.BadURL = true
			}
			a.Steps = append(a.Steps, st)
		}
		s.Actors = []*Actor{a}
		if g.One(4) {
			s.Net.Plans = g.plans(3, false)
		}
		return s
	}})
}

// ---- C08

// mark puts the key into every transaction id of a request, so that any part
// of it shows where it comes from.
func mark(d *model.Doc, key string) {
	n := 0
	for _, s := range d.Sets[1:] {
		for _, k := range s.K {
			if id := k.Kid("TRNUID"); id != nil {
				n++
				id.V = fmt.Sprintf("%s-%d", key, n)
			}
		}
	}
}

func init() {
	reg(&Prop{ID: "C08", World: clientWorld(func(w *World) {
		uids := map[string]string{}
		for _, rec := range w.Recs {
			if qs := w.ReqsOf(rec); len(qs) == 1 && !qs[0].Whole && len(rec.Step.Replies) == 1 && rec.Step.Replies[0].Hasty {
				// The exchange ended with the answer, before all of the
				// request was sent.
				w.Probe("upload-cut")
				w.Event("cut %s after %d of %s", rec.label(), len(qs[0].Body), qs[0].Header.Get("Content-Length"))
				for _, k := range keyRE.FindAll(qs[0].Body, -1) {
					if string(k) != rec.Step.Key {
						w.Violate("mixed", "%s: the first %d bytes of the request contain %s", rec.label(), len(qs[0].Body), k)
					}
				}
				if n := bytes.Count(qs[0].Body, []byte("<OFX>")); n > 1 || !bytes.HasPrefix([]byte("OFXHEADER:"), qs[0].Body[:min(10, len(qs[0].Body))]) && !bytes.HasPrefix([]byte("<?xml "), qs[0].Body[:min(6, len(qs[0].Body))]) {
					w.Violate("mixed", "%s: the first %d bytes of the request are %.300q", rec.label(), len(qs[0].Body), qs[0].Body)
				}
				if rec.Err != nil {
					continue
				}
				if rec.Step.Op == "request" {
					w.fidelity(rec)
				}
				continue
			}
			switch rec.Step.Op {
			case "request", "parse":
				w.fidelity(rec)
			case "noparse", "raw":
				w.outcome(rec)
				if rec.Err != nil {
					w.Violate("refused", "%s: %v", rec.label(), rec.Err)
				} else if p := w.served(rec); p != nil && !bytes.Equal(rec.Body, p.body()) {
					w.Violate("differs", "%s: %d body bytes, sent %d", rec.label(), len(rec.Body), len(p.body()))
				}
			case "uid":
				w.Evals++
				if o, dup := uids[rec.UID]; dup || rec.Err != nil {
					w.Violate("uid", "%s: id %q also given to %s (%v)", rec.label(), rec.UID, o, rec.Err)
				}
				uids[rec.UID] = rec.label()
			}
			if rec.Step.Op == "request" || rec.Step.Op == "noparse" {
				qs := w.ReqsOf(rec)
				if len(qs) != len(rec.Step.Replies) {
					w.Violate("count", "%s: the server received %d requests, expected %d (%v)", rec.label(), len(qs), len(rec.Step.Replies), rec.Err)
					continue
				}
				for i, q := range qs {
					if c := q.Header.Get("Cookie"); i == 0 && c != "" || i == 1 && c != "who="+rec.Step.Key {
						w.Violate("cookie", "%s: request %d carries the cookies %q", rec.label(), i, c)
					}
					if i == 1 {
						w.Probe("handshake")
						w.wire(rec, q)
					}
				}
				if dec := w.wire(rec, qs[0]); dec != nil {
					t, err := model.ParseDate(dec.Doc.Sets[0].K[0].Kid("DTCLIENT").V)
					if err != nil || !t.Equal(rec.Wall.Truncate(time.Millisecond).Round(0)) {
						w.Violate("time", "%s: DTCLIENT %v, clock %v", rec.label(), t, rec.Wall)
					}
				}
			}
			if rec.Step.Op == "raw" {
				for _, q := range w.ReqsOf(rec) {
					if string(q.Body) != rec.Step.Payload {
						w.Violate("content", "%s: body differs", rec.label())
					}
				}
			}
		}
		for _, q := range w.Reqs {
			if w.owner[q] == nil {
				w.Violate("stray", "a request nobody made: %.200q", q.Raw)
			}
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(true)
		if s.Sched.YieldIn == 0 && g.One(2) {
			s.Sched.YieldIn = 10
		}
		k := &keys{}
		s.addServers("good", hosts...)
		for n := g.Between(1, 3); n > 0; n-- {
			c := g.clientSpec(pick(g, []string{"basic", "basic", "vanguard", "discover"}))
			s.Clients = append(s.Clients, c)
		}
		hasty := g.One(3)
		for n := g.Between(2, 6); n > 0; n-- {
			a := &Actor{Client: g.IntN(len(s.Clients)), DelayMs: g.IntN(2) * g.IntN(50)}
			c := &s.Clients[a.Client]
			for m := g.Between(1, 3); m > 0; m-- {
				switch g.IntN(8) {
				case 0:
					a.Steps = append(a.Steps, &Step{Op: "uid"}, &Step{Op: "uid"})
				case 1, 2:
					rd := g.reader()
					rd.GapMs = g.IntN(2) * rd.GapMs
					a.Steps = append(a.Steps, &Step{Op: "parse", Key: k.next(), Reader: rd, Replies: []*Reply{g.goodAny(2)}})
				case 3:
					st := g.request(c, k, pick(g, hosts))
					st.Op, st.Doc, st.Payload = "raw", nil, "raw "+st.Key+strings.Repeat("r", g.IntN(3000))
					a.Steps = append(a.Steps, st)
				default:
					st := g.request(c, k, pick(g, hosts[:g.Between(1, 4)]))
					if g.One(4) {
						st.Op = "noparse"
					}
					if c.Kind == "vanguard" && g.One(2) {
						h := g.handshake(nil)
						h.Header = [][2]string{{"Set-Cookie", "who=" + st.Key}}
						st.Replies = []*Reply{h, st.Replies[0]}
					}
					if hasty && c.eff() == "basic" && !g.One(4) {
						st.Doc = g.reqDoc(c, st.Key, pick(g, []int{4, 40, 150, 150}))
						mark(st.Doc, st.Key)
						p := g.good(st.Doc, c)
						p.Hasty, p.ReadMs = true, pick(g, []int{0, 1, 5, 5, 20})
						if !g.One(3) {
							p.DelayMs, p.Chunk, p.GapMs = 0, g.Between(50, 500), g.Between(1, 40)
						}
						st.Replies = []*Reply{p}
					}
					a.Steps = append(a.Steps, st)
				}
			}
			s.Actors = append(s.Actors, a)
		}
		if hasty {
			// Slow enough to catch a transfer under way, fast enough for the
			// handshake to be in time.
			s.Net.Default.Window = pick(g, []int{500, 1500, 5000})
			s.Net.Default.LatencyMs = min(s.Net.Default.LatencyMs, 30)
			s.Net.Default.JitterMs = min(s.Net.Default.JitterMs, 30)
		}
		return s
	}})
}

var _ = io.EOF

// failStatus is an HTTP status other than success.
func (g *G) failStatus() int {
	switch g.IntN(4) {
	case 0:
		return 201 + g.IntN(399)
	case 1:
		return pick(g, []int{201, 202, 226, 299, 399, 425, 421, 451, 499, 511, 599, 600, 999})
	}
	return pick(g, []int{400, 401, 403, 404, 408, 429, 500, 500, 502, 503, 204, 201, 202, 203, 206, 304, 300, 416})
}
