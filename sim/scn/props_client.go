package scn

import (
	"bytes"
	"fmt"
	"net/url"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"verif/sim/bank"
	"verif/sim/lib"
	"verif/sim/model"
	"verif/sim/simnet"
)

const day = 24 * time.Hour

// startOf is a world with n actors on one client each (or shared clients).
func (g *G) base(yield bool) *Scenario {
	return &Scenario{Sched: g.sched(yield), Net: NetSpec{Default: g.benign()}}
}

func (s *Scenario) addServers(cert string, hs ...string) {
	for _, h := range hs {
		s.Servers = append(s.Servers, Server{Addr: addr(h), Cert: cert})
	}
}

func clientWorld(check func(w *World)) func(s *Scenario, r *Run) {
	return func(s *Scenario, r *Run) {
		w := NewWorld(s, r)
		w.RunActors(10 * day)
		check(w)
	}
}

// served is the reply whose document a successful call must return.
func (w *World) served(rec *StepRec) *Reply {
	// What is still under way of an earlier step's aborted request is not
	// recognizable as such and never answered.
	qs := w.ReqsOf(rec)
	for i := len(qs) - 1; i >= 0; i-- {
		if p := w.used[qs[i]]; p != nil {
			return p
		}
	}
	return nil
}

// fidelity checks a step whose exchange met no failure.
func (w *World) fidelity(rec *StepRec) {
	w.Evals++
	for _, p := range rec.Step.Replies {
		if p.Doc == nil && !cookiesIn(p) || p.status() != 200 && rec.Step.Op == "request" {
			Invalid("no good answer")
		}
	}
	switch {
	case rec.Crash != "":
		w.Violate("crash", "%s: %s", rec.label(), rec.Crash)
	case !rec.Done:
		w.Violate("stuck", "%s did not return", rec.label())
	case rec.Err != nil && rec.Step.Replies[0].Style.Encoding == model.CP1252:
		w.Violate("charset", "%s: error %v for a complete valid response in Windows-1252", rec.label(), rec.Err)
	case rec.Err != nil:
		w.Violate("refused", "%s: error %v for a complete valid response", rec.label(), rec.Err)
	default:
		p := w.served(rec)
		if rec.Step.Op == "parse" {
			p = rec.Step.Replies[0]
		}
		if p == nil || p.Doc == nil {
			w.Violate("unserved", "%s: a response although none was served", rec.label())
			return
		}
		if d := lib.DiffResponse(p.Doc, rec.Resp); d != "" {
			w.Violate("differs", "%s: %s", rec.label(), d)
		}
		n := 0
		for _, x := range p.Doc.Sets {
			n += x.Count()
		}
		if n > 12 {
			w.Nontriv++
		}
	}
}

func init() {
	reg(&Prop{ID: "C03", World: clientWorld(func(w *World) {
		for _, rec := range w.Recs {
			if rec.Step.Op == "request" || rec.Step.Op == "parse" {
				w.fidelity(rec)
			}
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		s.addServers("good", hosts...)
		kind := pick(g, []string{"basic", "basic", "vanguard", "discover"})
		s.Clients = []Client{g.clientSpec(kind)}
		a := &Actor{}
		if g.One(40) {
			// Text in the character set of most SGML responses.
			m := g.docGen(pick(g, []int{102, 103, 151, 160}))
			m.UTF8 = true
			p := &Reply{Reply: g.framing(), Doc: m.Response(2)}
			for ok := false; !ok; {
				if ok = model.To1252(p.Doc); ok {
					p.Style = model.RandomStyle(g.Rand, p.Doc.Version, true)
					p.Style.Encoding = model.CP1252
					ok = !utf8.Valid(model.Encode(p.Doc, p.Style)) // as it may look
				}
				if !ok {
					p.Doc = m.Response(2)
				}
			}
			rd := g.reader()
			rd.GapMs = 0
			a.Steps = append(a.Steps, &Step{Op: "parse", Key: k.next(), Reader: rd, Replies: []*Reply{p}})
			s.Actors = []*Actor{a}
			return s
		}
		for n := g.Between(1, 3); n > 0; n-- {
			st := g.request(&s.Clients[0], k, pick(g, hosts))
			if g.One(2) {
				st.Replies = []*Reply{g.goodAny(4)}
			}
			if g.One(10) {
				g.silence(st.Replies[0])
			}
			a.Steps = append(a.Steps, st)
		}
		if g.One(60) {
			g.wide(s, a.Steps[0].Replies[0])
			s.Actors = []*Actor{a}
			return s
		}
		for n := g.Between(5, 40); n > 0; n-- {
			rd := g.reader()
			rd.GapMs = 0
			a.Steps = append(a.Steps, &Step{Op: "parse", Key: k.next(), Reader: rd, Replies: []*Reply{g.goodAny(3)}})
		}
		s.Actors = []*Actor{a}
		return s
	}})
}

// reader makes a way of supplying bytes without failures.
func (g *G) reader() *Reader {
	p := &Reader{Seed: g.Uint64() >> 12}
	switch g.IntN(6) {
	case 0:
		p.Chunk = 1
	case 1:
		p.Chunk = g.Between(2, 9)
	case 2, 3:
		p.Chunk = pick(g, []int{64, 500, 1023, 1024, 1025, 4096})
	}
	p.WithEnd = g.One(2)
	if g.One(3) {
		p.Empty = g.Between(3, 9)
	}
	if g.One(6) {
		p.GapMs = g.Between(1, 500)
	}
	p.Pipe = g.One(6)
	if g.One(8) {
		p.Bufio = pick(g, []int{16, 16, 40, 100, 150, 300, 1000, 1024, 1025, 4096, 70000})
	}
	if g.One(6) {
		p.Std = pick(g, []string{"bytes", "strings", "buffer", "section", "limited", "file", "tee"})
		p.Used = pick(g, []int{0, 1, 10, 1024, 5000})
	}
	return p
}

// ---- C04

var betweenTags = regexp.MustCompile(`>[ \t\r\n]+<`)

// wire checks one HTTP request against the request it came from; it returns
// the decoded document.
func (w *World) wire(rec *StepRec, q *bank.Req) *model.Decoded {
	c := rec.Client
	bad := func(class, f string, a ...any) *model.Decoded {
		w.Violate(class, "%s: %s", rec.label(), fmt.Sprintf(f, a...))
		return nil
	}
	if q.Err != "" || !q.Whole {
		return bad("garbled", "server could not read the request: %s: %.300q", q.Err, q.Raw)
	}
	u, err := url.Parse(rec.Step.URL)
	if err != nil {
		Invalid("url %v", err)
	}
	if q.Method != "POST" {
		return bad("method", "method %s", q.Method)
	}
	wantPath := u.RequestURI()
	if q.Path != wantPath {
		return bad("path", "path %q, expected %q", q.Path, wantPath)
	}
	if ct := q.Header.Values("Content-Type"); len(ct) != 1 || ct[0] != "application/x-ofx" {
		return bad("content-type", "Content-Type %q", ct)
	}
	if cl := q.Header.Values("Content-Length"); len(cl) != 1 || cl[0] != fmt.Sprint(len(q.Body)) {
		return bad("content-length", "Content-Length %q for %d bytes", cl, len(q.Body))
	}
	if c.UserAgent != "" && c.eff() != "discover" {
		if ua := q.Header.Values("User-Agent"); len(ua) != 1 || ua[0] != c.UserAgent {
			return bad("user-agent", "User-Agent %q, expected %q", ua, c.UserAgent)
		}
	}
	if q.Trailing > 0 {
		return bad("trailing", "%d bytes after the request", q.Trailing)
	}
	return w.wireDoc(rec, q.Body, bad)
}

// wireDoc checks the text of a request document against the request it came
// from.
func (w *World) wireDoc(rec *StepRec, body []byte, bad func(class, f string, a ...any) *model.Decoded) *model.Decoded {
	c := rec.Client
	dec, err := model.Decode(body, true)
	if err != nil {
		return bad("malformed", "%v in %.400q", err, body)
	}
	if dec.Doc.Version != c.version() {
		return bad("version", "version %d, expected %d", dec.Doc.Version, c.version())
	}
	if dec.SGML != (c.version() < 200) {
		return bad("header", "wrong header form for version %d", c.version())
	}
	model.Prune(dec.Doc)
	if err := model.CheckDoc(dec.Doc, true); err != nil {
		return bad("invalid", "%v in %.600q", err, body)
	}
	if d := diffRequest(rec.Sent, dec.Doc); d != "" {
		return bad("content", "%s", d)
	}
	// Formatting.
	if c.NoIndent {
		if strings.ContainsAny(dec.Body, "\r\n") || betweenTags.MatchString(dec.Body) {
			return bad("format", "white space in an unindented document %.300q", dec.Body)
		}
	} else if strings.Count(dec.Body, "\n") < 3 {
		return bad("format", "document is not indented %.300q", dec.Body)
	} else if line := badIndent(dec.Body); line != "" {
		return bad("format", "line %.100q does not fit the indentation of the document", line)
	}
	all := dec.Header + dec.Body
	if c.CR {
		if strings.Count(all, "\r\n") != strings.Count(all, "\n") || strings.Count(all, "\r") != strings.Count(all, "\n") {
			return bad("format", "line ends are not all CRLF")
		}
	} else if strings.Contains(all, "\r") {
		return bad("format", "carriage return without being configured")
	}
	if dec.SGML {
		for t := range dec.ClosedTags {
			if model.Unclosable(t) {
				return bad("closing-tag", "value element %s has a closing tag in version %d", t, c.version())
			}
		}
	}
	return dec
}

// badIndent returns the first line which is not as an indented document has
// it: one tag or one element with its value, deeper than the aggregate it is
// in and as deep as what is next to it.
func badIndent(body string) string {
	type level struct {
		own  int // indentation of the aggregate
		kids int // indentation of what is in it; -1 unknown
	}
	open := []level{{-1, -1}}
	var lines []string
	for _, line := range strings.Split(body, "\n") {
		if strings.TrimSpace(line) != "" {
			lines = append(lines, strings.TrimSuffix(line, "\r"))
		}
	}
	for i, line := range lines {
		text := strings.TrimLeft(line, " \t")
		in := len(line) - len(text)
		top := &open[len(open)-1]
		if strings.HasPrefix(text, "</") {
			if len(open) == 1 || in != top.own || strings.Count(text, "<") != 1 {
				return line
			}
			open = open[:len(open)-1]
			continue
		}
		name, value, ok := strings.Cut(text, ">")
		if text[0] != '<' || !ok || in <= top.own || top.kids >= 0 && in != top.kids {
			return line
		}
		top.kids = in
		name = name[1:]
		value, closed := strings.CutSuffix(value, "</"+name+">")
		switch {
		case strings.Contains(value, "<"):
			return line
		case value == "" && !closed && i+1 < len(lines):
			next := strings.TrimLeft(lines[i+1], " \t")
			if len(lines[i+1])-len(next) <= in && next != "</"+name+">" {
				continue // an unclosed element without a value
			}
			open = append(open, level{in, -1})
		}
	}
	return ""
}

// diffRequest compares request documents apart from DTCLIENT.
func diffRequest(want, got *model.Doc) string {
	a := want.Sets[0].K[0].Clone()
	b := got.Sets[0].K[0].Clone()
	a.Kid("DTCLIENT").V = "20000101"
	if b.Kid("DTCLIENT") != nil {
		b.Kid("DTCLIENT").V = "20000101"
	}
	if d := model.DiffAgg("SONRQ", "SONRQ", a, b); d != "" {
		return d
	}
	if len(got.Sets) != len(want.Sets) {
		return fmt.Sprintf("%d message sets, expected %d", len(got.Sets), len(want.Sets))
	}
	for i, s := range want.Sets[1:] {
		t := got.Sets[i+1]
		if s.T != t.T || len(s.K) != len(t.K) {
			return fmt.Sprintf("message set %s with %d messages, expected %s with %d", t.T, len(t.K), s.T, len(s.K))
		}
		for j, m := range s.K {
			if m.T != t.K[j].T {
				return fmt.Sprintf("%s: message %s, expected %s", s.T, t.K[j].T, m.T)
			}
			if d := model.DiffAgg(m.T, m.T, m, t.K[j]); d != "" {
				return d
			}
		}
	}
	return ""
}

var dtRE = regexp.MustCompile(`<DTCLIENT>[^<\r\n]*`)

func init() {
	reg(&Prop{ID: "C04", World: clientWorld(func(w *World) {
		first := map[[2]any]*bank.Req{}
		for _, rec := range w.Recs {
			if rec.Step.Op != "request" && rec.Step.Op != "noparse" {
				continue
			}
			w.Evals++
			if rec.Crash != "" {
				w.Violate("crash", "%s: %s", rec.label(), rec.Crash)
			}
			qs := w.ReqsOf(rec)
			if len(qs) != 1 {
				w.Violate("count", "%s: the server received %d requests (err %v)", rec.label(), len(qs), rec.Err)
				continue
			}
			w.wire(rec, qs[0])
			if len(rec.Sent.Sets) > 1 {
				w.Nontriv++
			}
			who := [2]any{rec.Req, rec.Client}
			if f := first[who]; f != nil {
				if !bytes.Equal(dtRE.ReplaceAll(f.Body, nil), dtRE.ReplaceAll(qs[0].Body, nil)) {
					w.Violate("resend", "%s: sending the same request again changed its content", rec.label())
				}
				w.Probe("resend")
			} else {
				first[who] = qs[0]
			}
		}
		for _, q := range w.Reqs {
			if w.owner[q] == nil {
				w.Violate("stray", "a request nobody made: %.200q", q.Raw)
			}
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		s.addServers("good", hosts...)
		a := &Actor{}
		s.Clients = []Client{g.clientSpec(pick(g, []string{"basic", "basic", "basic", "vanguard", "discover"}))}
		for g.One(3) && len(s.Clients) < 3 {
			s.Clients = append(s.Clients, g.clientSpec(pick(g, []string{"basic", "basic", "vanguard", "discover"})))
		}
		for n := g.Between(3, 12); n > 0; n-- {
			st := g.request(&s.Clients[0], k, pick(g, hosts))
			st.Doc = g.reqDoc(&s.Clients[0], st.Key, pick(g, []int{0, 1, 4, 8}))
			if g.One(60) {
				st.Doc = g.reqDoc(&s.Clients[0], st.Key, pick(g, []int{60, 150, 300}))
			}
			if g.One(3) {
				st.Op = "noparse"
			}
			a.Steps = append(a.Steps, st)
			if g.One(5) {
				// The same request object once more: same URL and key.
				st.Replies = append(st.Replies, g.goodAny(1))
				a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: g.IntN(100000)})
				a.Steps = append(a.Steps, &Step{Op: st.Op, URL: st.URL, Reuse: len(a.Steps) - 1, Replies: []*Reply{g.goodAny(1)}, Via: g.via(s, st)})
				if g.One(2) {
					a.Steps = append(a.Steps, &Step{Op: st.Op, URL: st.URL, Reuse: len(a.Steps) - 2, Replies: []*Reply{g.goodAny(1)}, Via: g.via(s, st)})
				}
			}
		}
		s.Actors = []*Actor{a}
		return s
	}})
}

var _ = simnet.Plan{}
