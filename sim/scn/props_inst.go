package scn

import (
	"bytes"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"verif/sim/bank"
	"verif/sim/model"
)

// cookiePairs are the name=value pairs a reply sets, in order.
func cookiePairs(p *Reply) []string {
	h := http.Header{}
	for _, kv := range p.Header {
		h.Add(kv[0], kv[1])
	}
	var out []string
	for _, c := range (&http.Response{Header: h}).Cookies() {
		pair, _, _ := strings.Cut(c.Raw, ";")
		out = append(out, strings.TrimSpace(pair))
	}
	return out
}

// asksCookies: the reply is the empty answer that asks for a repetition.
func asksCookies(p *Reply) bool {
	return p != nil && p.status() == 200 && len(p.body()) == 0 && len(cookiePairs(p)) > 0
}

// damaged: the reply itself fails.
func damaged(p *Reply) bool {
	return p.CutHow != "" || p.KillHow != "" || p.EarlyCut != "" || p.Garbage != "" || p.BadLen != 0
}

// ---- C11

func init() {
	reg(&Prop{ID: "C11", World: clientWorld(func(w *World) {
		calm := 0
		for _, rec := range w.Recs {
			if rec.Step.Op != "request" && rec.Step.Op != "noparse" {
				continue
			}
			w.outcome(rec)
			if rec.Client.eff() != "vanguard" {
				// The wrong kind of client for the URL shows here.
				if n := len(w.ReqsOf(rec)); n > 1 {
					w.Violate("resent", "%s: %d requests", rec.label(), n)
				}
				continue
			}
			qs := w.ReqsOf(rec)
			if len(qs) == 0 {
				if w.mustSucceed(rec, calm) {
					w.Violate("unreachable", "%s: no request arrived although nothing failed: %v", rec.label(), rec.Err)
				}
				continue
			}
			if ck := qs[0].Header.Values("Cookie"); len(ck) > 0 {
				w.Violate("cookies", "%s: the first request carries cookies %q", rec.label(), ck)
			}
			for i, q := range qs {
				if q.Method == "" {
					continue
				}
				if ct := q.Header.Values("Content-Type"); len(ct) != 1 || ct[0] != "application/x-ofx" {
					w.Violate("header", "%s: request %d: Content-Type %q", rec.label(), i+1, ct)
				}
				if ua := rec.Client.UserAgent; ua != "" && q.Header.Get("User-Agent") != ua {
					w.Violate("header", "%s: request %d: User-Agent %q, configured %q", rec.label(), i+1, q.Header.Get("User-Agent"), ua)
				}
				if q.Whole {
					w.wire(rec, q)
				}
			}
			p1 := w.used[qs[0]]
			if len(qs) > 1 && qs[1].Method != "" && p1 != nil {
				got := strings.Join(qs[1].Header.Values("Cookie"), "; ")
				if want := strings.Join(cookiePairs(p1), "; "); got != want {
					w.Violate("cookies", "%s: cookies %q, the server set %q", rec.label(), got, want)
				}
				if qs[1].Path != qs[0].Path || qs[1].Host != qs[0].Host {
					w.Violate("resent", "%s: repeated to %s%s", rec.label(), qs[1].Host, qs[1].Path)
				}
				if qs[0].Whole && qs[1].Whole && !bytes.Equal(dtRE.ReplaceAll(qs[0].Body, nil), dtRE.ReplaceAll(qs[1].Body, nil)) {
					w.Violate("resent", "%s: the repeated request differs from the first", rec.label())
				}
			}
			clean := w.mustSucceed(rec, calm)
			switch {
			case p1 == nil:
			case asksCookies(p1) && !damaged(p1):
				w.Nontriv++
				if !clean {
					break
				}
				if len(qs) != 2 {
					w.Violate("not-repeated", "%s: an empty answer with cookies led to %d requests (err %v)", rec.label(), len(qs), rec.Err)
					break
				}
				w.Probe("handshake-complete")
				p2 := w.used[qs[1]]
				if rec.Err != nil && p2 != nil && !damaged(p2) && p2.status() == 200 && (p2.Doc != nil || rec.Step.Op == "noparse") {
					w.Violate("refused", "%s: error %v although the second answer was complete", rec.label(), rec.Err)
				}
			default:
				if len(qs) > 1 {
					w.Violate("resent", "%s: %d requests although the first answer was no empty answer with cookies", rec.label(), len(qs))
				}
				if clean && rec.Err != nil && !damaged(p1) && p1.status() == 200 && (p1.Doc != nil || rec.Step.Op == "noparse") {
					w.Violate("refused", "%s: error %v although the first answer was complete", rec.label(), rec.Err)
				}
				w.Probe("no-handshake")
			}
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		const vg, dc = "https://vesnc.vanguard.com/us/OfxDirectConnectServlet", "https://ofx.discovercard.com"
		s.addServers("good", hosts...)
		s.addServers("good", "vesnc.vanguard.com", "ofx.discovercard.com")
		legacy := g.One(3)
		if legacy {
			for i := range s.Servers {
				s.Servers[i].Cert, s.Servers[i].Legacy = "rsa", true
			}
			for i := range s.Servers { // only the special client speaks the old suites
				if s.Servers[i].Addr == "ofx.discovercard.com:443" {
					s.Servers[i].Cert, s.Servers[i].Legacy = "good", false
				}
			}
		}
		c := g.clientSpec("vanguard")
		if g.One(3) {
			c.Kind, c.URL = "get", pick(g, []string{vg, vg + "/", vg + "//", vg, dc, dc + "/"})
			if !legacy {
				c.URL = pick(g, []string{c.URL, c.URL, "https://bank.test/ofx", vg + "/x", "https://vesnc.vanguard.com"})
			}
		}
		s.Clients = []Client{c}
		a := &Actor{}
		host := pick(g, hosts)
		for n := g.Between(1, 4); n > 0; n-- {
			st := g.request(&c, k, host)
			if c.Kind == "get" {
				st.URL = c.URL
			}
			st.Op = pick(g, []string{"request", "request", "noparse"})
			if st.Op == "noparse" {
				st.Unread = g.One(5)
			}
			st.Replies[0].DelayMs %= 5000
			h := func() *Reply {
				r := g.handshake(nil)
				r.DelayMs %= 5000
				return r
			}
			switch g.IntN(12) {
			case 0: // content together with cookies
				st.Replies[0].Header = append(st.Replies[0].Header, [2]string{"Set-Cookie", fmt.Sprintf("s=%x", g.Uint32())})
			case 1: // empty without cookies
				r := h()
				r.Header = nil
				st.Replies = []*Reply{r, st.Replies[0]}
			case 2: // cookies twice
				st.Replies = []*Reply{h(), h(), st.Replies[0]}
			case 3: // the first exchange fails
				r := h()
				switch g.IntN(5) {
				case 0:
					r.KillHow = pick(g, []string{"eof", "rst", "fin"})
				case 1:
					r.EarlyCut = pick(g, []string{"eof", "rst", "fin"})
				case 2:
					r.Framing, r.CutHow = "chunked", pick(g, []string{"eof", "rst", "fin", "badchunk"})
				case 3:
					r.Framing, r.BadLen, r.Close = "", 1+g.IntN(50), true
				case 4:
					r.Status = g.failStatus()
				}
				st.Replies = []*Reply{r, st.Replies[0]}
			case 4: // the second exchange fails
				st.Replies = []*Reply{h(), g.badReply(st.Doc, &c, false)}
			case 5: // content of one byte, slow
				r := h()
				r.Body, r.DelayMs = []byte(pick(g, []string{" ", "\n", "x"})), g.IntN(2000)
				st.Replies = []*Reply{r, st.Replies[0]}
			case 6: // nothing special
			case 7: // only broken cookies
				r := h()
				r.Header = [][2]string{{"Set-Cookie", pick(g, []string{"", "=", "novalue", "a b=c", ";;"})}}
				st.Replies = []*Reply{r, st.Replies[0]}
			default:
				st.Replies = append([]*Reply{h()}, st.Replies...)
			}
			if g.One(4) {
				st.Reuse = 0
			}
			a.Steps = append(a.Steps, st)
			if g.One(5) {
				a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: pick(g, []int{1, 100, 100000})})
			}
		}
		s.Actors = []*Actor{a}
		if g.One(5) {
			s.Net.Plans = g.plans(g.Between(1, 3), false)
		}
		return s
	}})
}

// ---- C12

// discoverHead is what Discover accepts before the body.
func discoverHead(u *url.URL, n int) string {
	return fmt.Sprintf("POST %s HTTP/1.1\r\nContent-Type: application/x-ofx\r\nHost: %s\r\nContent-Length: %d\r\nConnection: Keep-Alive\r\n\r\n", u.RequestURI(), u.Hostname(), n)
}

func (w *World) discoverWire(rec *StepRec, q *bank.Req) {
	u, err := url.Parse(rec.Step.URL)
	if err != nil {
		Invalid("url %v", err)
	}
	i := bytes.Index(q.Raw, []byte("\r\n\r\n"))
	if i < 0 {
		w.Violate("head", "%s: no request head in %.300q", rec.label(), q.Raw)
		return
	}
	head := string(q.Raw[:i+4])
	if want := discoverHead(u, len(q.Raw)-i-4); q.Whole && head != want {
		w.Violate("head", "%s: request head %q, Discover accepts %q", rec.label(), head, want)
	}
	if q.Whole && (q.Trailing > 0 || len(q.Body) != len(q.Raw)-i-4) {
		w.Violate("length", "%s: %d bytes after a body of %d", rec.label(), q.Trailing, len(q.Body))
	}
	want := u.Host
	if u.Port() == "" {
		want += ":443"
	}
	if q.Host != want {
		w.Violate("address", "%s: connected to %s for %s", rec.label(), q.Host, rec.Step.URL)
	}
}

func (w *World) readerFailed(rec *StepRec) bool {
	r := rec.Step.Reader
	return r != nil && r.Fail != "" && r.Fail != "eof" && !r.Buffer
}

// rawPayload is what the reader of a raw step yields.
func rawPayload(st *Step) string {
	if r := st.Reader; r != nil && r.Fail != "" && !r.Buffer && r.FailAt < len(st.Payload) {
		return st.Payload[:max(r.FailAt, 0)]
	}
	return st.Payload
}

// rawChecks are the obligations of raw steps besides their outcome.
func (w *World) rawChecks(rec *StepRec) {
	pay := rawPayload(rec.Step)
	if w.readerFailed(rec) {
		w.Nontriv++
		if rec.Err == nil {
			w.Violate("reader-error", "%s: success although the reader of the request failed at %d of %d", rec.label(), rec.Step.Reader.FailAt, len(rec.Step.Payload))
		}
		for _, q := range w.ReqsOf(rec) {
			if q.Whole {
				w.Violate("truncated-request", "%s: the server saw a complete request of %d bytes although its reader failed at %d of %d", rec.label(), len(q.Body), rec.Step.Reader.FailAt, len(rec.Step.Payload))
			}
		}
	}
	for _, q := range w.ReqsOf(rec) {
		if q.Method == "" {
			continue
		}
		if q.Whole && !w.readerFailed(rec) && string(q.Body) != pay {
			w.Violate("content", "%s: the server received %d bytes %.80q, the reader yielded %d %.80q", rec.label(), len(q.Body), q.Body, len(pay), pay)
		}
		if !strings.HasPrefix(pay, string(q.Body)) {
			w.Violate("content", "%s: the server received %.80q, the reader yielded %.80q", rec.label(), q.Body, pay)
		}
		if ct := q.Header.Values("Content-Type"); len(ct) != 1 || ct[0] != "application/x-ofx" {
			w.Violate("header", "%s: Content-Type %q", rec.label(), ct)
		}
		if ua := rec.Client.UserAgent; ua != "" && rec.Client.eff() != "discover" && q.Header.Get("User-Agent") != ua {
			w.Violate("header", "%s: User-Agent %q, configured %q", rec.label(), q.Header.Get("User-Agent"), ua)
		}
		if u, err := url.Parse(rec.Step.URL); err == nil && (q.Method != "POST" || q.Path != u.RequestURI()) {
			w.Violate("path", "%s: %s %q for %s", rec.label(), q.Method, q.Path, rec.Step.URL)
		}
	}
}

// goodServed: the last answer to the step was complete.
func (w *World) goodServed(rec *StepRec) *Reply {
	p := w.served(rec)
	if p == nil || damaged(p) || p.status() != 200 {
		return nil
	}
	return p
}

func init() {
	reg(&Prop{ID: "C12", World: clientWorld(func(w *World) {
		for _, rec := range w.Recs {
			switch rec.Step.Op {
			case "request", "noparse", "raw":
			default:
				continue
			}
			w.outcome(rec)
			for _, q := range w.ReqsOf(rec) {
				if q.Method != "" {
					w.discoverWire(rec, q)
				}
				if q.Whole && rec.Step.Op != "raw" {
					w.wire(rec, q)
				}
			}
			if rec.Step.Op == "raw" {
				w.rawChecks(rec)
			}
			if w.readerFailed(rec) {
				if n := rec.DialsEnd - rec.Dials; n > 0 {
					w.Probe("dialled-before-reader-failed")
				}
				continue
			}
			if rec.FailsEnd == rec.Fails {
				if n := len(w.whole(rec)); n != 1 {
					w.Violate("unreachable", "%s: %d requests arrived although nothing failed: %v", rec.label(), n, rec.Err)
				}
				if p := w.goodServed(rec); p != nil && rec.Err != nil && (p.Doc != nil || rec.Step.Op != "request") {
					w.Violate("refused", "%s: error %v although nothing failed", rec.label(), rec.Err)
				} else if p != nil && rec.Err == nil && rec.Step.Op != "request" && !rec.Step.Unread && !rec.Left && (rec.BodyErr != nil || !bytes.Equal(rec.Body, p.body())) {
					w.Violate("differs", "%s: %d bytes (%v) of a body of %d", rec.label(), len(rec.Body), rec.BodyErr, len(p.body()))
				}
			}
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		dhosts := append([]string{"ofx.discovercard.com"}, hosts...)
		s.addServers("good", dhosts...)
		c := g.clientSpec("discover")
		if g.One(4) {
			c.Kind, c.URL = "get", pick(g, []string{"https://ofx.discovercard.com", "https://ofx.discovercard.com/", "https://ofx.discovercard.com//"})
		}
		s.Clients = []Client{c}
		a := &Actor{}
		for n := g.Between(1, 5); n > 0; n-- {
			host := pick(g, dhosts)
			st := g.request(&c, k, host)
			switch g.IntN(13) {
			case 6:
				st.URL = "https://" + host + "/" + st.Key + "?"
			case 7:
				st.URL = "https://" + host + "//a//" + st.Key + ";v=1/../x" + pick(g, []string{"", "?", "??", "?#", "#", "?=&&"})
			case 8:
				st.URL = "https://" + host + "/" + st.Key + "/%2f%3F/%e9" + pick(g, []string{"?q=%zz", "?q=a%20b", "?q=\"<>", "?a=b?c=d/e"})
			case 0:
				st.URL = "https://" + host + "/a%20b/" + st.Key + "?x=%2F&y=a+b;c"
			case 1:
				st.URL = "https://" + host + "/%7Euser/" + st.Key + "#frag"
			case 2:
				st.URL = "https://" + host + "/p/?k=" + st.Key + "&a=b=c"
			case 3:
				st.URL = "https://" + host // the key is in the user id
			case 4:
				st.URL = "https://" + host + "?" + st.Key
			case 5:
				st.URL = "https://" + host + "/é ü/" + st.Key
			}
			if c.Kind == "get" {
				st.URL = c.URL
			}
			g.rawify(st, 3)
			if g.One(3) {
				st.Replies = []*Reply{g.badReply(&model.Doc{Version: c.version(), Sets: []*model.Node{{}}}, &c, false)}
			}
			a.Steps = append(a.Steps, st)
		}
		s.Actors = []*Actor{a}
		if g.One(4) {
			s.Net.Plans = g.plans(3, false)
		}
		return s
	}})
}

const rawBytes = "<OFX>\r\n0123456789\x00\x01 &;%"

// rawify turns one in n requests into a raw one (its answer stays).
func (g *G) rawify(st *Step, n int) {
	if !g.One(n) {
		if g.One(4) {
			st.Op = "noparse"
		}
	} else {
		st.Op, st.Doc = "raw", nil
		size := pick(g, []int{0, 1, 30, 1000, 4096, 5000, 40000, 200000})
		if size > 0 {
			size = g.IntN(size) + 1
		}
		if g.One(60) {
			size = 1<<20 + g.IntN(1<<18)
		}
		var b strings.Builder
		b.WriteString("raw " + st.Key + " ")
		for b.Len() < size {
			b.WriteByte(rawBytes[g.IntN(len(rawBytes))])
		}
		st.Payload = b.String()
		if g.One(12) {
			st.Payload = "" // then the request is known by its place
		}
		if !g.One(3) {
			st.Reader = g.reader()
			if g.One(4) {
				st.Reader.Buffer = true
			} else if g.One(4) {
				st.Reader.Std, st.Reader.Fail = "", pick(g, readerFails)
				st.Reader.FailAt = g.IntN(len(st.Payload) + 1)
				st.Reader.Once = !st.Reader.Pipe && st.Reader.Bufio == 0 && g.One(2) // bufio.Reader.WriteTo forgets errors
			}
			if len(st.Payload) > 5000 && st.Reader.Chunk < 500 {
				st.Reader.Chunk = 500
			}
			if len(st.Payload) > 5000 {
				st.Reader.GapMs = 0
			}
		}
	}
	if st.Op != "request" {
		switch g.IntN(5) {
		case 0:
			st.Unread = true
		case 1, 2:
			st.Take = pick(g, []int{1, 7, 100, 512, 4096})
			if g.One(3) {
				st.Leave = g.Between(1, 20)
			}
			if g.One(3) && st.Take > 20 {
				st.TakeMs = pick(g, []int{1, 20, 1000})
			}
		}
	}
}

// ---- C20

func init() {
	reg(&Prop{ID: "C20", World: clientWorld(func(w *World) {
		calm := 0
		for _, rec := range w.Recs {
			switch rec.Step.Op {
			case "raw", "noparse":
			default:
				continue
			}
			w.outcome(rec)
			if rec.Step.Op == "raw" {
				w.rawChecks(rec)
			} else if rec.Client.eff() != "vanguard" {
				for _, q := range w.whole(rec) {
					w.wire(rec, q)
				}
			}
			if w.readerFailed(rec) {
				continue
			}
			if !w.mustSucceed(rec, calm) {
				continue
			}
			if rec.Step.Op == "raw" && len(w.ReqsOf(rec)) != 1 {
				w.Violate("count", "%s: %d requests arrived although nothing failed: %v", rec.label(), len(w.ReqsOf(rec)), rec.Err)
				continue
			}
			p := w.goodServed(rec)
			if p == nil {
				continue
			}
			if rec.Err != nil {
				w.Violate("refused", "%s: error %v although nothing failed", rec.label(), rec.Err)
				continue
			}
			if !rec.Step.Unread && !rec.Left && (rec.BodyErr != nil || !bytes.Equal(rec.Body, p.body())) {
				w.Violate("differs", "%s: %d bytes (%v) of a body of %d", rec.label(), len(rec.Body), rec.BodyErr, len(p.body()))
			}
			w.Probe("passed-through")
		}
	}), Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		s.addServers("good", hosts...)
		c := g.clientSpec(pick(g, []string{"basic", "basic", "vanguard", "discover"}))
		s.Clients = []Client{c}
		a := &Actor{}
		for n := g.Between(1, 6); n > 0; n-- {
			st := g.request(&c, k, pick(g, hosts))
			for st.Op == "request" {
				g.rawify(st, 2)
			}
			doc := &model.Doc{Version: c.version(), Sets: []*model.Node{{}}}
			if g.One(3) {
				st.Replies = []*Reply{g.badReply(doc, &c, false)}
			} else if g.One(2) { // any bytes at all
				p := st.Replies[0]
				p.Doc, p.Style = nil, model.Style{}
				b := make([]byte, g.IntN(pick(g, []int{2, 100, 5000, 70000})))
				for i := range b {
					b[i] = byte(g.Uint32())
				}
				p.Body = b
				if len(b) > 5000 && p.Chunk > 0 && p.Chunk < 512 {
					p.Chunk = 512
				}
			}
			if c.Kind == "vanguard" && st.Op == "noparse" && g.One(3) {
				st.Replies = append([]*Reply{g.handshake(nil)}, st.Replies...)
			}
			a.Steps = append(a.Steps, st)
			switch g.IntN(8) {
			case 0:
				a.Steps = append(a.Steps, &Step{Op: "sleep", Ms: pick(g, []int{1, 1000, 100000})})
			case 1:
				a.Steps = append(a.Steps, &Step{Op: "drop-idle"})
			}
		}
		s.Actors = []*Actor{a}
		if g.One(3) {
			s.Net.Plans = g.plans(4, false)
		}
		if st := a.Steps[0]; g.One(50) && len(st.Replies) == 1 && st.Replies[0].Doc != nil && st.Take == 0 {
			g.wide(s, st.Replies[0])
		}
		return s
	}})
}

var _ = time.Second
