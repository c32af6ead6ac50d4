package scn

import (
	"fmt"
	"os"
	"strings"

	"verif/sim/bank"
	"verif/sim/model"
	"verif/sim/simnet"
)

// sched picks how scheduling choices are made.
func (g *G) sched(yield bool) Sched {
	s := Sched{Random: !g.One(5)}
	if yield {
		s.YieldIn = pick(g, []int{0, 2, 5, 20, 100, 1000})
	} else if g.One(4) {
		s.YieldIn = pick(g, []int{3, 50, 500})
	}
	return s
}

// benign is a network without failures.
func (g *G) benign() simnet.Plan {
	var p simnet.Plan
	if !g.One(3) {
		p.LatencyMs = pick(g, []int{1, 5, 20, 80, 250, 600})
		p.DialMs = g.IntN(2) * g.IntN(200)
		if g.One(2) {
			p.JitterMs = 1 + g.IntN(p.LatencyMs)
		}
	}
	switch g.IntN(6) {
	case 0:
		p.SegMax = 1 + g.IntN(7)
	case 1, 2:
		p.SegMax = pick(g, []int{50, 200, 536})
	case 3:
		p.SegMax = 1460
	}
	if g.One(4) {
		p.Window = pick(g, []int{300, 1500, 8192})
		if p.LatencyMs > 50 {
			p.Window = 8192 // or TLS handshakes time out
		}
	}
	return p
}

// fault makes one failure of a connection.
func (g *G) fault(kinds ...string) simnet.Fault {
	f := simnet.Fault{Dir: pick(g, []string{"up", "down", "down"}), Kind: pick(g, kinds)}
	switch g.IntN(4) {
	case 0:
		f.At = g.IntN(300)
	case 1:
		f.At = g.IntN(1600)
	case 2:
		f.At = 500 + g.IntN(3000)
	default:
		f.At = g.IntN(20000)
	}
	if f.Kind == "pause" {
		f.Ms = pick(g, []int{1, 100, 3000, 60000, 60000, 400000})
	}
	return f
}

// clientSpec makes a client configuration.
func (g *G) clientSpec(kind string) Client {
	c := Client{Kind: kind}
	if !g.One(4) {
		c.Version = pick(g, model.Versions)
	}
	if g.One(2) {
		c.AppID = pick(g, []string{"QWIN", "QB", "X", "Money", "A&B"})
	}
	if g.One(2) {
		c.AppVer = pick(g, []string{"2400", "1", "0001", "27"})
	}
	c.NoIndent, c.CR = g.One(2), g.One(2)
	if g.One(2) {
		c.UserAgent = pick(g, []string{"ofxgo", "InetClntApp/3.0", "Mozilla/5.0 (X; Y)"})
	}
	if kind == "basic" {
		c.HTTP = g.One(3)
		c.Bare = c.HTTP && g.One(2)
	}
	return c
}

func (g *G) docGen(version int) *model.Gen {
	m := &model.Gen{R: g.Rand, Version: version, Rich: g.Float64(), List: pick(g, []int{0, 1, 2, 3, 5, 12}), UTF8: g.One(3)}
	if g.One(40) {
		m.List = 60
	}
	if g.One(4) {
		m.Echo = pick(g, []float64{0.2, 0.5, 0.9})
	}
	return m
}

// respDoc makes a valid response document and its style.
func (g *G) respDoc(maxMsgs int) (*model.Doc, model.Style) {
	m := g.docGen(pick(g, model.Versions))
	d := m.Response(maxMsgs)
	return d, model.RandomStyle(g.Rand, d.Version, m.UTF8)
}

// replyDoc makes the answer to a request document.
func (g *G) replyDoc(rq *model.Doc) (*model.Doc, model.Style) {
	m := g.docGen(pick(g, model.Versions))
	var d *model.Doc
	if len(rq.Sets) > 1 && !g.One(5) {
		d = m.Reply(rq)
	} else {
		d = m.Response(3)
	}
	return d, model.RandomStyle(g.Rand, d.Version, m.UTF8)
}

// framing makes the HTTP form of a good answer.
func (g *G) framing() bank.Reply {
	r := bank.Reply{Framing: pick(g, []string{"", "", "chunked", "close"})}
	switch g.IntN(5) {
	case 0:
		r.Chunk = 1 + g.IntN(40)
	case 1:
		r.Chunk = pick(g, []int{100, 512, 1000, 4096})
	}
	if r.Chunk > 0 && r.Chunk > 20 && g.One(2) {
		r.GapMs = pick(g, []int{1, 10, 200})
	}
	if g.One(4) {
		r.DelayMs = pick(g, []int{1, 50, 1000, 20000})
	}
	r.Close = g.One(5)
	r.Gzip = g.One(6)
	for g.One(12) && len(r.Info) < 4 {
		r.Info = append(r.Info, pick(g, []int{100, 100, 102, 103, 104}))
	}
	switch g.IntN(8) {
	case 0:
		r.Wire = 1 << g.IntN(8)
	case 1:
		r.Wire = g.IntN(bank.WireForms)
	}
	if r.Wire&bank.WireHTTP10 != 0 && r.Framing != "chunked" {
		r.Close = true
	}
	if g.One(4) {
		r.Header = append(r.Header, [2]string{"Content-Type", pick(g, []string{"application/x-ofx", "text/html", "application/x-ofx; charset=utf-8"})})
	}
	return r
}

func (g *G) good(rq *model.Doc, c *Client) *Reply {
	p := &Reply{Reply: g.framing()}
	p.Doc, p.Style = g.replyDoc(rq)
	return p
}

// http2 makes some servers offer HTTP/2.
func (g *G) http2(s *Scenario) {
	if s.Prop == "C16" || !g.One(h2One()) {
		return
	}
	if s.Prop == "C23" {
		// Net/http goes on using a stalled HTTP/2 connection.
		for _, p := range s.Net.Plans {
			for _, f := range p.Faults {
				if f.Kind == "stall" || f.Kind == "pause" {
					return
				}
			}
		}
	}
	any, refuse := false, g.One(2) && strings.Contains("C05 C06 C07 C08 C10 C20 C23", s.Prop)
	for i := range s.Servers {
		if sv := &s.Servers[i]; sv.Cert != "" && !sv.Legacy {
			sv.H2, any = pick(g, []int{65535, 1 << 20, 1 << 30, 1000, 100}), true
			if s.Prop == "C10" || s.Prop == "C23" {
				sv.H2 = 65535 // a small one takes time
			}
			sv.Refuse = refuse
		}
	}
	if any { // a blocked write would hold a lock and stop the virtual time
		s.Net.Default.Window = 0
		for i := range s.Net.Plans {
			s.Net.Plans[i].Window = 0
		}
	}
}

func h2One() int {
	if os.Getenv("SIM_H2") != "" { // for trials
		return 1
	}
	return 5
}

// wide makes an answer of many megabytes.
func (g *G) wide(s *Scenario, p *Reply) {
	p.Wide = pick(g, []int{1 << 20, 3000000, 6000000, 11000000, 17000000, 35000000})
	p.Chunk, p.GapMs, p.DelayMs, p.Cut, p.CutHow = 0, 0, 0, 0, ""
	s.Net.Default, s.Net.Plans = simnet.Plan{}, nil
}

func (g *G) goodAny(maxMsgs int) *Reply {
	p := &Reply{Reply: g.framing()}
	p.Doc, p.Style = g.respDoc(maxMsgs)
	return p
}

// reqDoc makes a valid request document carrying the key in its user id.
func (g *G) reqDoc(c *Client, key string, maxMsgs int) *model.Doc {
	m := &model.Gen{R: g.Rand, Version: c.version(), Rich: g.Float64(), List: pick(g, []int{1, 2, 4}), UTF8: g.One(3)}
	d := m.Request(maxMsgs)
	u := d.Sets[0].K[0].Kid("USERID")
	u.V = key + pick(g, []string{"", "jdoe", "<&>'", " a b"})
	if g.One(4) {
		u.V = (u.V + strings.Repeat("z", 32))[:32]
	}
	return d
}

type keys struct{ n int }

func (k *keys) next() string { k.n++; return fmt.Sprintf("kx%dx", k.n) }

// url makes a request URL for host carrying the key.
func (g *G) url(host, key string) string {
	u := "https://" + host
	switch g.IntN(5) {
	case 0:
		return u + "/" + key
	case 1:
		return u + "/ofx/" + key + "/"
	case 2:
		return u + "/cgi/ofx.dll?k=" + key + "&x=%20y"
	case 3:
		return u + "/a/b/c/" + key + ".ofx"
	}
	return u + "/OFX/" + key
}

// request makes a request step with a good answer.
func (g *G) request(c *Client, k *keys, host string) *Step {
	key := k.next()
	st := &Step{Op: "request", Key: key, URL: g.url(host, key), Doc: g.reqDoc(c, key, 4), NoLang: g.One(6)}
	st.Replies = []*Reply{g.good(st.Doc, c)}
	return st
}

// via picks a client that may send the request of a step: 0 is its own.
func (g *G) via(s *Scenario, st *Step) int {
	if len(s.Clients) < 2 || st.Doc == nil || g.One(2) {
		return 0
	}
	i := g.IntN(len(s.Clients))
	d := *st.Doc
	d.Version = s.Clients[i].version()
	if model.CheckDoc(&d, true) != nil {
		return 0
	}
	return i + 1
}

var hosts = []string{"bank.test", "b0.test", "b1.test:8443", "other.test"}

// addr is the dialled address of a URL host.
func addr(host string) string {
	if strings.Contains(host, ":") {
		return host
	}
	return host + ":443"
}
