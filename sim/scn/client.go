package scn

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/aclindsa/ofxgo"
	"verif/sim/bank"
	"verif/sim/lib"
	"verif/sim/model"
	"verif/sim/simnet"
)

// Server is one simulated financial institution.
type Server struct {
	Addr    string   `json:"addr"`
	Cert    string   `json:"cert,omitempty"`     // "" plaintext
	CertSeq []string `json:"cert_seq,omitempty"` // per connection, where it differs
	MaxTLS  int      `json:"max_tls,omitempty"`
	Legacy  bool     `json:"legacy,omitempty"` // only RSA key exchange cipher suites
	H2      int      `json:"h2,omitempty"`     // offers HTTP/2, with this window
	Refuse  bool     `json:"refuse,omitempty"` // streams that end early were refused
}

// Client describes one client object.
type Client struct {
	Kind      string `json:"kind"` // basic | vanguard | discover | get
	URL       string `json:"url,omitempty"`
	AppID     string `json:"app_id,omitempty"`
	AppVer    string `json:"app_ver,omitempty"`
	Version   int    `json:"version,omitempty"` // 0: default
	NoIndent  bool   `json:"no_indent,omitempty"`
	CR        bool   `json:"cr,omitempty"`
	UserAgent string `json:"user_agent,omitempty"`
	HTTP      bool   `json:"http,omitempty"` // own HTTPClient
	Bare      bool   `json:"bare,omitempty"` // ... without a transport of its own
	TimeoutMs int    `json:"timeout_ms,omitempty"`
}

// eff is the kind of client a description denotes: GetClient picks by URL.
func (c *Client) eff() string {
	if c.Kind != "get" {
		return c.Kind
	}
	switch strings.Trim(c.URL, "/") {
	case "https://ofx.discovercard.com":
		return "discover"
	case "https://vesnc.vanguard.com/us/OfxDirectConnectServlet":
		return "vanguard"
	}
	return "basic"
}

func (c *Client) version() int {
	if c.Version == 0 {
		return 203
	}
	return c.Version
}

func (c *Client) appID() string {
	if c.AppID == "" {
		return "OFXGO"
	}
	return c.AppID
}

func (c *Client) appVer() string {
	if c.AppVer == "" {
		return "0001"
	}
	return c.AppVer
}

// Reply is one scheduled answer.
type Reply struct {
	bank.Reply
	Doc   *model.Doc  `json:"doc,omitempty"`
	Style model.Style `json:"style,omitzero"`
	Break *Break      `json:"break,omitempty"` // rule of OFX the document is made to break
	Wide  int         `json:"wide,omitempty"`  // blanks before the last tag
}

func (p *Reply) body() (b []byte) {
	switch {
	case p.Doc != nil && p.Break != nil:
		b = model.Encode(p.Break.apply(p.Doc), p.Style)
	case p.Doc != nil:
		b = model.Encode(p.Doc, p.Style)
	default:
		return p.Body
	}
	if i := bytes.LastIndex(b, []byte("</OFX>")); p.Wide > 0 && i >= 0 {
		b = append(append(append(make([]byte, 0, len(b)+p.Wide), b[:i]...), bytes.Repeat([]byte("\n"), p.Wide)...), b[i:]...)
	}
	return b
}

// Reader is how a payload is supplied or consumed.
type Reader struct {
	Chunk   int    `json:"chunk,omitempty"`
	Empty   int    `json:"empty,omitempty"` // one empty read in N
	GapMs   int    `json:"gap_ms,omitempty"`
	FailAt  int    `json:"fail_at,omitempty"`
	Fail    string `json:"fail,omitempty"` // eof | uneof | io
	WithEnd bool   `json:"with_end,omitempty"`
	Once    bool   `json:"once,omitempty"`   // after failing once it goes on
	Buffer  bool   `json:"buffer,omitempty"` // a plain bytes.Buffer
	Pipe    bool   `json:"pipe,omitempty"`   // another goroutine feeds an in-memory pipe
	Bufio   int    `json:"bufio,omitempty"`  // through a bufio.Reader of this size
	Std     string `json:"std,omitempty"`    // a reader of the standard library: bytes | strings | buffer | section | limited | file | tee
	Used    int    `json:"used,omitempty"`   // of which this many other bytes were read before
	Seed    uint64 `json:"seed,omitempty"`
}

// Step is one action of an actor.
type Step struct {
	Op      string     `json:"op"` // request | noparse | raw | parse | uid | sleep | jump | drop-idle
	Key     string     `json:"key,omitempty"`
	URL     string     `json:"url,omitempty"`
	Doc     *model.Doc `json:"doc,omitempty"`
	NoLang  bool       `json:"no_lang,omitempty"`
	Mutate  string     `json:"mutate,omitempty"` // rule broken in the request (C17)
	Payload string     `json:"payload,omitempty"`
	Reader  *Reader    `json:"reader,omitempty"`
	Replies []*Reply   `json:"replies,omitempty"`
	Reuse   int        `json:"reuse,omitempty"` // use the request object of step Reuse-1 of this actor
	Ms      int        `json:"ms,omitempty"`
	Via     int        `json:"via,omitempty"`     // client Via-1 instead of the actor's
	Unread  bool       `json:"unread,omitempty"`  // close the raw answer without reading it
	Take    int        `json:"take,omitempty"`    // read the raw answer in pieces of this size
	TakeMs  int        `json:"take_ms,omitempty"` // pause between the pieces
	Leave   int        `json:"leave,omitempty"`   // with Take: stop after this many pieces
	BadURL  bool       `json:"bad_url,omitempty"`
	Expect  string     `json:"expect,omitempty"` // generator's note on the intended outcome
}

// Actor is one goroutine of the program using the library.
type Actor struct {
	Client  int     `json:"client"`
	DelayMs int     `json:"delay_ms,omitempty"`
	Steps   []*Step `json:"steps"`
}

// StepRec is what one step did.
type StepRec struct {
	A, I, ci   int
	Step       *Step
	Client     *Client
	Done       bool
	Start, End time.Duration
	Wall       time.Time // client's wall clock at the call
	Err        error
	Resp       *ofxgo.Response
	HTTP       *http.Response
	Body       []byte
	BodyErr    error
	Crash      string
	Req        *ofxgo.Request
	Sent       *model.Doc // document the request was built from
	Ctl        Controlled
	Before     string
	After      string
	Dials      int // dials before the call (single-actor runs)
	DialsEnd   int
	Fails      int // failures injected before the call
	FailsEnd   int // ... and when it returned
	UID        string
	Buf        *bytes.Buffer
	Left       bool // the caller stopped reading the raw answer early
}

// Controlled are the request fields a client sets.
type Controlled struct {
	AppID, AppVer string
	Version       int
	DtClient      time.Time
}

func controlled(q *ofxgo.Request) Controlled {
	return Controlled{string(q.Signon.AppID), string(q.Signon.AppVer), lib.VersionNum(q.Version), q.Signon.DtClient.Time}
}

// World is the client world in execution.
type World struct {
	*Run
	Recs    []*StepRec
	Reqs    []*bank.Req
	Banks   map[string]*bank.Bank
	Clients []ofxgo.Client
	HTTPs   []*http.Client
	cur     *StepRec
	seen    map[*StepRec]int // replies handed out per step
	used    map[*bank.Req]*Reply
	byKey   map[string]*StepRec
	owner   map[*bank.Req]*StepRec
	AllDone bool
}

var keyRE = regexp.MustCompile(`kx[0-9]+x`)

// NewWorld sets up network, servers and clients.
func NewWorld(s *Scenario, r *Run) *World {
	w := &World{Run: r, Banks: map[string]*bank.Bank{}, seen: map[*StepRec]int{}, used: map[*bank.Req]*Reply{}, byKey: map[string]*StepRec{}, owner: map[*bank.Req]*StepRec{}}
	n := simnet.New(s.Seed)
	n.Default, n.Plans = s.Net.Default, s.Net.Plans
	n.LogOn = r.LogOn
	n.OnDial = func(d simnet.DialRec) { r.Event("dial %s", d.Addr) }
	r.Net = n
	net.SimDial = n.Dial
	if s.Zone != nil {
		time.Local = s.Zone.location(time.Now().Unix())
	} else {
		time.Local = time.UTC
	}
	for _, sv := range s.Servers {
		b := &bank.Bank{Cert: sv.Cert, CertSeq: sv.CertSeq, MaxTLS: uint16(sv.MaxTLS), H2: sv.H2, Refuse: sv.Refuse, Net: n, Reqs: &w.Reqs, Fired: r.Fire}
		if sv.Legacy {
			b.MaxTLS = tls.VersionTLS12
			b.Ciphers = []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA256, tls.TLS_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_RSA_WITH_AES_256_GCM_SHA384}
		}
		b.Handle = w.handle
		b.Early = w.early
		b.Hasty = w.hasty
		w.Banks[sv.Addr] = b
		n.Hosts[sv.Addr] = b.Serve(sv.Addr)
	}
	for i := range s.Clients {
		c, h := MakeClient(&s.Clients[i])
		w.Clients = append(w.Clients, c)
		w.HTTPs = append(w.HTTPs, h)
	}
	return w
}

// MakeClient builds the library client.
func MakeClient(c *Client) (ofxgo.Client, *http.Client) {
	bc := &ofxgo.BasicClient{AppID: c.AppID, AppVer: c.AppVer, NoIndent: c.NoIndent, CarriageReturn: c.CR, UserAgent: c.UserAgent}
	if c.Version != 0 {
		if lib.Version(c.Version) == nil {
			Invalid("version %d", c.Version)
		}
		lib.SetVersion(&bc.SpecVersion, c.Version)
	}
	var h *http.Client
	if c.HTTP {
		h = &http.Client{Timeout: time.Duration(c.TimeoutMs) * time.Millisecond, Transport: http.DefaultTransport.(*http.Transport).Clone()}
		if c.Bare {
			h.Transport = nil
		}
		bc.HTTPClient = h
	}
	switch c.Kind {
	case "basic":
		return bc, h
	case "vanguard":
		return ofxgo.NewVanguardClient(bc), h
	case "discover":
		return ofxgo.NewDiscoverCardClient(bc), h
	case "get":
		return ofxgo.GetClient(c.URL, bc), h
	}
	Invalid("client kind %q", c.Kind)
	return nil, nil
}

func (w *World) keyOf(q *bank.Req) string {
	if k := keyRE.FindString(q.Path); k != "" {
		return k
	}
	for _, c := range q.Header.Values("Cookie") {
		if k := keyRE.FindString(c); k != "" {
			return k
		}
	}
	if k := keyRE.Find(q.Body); k != nil {
		return string(k)
	}
	return ""
}

func (w *World) recOf(q *bank.Req) *StepRec {
	if rec := w.byKey[w.keyOf(q)]; rec != nil {
		if w.cur != nil && w.cur.Step.Reuse > 0 && w.cur.Req == rec.Req {
			return w.cur // the same request object sent again
		}
		return rec
	}
	if q.Gone && w.cur != nil {
		// Still under way when the client had given up its connection: of the
		// step which gave it up.
		for _, rec := range w.Recs {
			if rec == w.cur {
				break
			}
			if rec.Done && rec.DialsEnd > q.Conn && rec.End >= q.GoneAt {
				return rec
			}
		}
	}
	return w.cur
}

func (w *World) nextReply(rec *StepRec) *Reply {
	n := w.seen[rec]
	if len(rec.Step.Replies) == 0 {
		return nil
	}
	if n >= len(rec.Step.Replies) {
		n = len(rec.Step.Replies) - 1
	}
	return rec.Step.Replies[n]
}

func (w *World) early(q *bank.Req) string {
	rec := w.recOf(q)
	if rec == nil {
		return ""
	}
	w.owner[q] = rec
	w.Event("server head %s %s %s key=%s", q.Host, q.Method, q.Path, rec.Step.Key)
	if p := w.nextReply(rec); p != nil && p.EarlyCut != "" {
		w.seen[rec]++
		w.used[q] = p
		return p.EarlyCut
	}
	return ""
}

func (w *World) hasty(q *bank.Req) *bank.Reply {
	rec := w.recOf(q)
	if rec == nil {
		return nil
	}
	if p := w.nextReply(rec); p == nil || !p.Hasty {
		return nil
	}
	br := w.handle(q)
	return &br
}

func (w *World) handle(q *bank.Req) bank.Reply {
	w.Event("server got %s %s %s tls=%v body=%d", q.Host, q.Method, q.Path, q.TLS, len(q.Body))
	rec := w.recOf(q)
	if rec == nil {
		return bank.Reply{Status: 404}
	}
	w.owner[q] = rec
	p := w.nextReply(rec)
	if p == nil {
		return bank.Reply{Status: 404}
	}
	w.seen[rec]++
	w.used[q] = p
	br := p.Reply
	br.Body = p.body()
	return br
}

// docEnd is the number of body bytes that complete the document.
func docEnd(b []byte) int {
	i := bytes.LastIndex(b, []byte("</OFX>"))
	if i < 0 {
		return len(b)
	}
	return i + 6
}

// planReader supplies a payload as its plan says.
type planReader struct {
	data []byte
	p    *Reader
	at   int
	ctr  uint64
	r    *Run
	hurt bool // the one failure happened
}

var errDevice = errors.New("simulated device error")

func failErr(kind string) error {
	switch kind {
	case "eof":
		return io.EOF
	case "uneof":
		return io.ErrUnexpectedEOF
	case "io":
		return errDevice
	case "timeout":
		return &passing{timeout: true}
	case "temporary":
		return &passing{}
	case "deadline":
		return os.ErrDeadlineExceeded
	case "ctx":
		return context.DeadlineExceeded
	case "canceled":
		return context.Canceled
	case "intr":
		return &os.PathError{Op: "read", Path: "statement", Err: syscall.EINTR}
	case "again":
		return syscall.EAGAIN
	case "closedpipe":
		return io.ErrClosedPipe
	case "noprogress":
		return io.ErrNoProgress
	case "closed":
		return os.ErrClosed
	case "wrapeof":
		return fmt.Errorf("simulated device: %w", io.EOF)
	case "reset":
		return &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	}
	Invalid("failure kind %q", kind)
	return nil
}

// passing is an error that says of itself that it will pass.
type passing struct{ timeout bool }

func (p *passing) Error() string   { return "simulated passing error" }
func (p *passing) Timeout() bool   { return p.timeout }
func (p *passing) Temporary() bool { return true }

// readerFails are the ways a reader fails, the end of the input aside.
var readerFails = []string{"io", "io", "io", "uneof", "uneof", "uneof", "timeout", "temporary", "deadline", "ctx", "canceled", "intr", "again", "closedpipe", "noprogress", "closed", "wrapeof", "reset"}

func (p *planReader) rnd(n int) int {
	if n <= 1 {
		return 0
	}
	p.ctr++
	z := p.p.Seed + p.ctr*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int(((z ^ (z >> 31)) >> 3) % uint64(n))
}

func (p *planReader) end() (int, error) {
	if p.p.Fail != "" && !p.hurt {
		return p.p.FailAt, failErr(p.p.Fail)
	}
	return len(p.data), io.EOF
}

func (p *planReader) Read(b []byte) (int, error) {
	end, err := p.end()
	if end > len(p.data) {
		end = len(p.data)
	}
	if p.p.GapMs > 0 {
		time.Sleep(time.Duration(p.rnd(p.p.GapMs+1)) * time.Millisecond)
	}
	if p.at >= end {
		if p.p.Fail != "" {
			p.hurt = p.p.Once
			p.r.Fire("reader-" + p.p.Fail)
		}
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if p.p.Empty > 0 && p.rnd(p.p.Empty) == 1%p.p.Empty {
		p.r.Fire("reader-empty")
		return 0, nil
	}
	k := end - p.at
	if p.p.Chunk > 0 {
		if c := 1 + p.rnd(p.p.Chunk); c < k {
			k = c
			p.r.Fire("reader-short")
		}
	}
	if k > len(b) {
		k = len(b)
	}
	copy(b, p.data[p.at:p.at+k])
	p.at += k
	if p.at == end && p.p.WithEnd {
		if p.p.Fail != "" {
			p.hurt = p.p.Once
			p.r.Fire("reader-" + p.p.Fail)
		}
		p.r.Fire("reader-data-with-end")
		return k, err
	}
	return k, nil
}

// NewReader makes the reader a plan describes.
func (r *Run) NewReader(data []byte, p *Reader) io.Reader {
	if p == nil {
		return bytes.NewReader(data)
	}
	if p.Buffer {
		return bytes.NewBuffer(append([]byte(nil), data...))
	}
	if p.Std != "" {
		return p.buffered(r.stdReader(data, p))
	}
	pr := &planReader{data: data, p: p, r: r}
	if p.Pipe {
		a, b := io.Pipe()
		go func() {
			buf := make([]byte, 4096)
			for {
				n, err := pr.Read(buf)
				if n > 0 {
					if _, e := b.Write(buf[:n]); e != nil {
						return
					}
				}
				if err != nil {
					b.CloseWithError(err)
					return
				}
			}
		}()
		return p.buffered(a)
	}
	return p.buffered(pr)
}

// stdReader supplies a payload through one of the readers a program would use,
// which may be positioned in the middle of other data.
func (r *Run) stdReader(data []byte, p *Reader) (rd io.Reader) {
	if p.Fail != "" || p.Used < 0 {
		Invalid("failing standard reader")
	}
	all := append(bytes.Repeat([]byte("#"), p.Used), data...)
	switch p.Std {
	case "bytes":
		rd = bytes.NewReader(all)
	case "strings":
		rd = strings.NewReader(string(all))
	case "buffer":
		rd = bytes.NewBuffer(all)
	case "section":
		rd = io.NewSectionReader(strings.NewReader("<<"+string(all)+">>"), 2, int64(len(all)))
	case "limited":
		rd = io.LimitReader(strings.NewReader(string(all)+"more of the same"), int64(len(all)))
	case "tee":
		rd = io.TeeReader(bytes.NewReader(all), io.Discard)
	case "file":
		f, err := os.CreateTemp(os.Getenv("SIM_SCRATCH"), "reader")
		if err == nil {
			os.Remove(f.Name())
			_, err = f.Write(all)
		}
		if err == nil {
			_, err = f.Seek(0, io.SeekStart)
		}
		if err != nil {
			Invalid("scratch file: %v", err)
		}
		rd = f
	default:
		Invalid("reader %q", p.Std)
	}
	if _, err := io.ReadFull(rd, make([]byte, p.Used)); err != nil {
		Invalid("reading ahead: %v", err)
	}
	r.Probe("std-reader")
	return rd
}

func (p *Reader) buffered(r io.Reader) io.Reader {
	if p.Bufio > 0 {
		return bufio.NewReaderSize(r, p.Bufio)
	}
	return r
}

// BuildRequest makes the library request of a step and the document expected
// on the wire.
func BuildRequest(st *Step, c *Client) (*ofxgo.Request, *model.Doc) {
	mustCheck(st.Doc, true)
	if st.Doc.Version != c.version() {
		Invalid("document version %d, client version %d", st.Doc.Version, c.version())
	}
	q := lib.BuildRequest(st.Doc, st.URL)
	want := &model.Doc{Version: c.version()}
	for _, s := range st.Doc.Sets {
		want.Sets = append(want.Sets, s.Clone())
	}
	son := want.Sets[0].K[0]
	son.Kid("APPID").V = c.appID()
	son.Kid("APPVER").V = c.appVer()
	if st.NoLang {
		q.Signon.Language = ""
		son.Kid("LANGUAGE").V = "ENG"
	}
	if k := keyRE.FindString(st.Doc.Sets[0].K[0].Kid("USERID").V + " " + st.URL); k != st.Key && st.Key != "" {
		Invalid("key %s not in the request", st.Key)
	}
	return q, want
}

// sentBy is a request document as another client sends it.
func sentBy(d *model.Doc, c *Client) *model.Doc {
	n := &model.Doc{Version: c.version()}
	for _, s := range d.Sets {
		n.Sets = append(n.Sets, s.Clone())
	}
	n.Sets[0].K[0].Kid("APPID").V = c.appID()
	n.Sets[0].K[0].Kid("APPVER").V = c.appVer()
	return n
}

// snapshot renders everything exported in a request except the fields a
// client is documented to overwrite.
func snapshot(q *ofxgo.Request) string {
	c := *q
	c.Signon.DtClient = ofxgo.Date{}
	c.Signon.AppID, c.Signon.AppVer = "", ""
	if c.Signon.Language == "" {
		c.Signon.Language = "ENG" // documented default
	}
	var b strings.Builder
	fmt.Fprintf(&b, "URL=%q Signon=%s\n", c.URL, dump(c.Signon))
	for _, set := range [][]ofxgo.Message{q.Signup, q.Bank, q.CreditCard, q.Loan, q.InvStmt, q.InterXfer, q.WireXfer, q.Billpay, q.Email, q.SecList, q.PresDir, q.PresDlv, q.Prof, q.Image} {
		fmt.Fprintf(&b, "%d[", len(set))
		for _, m := range set {
			// CLIENTROUTING is documented as forced to NONE.
			b.WriteString(strings.Replace(dump(m), `ClientRouting:"NONE"`, `ClientRouting:""`, 1) + ";")
		}
		b.WriteString("]\n")
	}
	return b.String()
}

// RunActors executes all actors; horizon bounds virtual time.
func (w *World) RunActors(horizon time.Duration) bool {
	s := w.S
	var wg sync.WaitGroup
	for ai, a := range s.Actors {
		if a.Client < 0 || a.Client >= len(w.Clients) {
			Invalid("actor %d: client %d", ai, a.Client)
		}
		recs := make([]*StepRec, len(a.Steps))
		for i, st := range a.Steps {
			ci := a.Client
			if st.Via > 0 {
				ci = st.Via - 1
			}
			if ci >= len(w.Clients) {
				Invalid("client %d", ci)
			}
			recs[i] = &StepRec{A: ai, I: i, Step: st, Client: &s.Clients[ci], ci: ci}
			w.Recs = append(w.Recs, recs[i])
			if st.Key != "" {
				if w.byKey[st.Key] != nil {
					Invalid("duplicate key %s", st.Key)
				}
				w.byKey[st.Key] = recs[i]
			}
			w.prepare(recs, i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if a.DelayMs > 0 {
				time.Sleep(time.Duration(a.DelayMs) * time.Millisecond)
			}
			for _, rec := range recs {
				w.step(w.Clients[rec.ci], w.HTTPs[rec.ci], rec)
			}
		}()
	}
	w.AllDone = w.Horizon(&wg, horizon)
	runtime.SimWait()
	return w.AllDone
}

// prepare builds everything that may turn out invalid before the run starts.
func (w *World) prepare(recs []*StepRec, i int) {
	rec := recs[i]
	st := rec.Step
	for _, p := range st.Replies {
		if p.Doc != nil && st.Expect != "bad-doc" {
			mustCheck(p.Doc, false)
			if p.Break != nil {
				p.Break.apply(p.Doc)
			}
		}
	}
	switch st.Op {
	case "request", "noparse", "marshal":
		if st.Reuse > 0 {
			if st.Reuse > i || recs[st.Reuse-1].Req == nil {
				Invalid("reuse of step %d", st.Reuse)
			}
			rec.Req, rec.Sent = recs[st.Reuse-1].Req, recs[st.Reuse-1].Sent
			if recs[st.Reuse-1].Client != rec.Client {
				rec.Sent = sentBy(rec.Sent, rec.Client)
				mustCheck(rec.Sent, true)
			}
			if st.Mutate != "" {
				mutateRequest(rec.Req, rec.Client, st.Mutate)()
			}
			return
		}
		if st.Doc == nil {
			Invalid("no document")
		}
		rec.Req, rec.Sent = BuildRequest(st, rec.Client)
		if st.Mutate != "" {
			mutateRequest(rec.Req, rec.Client, st.Mutate)()
		}
	case "raw", "parse", "uid", "sleep", "jump", "drop-idle":
	default:
		Invalid("op %q", st.Op)
	}
	if _, err := url.Parse(st.URL); err != nil && !st.BadURL {
		Invalid("url: %v", err)
	}
}

func (w *World) step(c ofxgo.Client, h *http.Client, rec *StepRec) {
	st := rec.Step
	rec.Start, rec.Wall = time.Since(w.Start), time.Now()
	rec.Dials, rec.Fails = len(w.Net.Dials), w.failures()
	if len(w.S.Actors) == 1 {
		w.cur = rec
	}
	w.Event("a%d.%d %s begin", rec.A, rec.I, st.Op)
	if st.Mutate != "" && rec.Req != nil {
		defer mutateRequest(rec.Req, rec.Client, st.Mutate)()
	}
	rec.Crash = guard(func() {
		switch st.Op {
		case "marshal":
			rec.Buf, rec.Err = rec.Req.Marshal()
		case "sleep":
			time.Sleep(time.Duration(st.Ms) * time.Millisecond)
		case "jump":
			time.SimSkew += int64(st.Ms) * 1e6
			w.Fire("clock-jump")
		case "drop-idle":
			http.DefaultTransport.(*http.Transport).CloseIdleConnections()
			if h != nil {
				h.CloseIdleConnections()
			}
		case "uid":
			u, err := ofxgo.RandomUID()
			rec.Err = err
			if u != nil {
				rec.UID = string(*u)
			}
		case "parse":
			rec.Resp, rec.Err = ofxgo.ParseResponse(w.NewReader(st.Replies[0].body(), st.Reader))
		case "request":
			rec.Before = snapshot(rec.Req)
			rec.Resp, rec.Err = c.Request(rec.Req)
			rec.After, rec.Ctl = snapshot(rec.Req), controlled(rec.Req)
		case "noparse", "raw":
			var hr *http.Response
			if st.Op == "noparse" {
				rec.Before = snapshot(rec.Req)
				hr, rec.Err = c.RequestNoParse(rec.Req)
				rec.After, rec.Ctl = snapshot(rec.Req), controlled(rec.Req)
			} else {
				hr, rec.Err = c.RawRequest(st.URL, w.NewReader([]byte(st.Payload), st.Reader))
			}
			rec.HTTP = hr
			if hr != nil && hr.Body != nil && st.Unread {
				hr.Body.Close()
			} else if hr != nil && hr.Body != nil {
				if st.Take > 0 {
					rec.Body, rec.BodyErr, rec.Left = takeBody(hr.Body, st)
				} else {
					rec.Body, rec.BodyErr = io.ReadAll(hr.Body)
				}
				hr.Body.Close()
			}
		}
	})
	rec.End, rec.FailsEnd, rec.DialsEnd = time.Since(w.Start), w.failures(), len(w.Net.Dials)
	rec.Done = true
	w.Event("a%d.%d %s end resp=%v err=%v crash=%s body=%d/%v", rec.A, rec.I, st.Op, rec.Resp != nil, rec.Err, rec.Crash, len(rec.Body), rec.BodyErr)
}

// takeBody reads a raw answer piece by piece.
func takeBody(r io.Reader, st *Step) (out []byte, err error, left bool) {
	buf := make([]byte, st.Take)
	for n := 0; ; n++ {
		if st.Leave > 0 && n >= st.Leave {
			return out, nil, true
		}
		k, err := r.Read(buf)
		out = append(out, buf[:k]...)
		if err == io.EOF {
			return out, nil, false
		}
		if err != nil {
			return out, err, false
		}
		if st.TakeMs > 0 {
			time.Sleep(time.Duration(st.TakeMs) * time.Millisecond)
		}
	}
}

// failures counts the injected failures so far.
func (w *World) failures() int {
	n := 0
	for _, m := range []map[string]int{w.Fired, w.Net.Fired} {
		for k, v := range m {
			if !strings.HasPrefix(k, "server-") && k != "clock-jump" && !strings.HasPrefix(k, "reader-") {
				n += v
			}
		}
	}
	return n
}

// ReqsOf lists the HTTP requests a step caused, in order of arrival.
func (w *World) ReqsOf(rec *StepRec) []*bank.Req {
	var out []*bank.Req
	for _, q := range w.Reqs {
		if w.owner[q] == rec {
			out = append(out, q)
		}
	}
	return out
}

// label names a step in messages.
func (rec *StepRec) label() string {
	return fmt.Sprintf("actor %d step %d (%s, %s client)", rec.A, rec.I, rec.Step.Op, rec.Client.Kind)
}

// Goroutines counts live goroutines whose stack satisfies match.
func Goroutines(match func(stack string) bool) (n int, sample string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if match(g) {
			n++
			if sample == "" {
				sample = g
			}
		}
	}
	return
}

// baseChecks are the invariants of every client-world run: no crash of the
// code under test and no call that never returns.
func (w *World) noCrash() {
	for _, rec := range w.Recs {
		if rec.Crash != "" {
			w.Violate("crash", "%s: %s", rec.label(), rec.Crash)
		}
	}
}
