package scn

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"verif/sim/lib"
	"verif/sim/model"
	"verif/sim/simhook"
)

// Mut is one damage to a byte stream in transit.
type Mut struct {
	Op string `json:"op"` // flip set del dup swap ins nest
	At int    `json:"at,omitempty"`
	N  int    `json:"n,omitempty"`
	To int    `json:"to,omitempty"`
	S  string `json:"s,omitempty"`
	T  string `json:"t,omitempty"` // rep: of the next element of this tag
}

// StreamSpec is a response stream and the ways it is delivered.
type StreamSpec struct {
	Doc      *model.Doc  `json:"doc,omitempty"`
	Style    model.Style `json:"style,omitzero"`
	Break    *Break      `json:"break,omitempty"`
	Muts     []Mut       `json:"muts,omitempty"`
	Trailing string      `json:"trailing,omitempty"`
	Readers  []*Reader   `json:"readers,omitempty"`
	AllCuts  bool        `json:"all_cuts,omitempty"`
	Hops     []*Hop      `json:"hops,omitempty"`
	Grow     *Grow       `json:"grow,omitempty"`
}

// Grow makes a stream large by repeating one part of it (C18).
type Grow struct {
	Kind string `json:"kind"`        // elem: an element; msg: a message; text: a value; ins: S
	At   int    `json:"at"`          // where to look for it
	S    string `json:"s,omitempty"` // what is inserted
	Size int    `json:"size"`        // added bytes at the largest of the three sizes
}

// Hop is one relay or storage of a response (C19).
type Hop struct {
	Reader *Reader `json:"reader,omitempty"`
	Cut    int     `json:"cut,omitempty"`  // also offer a copy cut here (1 + position)
	Zero   int     `json:"zero,omitempty"` // ... or with a block lost to zeros here (1 + position)
	ZeroN  int     `json:"zero_n,omitempty"`
	Decode bool    `json:"decode,omitempty"` // DecodeResponse instead of ParseResponse
}

func clampRange(at, n, l int) (int, int) {
	if l == 0 {
		return 0, 0
	}
	at = ((at % l) + l) % l
	if n < 0 {
		n = 0
	}
	if at+n > l {
		n = l - at
	}
	return at, n
}

// maxStream bounds damaged streams.
const maxStream = 1 << 20

func mutate(b []byte, ms []Mut) []byte {
	b = append([]byte(nil), b...)
	for _, m := range ms {
		at, n := clampRange(m.At, m.N, len(b))
		switch m.Op {
		case "flip":
			if len(b) > 0 {
				b[at] ^= 1 << (uint(m.N) % 8)
			}
		case "set":
			if len(b) > 0 {
				b[at] = byte(m.N)
			}
		case "del":
			b = append(b[:at:at], b[at+n:]...)
		case "cut":
			b = b[:at]
		case "dup":
			to, _ := clampRange(m.To, 0, len(b)+1)
			b = append(append(append([]byte(nil), b[:to]...), b[at:at+n]...), b[to:]...)
		case "swap":
			// Exchange the block at At with the one following it.
			k := n
			if at+2*k <= len(b) && k > 0 {
				x := append([]byte(nil), b[at:at+k]...)
				copy(b[at:], b[at+k:at+2*k])
				copy(b[at+k:], x)
			}
		case "ins":
			b = append(append(append([]byte(nil), b[:at]...), m.S...), b[at:]...)
		case "rep": // replace the text between the next '>' and '<'
			if m.T != "" {
				if i := bytes.Index(b[at:], []byte("<"+m.T+">")); i >= 0 {
					at += i
				} else if at = bytes.Index(b, []byte("<"+m.T+">")); at < 0 {
					continue
				}
			}
			i := bytes.IndexByte(b[at:], '>')
			if i < 0 {
				continue
			}
			i += at + 1
			j := bytes.IndexByte(b[i:], '<')
			if j < 0 {
				continue
			}
			b = append(append(append([]byte(nil), b[:i]...), m.S...), b[i+j:]...)
		case "nest":
			k := m.N
			if k*len(m.S) > maxStream {
				k = maxStream / max(len(m.S), 1)
			}
			b = append(append(append([]byte(nil), b[:at]...), strings.Repeat(m.S, max(k, 0))...), b[at:]...)
		default:
			Invalid("damage %q", m.Op)
		}
		if len(b) > 2*maxStream {
			b = b[:2*maxStream]
		}
	}
	return b
}

// bytes is the stream of a spec, and how many of them belong to the document.
func (s *StreamSpec) bytes() (data []byte, end int) {
	if s.Doc == nil {
		Invalid("no document")
	}
	mustCheck(s.Doc, false)
	b := model.Encode(s.Doc, s.Style)
	e := docEnd(b)
	b = mutate(b, s.Muts)
	return append(b, s.Trailing...), e
}

type outcome struct {
	err   string
	value string
	resp  *ofxgo.Response
	ferr  error
	crash string
}

func (o outcome) String() string {
	switch {
	case o.crash != "":
		return o.crash
	case o.err != "":
		return "error " + o.err
	}
	return "success"
}

func parseWith(rd io.Reader, decode bool) (o outcome) {
	o.crash = guard(func() {
		f := ofxgo.ParseResponse
		if decode {
			f = ofxgo.DecodeResponse
		}
		o.resp, o.ferr = f(rd)
	})
	if o.ferr != nil {
		o.err = o.ferr.Error()
	} else if o.crash == "" {
		o.value = dump(o.resp)
	}
	return
}

// streamDoc is a response document, often small, sometimes beyond the size of
// every internal buffer.
func (g *G) streamDoc() *StreamSpec {
	st := &StreamSpec{}
	m := g.docGen(pick(g, model.Versions))
	st.Doc = m.Response(pick(g, []int{1, 1, 2, 4}))
	st.Style = model.RandomStyle(g.Rand, st.Doc.Version, m.UTF8)
	if g.One(4) && st.Doc.Version < 200 {
		st.Style.HdrPad = g.IntN(600)
	}
	return st
}

var tokens = []string{"<", ">", "</", "&", "&#", "&lt;", "&#0;", "&bogus;", "\"", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<OFX>", "</OFX>", "<STATUS>", "</STATUS>", "<STMTTRN>", "</STMTTRN>", "<CODE>", "<DTPOSTED>", "<TRNAMT>", "</BANKTRANLIST>", "<INVTRANLIST>", "<SECLIST>", "<BUYSTOCK>", "<MSGSETLIST>", "<BANKMSGSET>", "<BANKMSGSRSV1>", "</BANKMSGSRSV1>", "<SIGNONMSGSRSV1>", "<FOO>", "</FOO>", "<FOO.BAR>", "<a b=\"c\">", "<a:b>", "<!DOCTYPE x>", "\x00", "\xff", "\xff\xfe", "\xef\xbb\xbf", " ", "\n", "OFXHEADER:100", "OFXHEADER=\"200\"", "<STMTTRNRS>", "<INVBANKTRAN>", "<SUBACCTFUND>", "<INVPOSLIST>", "<POSSTOCK>", "<INVOOLIST>", "<PROFMSGSET>", "<MSGSETCORE>", "<MSGSETCORE></MSGSETCORE>"}

var values = []string{"", " ", "0", "-", "+", ".", "1e999", "1e-999", "1e1000000", "1e-1000000", "-1e3000000", "0x1p1000000", "0b11", "1p9", "1E5", "0x10", "99999999999999999999999999", "NaN", "Inf", "1/3", "1/0", "1_000", "20060102", "20061302", "2006", "2", "200601021504", "20060102150405.", "20060102150405.1", "20060102150405.123456[", "20060102150405[-5:EST]", "20060102[", "20060102]", "20060102[]", "20060102[:]", "20060102[x:EST]", "20060102[-99:EST]", "20060102[-5:E", "20060102[5.]", "20060102[.5:X]", "20060102[-0.5:X]", "20060102[99999999999999999999:X]", "20060102[1.99999999999999999:X]", "20060102[--5:X]", "20060102[-5:EST]x", "-20060102", "00000000", "99999999", "Y", "N", "y", "USD", "usd", "XXX", "CHECKING", "DEBIT", "HOLD", "ENG", "ERROR", "INFO", "203", "\x00", "é", "&#233;", "-1", "1,5", "1.5", "1,500.00", "1.000,00", "١", strings.Repeat("9", 400), strings.Repeat("x", 300)}

// typed damages the text of a typed element.
func (g *G) typed(d *model.Doc, at int) (m Mut) {
	tags := map[string][]string{}
	model.WalkTyped(d, func(s model.Site) {
		k := s.F.Kind
		if k == "boolT" {
			k = "bool"
		}
		if len(s.N.K) == 0 {
			tags[k] = append(tags[k], s.N.T)
		}
	})
	k := pick(g, []string{"amt", "amt", "date", "date", "int", "bool", "cur", "enum", "str", "status"})
	m = Mut{Op: "rep", At: at, S: pick(g, values)}
	if l := tags[k]; len(l) > 0 {
		m.T = pick(g, l)
	}
	switch k {
	case "amt":
		m.S = pick(g, []string{"1e1000000", "1e-1000000", "-1e3000000", "0x1p1000000", "0x1p-900000", "1e99999999999", "1/3", "1/0", "22/7", "0x10", "1_0", "0b11", "0o7", "1e5", "1E-5", "+-1", "", " 5 ", "5.", ".5", "-.5", "+0.50", "1,5", ",5", "1.5,5", "1,500.00", "Inf", "NaN", "00012", strings.Repeat("9", 90), "0." + strings.Repeat("0", 60) + "1"})
	case "int", "status":
		m.S = pick(g, []string{"", "+5", "-5", "007", "1e3", "0x1f", "9223372036854775807", "9223372036854775808", "-9223372036854775808", " 7 ", "1.0", "1,0", "1_000", "٣"})
	}
	return
}

// damage makes corruptions of a stream of n bytes encoding d.
func (g *G) damage(d *model.Doc, n int) (ms []Mut) {
	for k := pick(g, []int{1, 1, 1, 2, 3, 6}); k > 0; k-- {
		m := Mut{At: g.IntN(max(n, 1))}
		if g.One(5) {
			m.At = g.IntN(max(min(n, 250), 1)) // the headers
		}
		switch g.IntN(12) {
		case 0, 1:
			m.Op, m.N = "flip", g.IntN(8)
		case 2:
			m.Op, m.N = "set", pick(g, []int{0, '<', '>', '&', '/', ' ', '\n', '[', ']', '.', '-', 0xff, 0x80, '"', ':', '=', '?', '!'})
		case 3, 4:
			m.Op, m.N = "del", 1+g.IntN(pick(g, []int{1, 5, 50, 1000}))
		case 5:
			m.Op, m.N, m.To = "dup", 1+g.IntN(pick(g, []int{5, 50, 500})), g.IntN(max(n, 1))
		case 6:
			m.Op, m.N = "swap", 1+g.IntN(pick(g, []int{2, 30, 300}))
		case 7, 8:
			m.Op, m.S = "ins", pick(g, tokens)
		case 9:
			m.Op, m.S = "rep", pick(g, values)
		case 10:
			m = g.typed(d, m.At)
		case 11:
			switch g.IntN(6) {
			case 0:
				m.Op, m.S, m.N = "nest", pick(g, tokens), pick(g, []int{2, 10, 1000})
			case 1:
				// an open tag costs the XML fork some 100 µs
				m.Op, m.S, m.N = "nest", pick(g, []string{"<A>", "<STATUS>", "<STMTTRN>", "<", "&", "<a x=\"y\">", "[", "9"}), pick(g, []int{3000, 20000, 100000})
				if len(m.S) > 1 {
					m.N = min(m.N, 20000)
				}
			default:
				m.Op = "cut"
			}
		}
		ms = append(ms, m)
	}
	return
}

// ---- C01

func worldC01(s *Scenario, r *Run) {
	st := s.Stream
	if st == nil {
		Invalid("no stream")
	}
	data, end := st.bytes()
	_ = end
	clean := len(st.Muts) == 0
	for _, decode := range []bool{false, true} {
		base := parseWith(bytes.NewReader(data), decode)
		r.Event("baseline %v %v", decode, base)
		if clean {
			r.Evals++
			if base.err != "" || base.crash != "" {
				r.Violate("refused", "a valid document: %v", base)
			} else if d := lib.DiffResponse(st.Doc, base.resp); d != "" {
				r.Violate("differs", "%s", d)
			}
			if st.Trailing != "" {
				bare := parseWith(bytes.NewReader(data[:len(data)-len(st.Trailing)]), decode)
				if bare.err != base.err || bare.value != base.value || bare.crash != base.crash {
					r.Violate("trailing", "%v without and %v with %.60q after the document", bare, base, st.Trailing)
				}
				r.Probe("trailing")
			}
		}
		for i, p := range st.Readers {
			if p.Fail != "" {
				Invalid("failing reader")
			}
			r.Evals++
			o := parseWith(r.NewReader(data, p), decode)
			r.Event("reader %d %v", i, o)
			if o.err != base.err || o.crash != base.crash {
				r.Violate("outcome", "reader %d: %v, whole: %v", i, o, base)
			} else if o.value != base.value {
				r.Violate("value", "reader %d: %s", i, firstDiff(base.value, o.value))
			}
			if o.err == "" {
				r.Probe("accepted")
			} else {
				r.Probe("refused")
			}
		}
	}
	if len(data) > 1024 {
		r.Nontriv++
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(i-60, 0)
	return fmt.Sprintf("…%q instead of …%q", clip(b[lo:], 160), clip(a[lo:], 160))
}

func init() {
	reg(&Prop{ID: "C01", World: worldC01, Gen: func(g *G) *Scenario {
		s := &Scenario{Sched: g.sched(false)}
		st := g.streamDoc()
		if g.One(3) {
			n := len(model.Encode(st.Doc, st.Style))
			st.Muts = g.damage(st.Doc, n)
			for i := range st.Muts {
				st.Muts[i].N = min(st.Muts[i].N, 3000)
			}
		} else if g.One(2) {
			st.Trailing = pick(g, []string{"\n", " ", "\x00\x00", "</OFX>", "<OFX>", "garbage", "<html>", "<", "&", "]]>", "OFXHEADER:100", "OFXHEADER=", "<?xml?>", "\r\n\r\n--boundary--\r\n", strings.Repeat("\n", 2000), strings.Repeat("z<", 1500)})
		}
		for n := g.Between(6, 20); n > 0; n-- {
			st.Readers = append(st.Readers, g.reader())
		}
		s.Stream = st
		return s
	}})
}

// ---- C02

func worldC02(s *Scenario, r *Run) {
	st := s.Stream
	if st == nil || len(st.Muts) > 0 {
		Invalid("no stream")
	}
	data, end := st.bytes()
	try := func(p *Reader) {
		if p.Fail == "" || p.FailAt >= end || p.FailAt < 0 {
			Invalid("not a cut")
		}
		for _, decode := range []bool{false, true} {
			r.Evals++
			o := parseWith(r.NewReader(data, p), decode)
			switch {
			case o.crash != "":
				r.Violate("crash", "%s at %d of %d: %s", p.Fail, p.FailAt, end, o.crash)
			case o.err == "":
				r.Violate("accepted", "%s at byte %d of %d (once=%v): a response", p.Fail, p.FailAt, end, p.Once)
			case o.resp != nil:
				r.Violate("partial", "%s at byte %d of %d: a response together with error %s", p.Fail, p.FailAt, end, o.err)
			}
		}
		r.Nontriv++
	}
	for _, p := range st.Readers {
		try(p)
	}
	if st.AllCuts {
		for i := 0; i < end; i++ {
			try(&Reader{FailAt: i, Fail: []string{"eof", "io", "uneof", "timeout", "intr"}[i%5], WithEnd: i%2 == 0})
		}
	}
	r.Event("%d cuts of %d bytes", r.Evals, len(data))
}

func init() {
	reg(&Prop{ID: "C02", World: worldC02, Gen: func(g *G) *Scenario {
		s := &Scenario{Sched: g.sched(false)}
		st := g.streamDoc()
		b := model.Encode(st.Doc, st.Style)
		end := docEnd(b)
		if g.Thorough && end < 6000 && g.One(3) {
			st.AllCuts = true
		}
		add := func(at int) {
			if at < 0 || at >= end {
				return
			}
			p := g.reader()
			p.GapMs, p.Pipe = 0, p.Pipe && g.One(4)
			p.Std, p.FailAt, p.Fail = "", at, "eof"
			if g.One(2) {
				p.Fail = pick(g, readerFails)
			}
			p.Once = p.Fail != "eof" && !p.Pipe && g.One(3)
			st.Readers = append(st.Readers, p)
		}
		some := func(n int) int { return max(5, min(n, n*20000/end)) } // fewer of large documents
		for i := 0; i < some(40); i++ {
			add(end - 1 - i)
		}
		for i := 0; i < some(60); i++ {
			add(g.IntN(end))
		}
		for i := 0; i < 6; i++ {
			add(1024 - 3 + i)
		}
		// At the boundaries of tags, where a decoder is tempted to stop.
		var ends []int
		for i, c := range b[:end] {
			if c == '>' || c == '<' {
				ends = append(ends, i, i+1)
			}
		}
		for i := 0; i < some(40); i++ {
			add(pick(g, ends))
		}
		s.Stream = st
		return s
	}})
}

// absurd lengths to announce
var absurd = []int{1 << 31, 1 << 36, 1 << 40, 1 << 62}

// ---- C18

// Budgets: generous multiples of what valid input of the size needs.
func stepBudget(n int) uint64  { return 400000 + 400*uint64(n) }
func allocBudget(n int) uint64 { return 96<<20 + 8192*uint64(n) }

func worldC18(s *Scenario, r *Run) {
	if len(s.Actors) > 0 {
		w := NewWorld(s, r)
		simhook.Limit = 40 * stepBudget(2*maxStream)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		w.RunActors(10 * day)
		runtime.ReadMemStats(&m1)
		received := 0
		for _, rec := range w.Recs {
			for _, p := range rec.Step.Replies {
				received += 2 * len(p.body())
			}
		}
		if a := m1.TotalAlloc - m0.TotalAlloc; a > 4*allocBudget(received) {
			w.Violate("memory", "answers of %d bytes made the program allocate %d bytes", received/2, a)
		}
		for _, rec := range w.Recs {
			r.Evals++
			r.Nontriv++
			switch {
			case rec.Crash != "":
				w.Violate("crash", "%s: %s", rec.label(), rec.Crash)
			case !rec.Done:
				w.Violate("stuck", "%s did not return", rec.label())
			case rec.Step.Op == "request" && rec.Err == nil && rec.Resp == nil:
				w.Violate("neither", "%s: neither response nor error", rec.label())
			case rec.Step.Op == "request" && rec.Err != nil && rec.Resp != nil:
				w.Violate("both", "%s: a response together with error %v", rec.label(), rec.Err)
			}
		}
		return
	}
	st := s.Stream
	if st == nil {
		Invalid("no stream")
	}
	if st.Grow != nil {
		worldGrow(s, r)
		return
	}
	data, _ := st.bytes()
	rds := st.Readers
	if len(rds) == 0 {
		rds = []*Reader{nil}
	}
	for i, p := range rds {
		for _, decode := range []bool{false, true} {
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			simhook.Limit = simhook.Steps + stepBudget(len(data))
			from := simhook.Steps
			o := parseWith(r.NewReader(data, p), decode)
			used := simhook.Steps - from
			simhook.Limit = 1 << 28
			runtime.ReadMemStats(&m1)
			r.Evals++
			r.Event("reader %d: %d bytes, %d statements, %v", i, len(data), used, o)
			if a := m1.TotalAlloc - m0.TotalAlloc; a > allocBudget(len(data)) {
				r.Violate("memory", "%d bytes of input made the parser allocate %d bytes", len(data), a)
			}
			if o.crash != "" {
				r.Violate("crash", "%d bytes: %s", len(data), o.crash)
			} else if o.err == "" && o.resp == nil {
				r.Violate("neither", "neither response nor error")
			}
			if o.err == "" {
				r.Probe("accepted")
			} else {
				r.Probe("refused")
				r.Nontriv++
			}
		}
	}
}

// unit finds what is repeated.
func (w *Grow) unit(b []byte) (at int, u []byte) {
	from := bytes.Index(b, []byte("<OFX>"))
	if from < 0 || w.At < 0 {
		Invalid("grow")
	}
	from += 5
	from += w.At % (len(b) - from + 1)
	switch w.Kind {
	case "ins":
		if i := bytes.IndexByte(b[from:], '<'); i >= 0 {
			return from + i, []byte(w.S)
		}
		return len(b), []byte(w.S)
	case "text":
		for i := from; i < len(b); i++ {
			if b[i] == '>' && i+1 < len(b) && b[i+1] != '<' && b[i+1] > ' ' {
				j := bytes.IndexAny(b[i+1:], "<\r\n")
				if j > 0 {
					return i + 1, b[i+1 : i+1+j]
				}
			}
		}
	case "elem", "msg":
		if w.Kind == "msg" { // a whole message
			i := bytes.Index(b[from:], []byte("TRNRS>"))
			if i < 0 {
				from = 0
				i = bytes.Index(b, []byte("TRNRS>"))
			}
			if j := bytes.LastIndexByte(b[:from+max(i, 0)], '<'); j > 0 {
				from = j
			}
		}
		for i := from; i < len(b); i++ {
			if b[i] != '<' || i+1 >= len(b) || b[i+1] == '/' {
				continue
			}
			j := bytes.IndexByte(b[i:], '>')
			if j < 0 {
				break
			}
			end := []byte("</" + string(b[i+1:i+j]) + ">")
			if e := bytes.Index(b[i:], end); e > 0 && e < 20000 {
				return i, b[i : i+e+len(end)]
			}
		}
	default:
		Invalid("kind %q", w.Kind)
	}
	return len(b), nil
}

// stream returns the stream with mult quarters of the growth.
func (w *Grow) stream(b []byte, mult int) []byte {
	at, u := w.unit(b)
	if len(u) == 0 || w.Size < 0 || w.Size > 4*maxStream {
		Invalid("nothing to repeat")
	}
	n := mult * (w.Size / 4 / len(u))
	var out bytes.Buffer
	out.Write(b[:at])
	id := 0
	if w.Kind == "elem" || w.Kind == "msg" {
		// Make the copies differ.
		for _, t := range []string{"<TRNUID>", "<FITID>", "<UNIQUEID>", "<ACCTID>", "<NAME>"} {
			if i := bytes.Index(u, []byte(t)); i >= 0 {
				id = i + len(t)
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		out.Write(u[:id])
		if id > 0 {
			out.WriteString(strconv.Itoa(i))
		}
		out.Write(u[id:])
	}
	out.Write(b[at:])
	return out.Bytes()
}

// worldGrow: the cost of parsing grows in proportion to the input.
func worldGrow(s *Scenario, r *Run) {
	st := s.Stream
	b, _ := st.bytes()
	type cost struct {
		n            int
		steps, alloc uint64
		err          string
	}
	for _, decode := range []bool{true, false} {
		var c [3]cost
		for i, mult := range []int{1, 2, 4} {
			data := st.Grow.stream(b, mult)
			var m0, m1 runtime.MemStats
			f := ofxgo.ParseResponse
			if decode {
				f = ofxgo.DecodeResponse
			}
			simhook.Limit = simhook.Steps + stepBudget(len(data))
			from := simhook.Steps
			runtime.ReadMemStats(&m0)
			var err error
			crash := guard(func() { _, err = f(bytes.NewReader(data)) })
			runtime.ReadMemStats(&m1)
			c[i] = cost{n: len(data), steps: simhook.Steps - from, alloc: m1.TotalAlloc - m0.TotalAlloc}
			simhook.Limit = 1 << 40
			if err != nil {
				c[i].err = err.Error()
				c[i].err = c[i].err[:min(len(c[i].err), 12)]
			}
			r.Evals++
			if crash != "" {
				r.Violate("crash", "%d bytes: %s", len(data), crash)
				return
			}
			if c[i].alloc > allocBudget(len(data)) {
				r.Violate("memory", "%d bytes of input made the parser allocate %d bytes", len(data), c[i].alloc)
			}
		}
		r.Event("grow %v: %v", st.Grow.Kind, []uint64{c[0].steps, c[1].steps, c[2].steps})
		if c[0].err != c[1].err || c[1].err != c[2].err {
			r.Probe("grow-differs")
			continue
		}
		r.Nontriv++
		r.Probe("grow-" + st.Grow.Kind)
		worse := func(a, b, c, slack uint64) bool {
			d1, d2 := int64(b)-int64(a), int64(c)-int64(b)
			return d2 > max(d1, 0)*26/10+int64(slack)
		}
		if worse(c[0].steps, c[1].steps, c[2].steps, 300000) {
			r.Violate("superlinear", "inputs of %d, %d and %d bytes take %d, %d and %d statements", c[0].n, c[1].n, c[2].n, c[0].steps, c[1].steps, c[2].steps)
		}
		if worse(c[0].alloc, c[1].alloc, c[2].alloc, 32<<20) {
			r.Violate("memory", "inputs of %d, %d and %d bytes allocate %d, %d and %d bytes", c[0].n, c[1].n, c[2].n, c[0].alloc, c[1].alloc, c[2].alloc)
		}
	}
}

func init() {
	reg(&Prop{ID: "C18", World: worldC18, Gen: func(g *G) *Scenario {
		if g.One(40) {
			s := &Scenario{Sched: g.sched(false)}
			st := g.streamDoc()
			if g.One(3) {
				st.Muts = g.damage(st.Doc, len(model.Encode(st.Doc, st.Style)))[:1]
				if b, _ := st.bytes(); !bytes.Contains(b, []byte("<OFX>")) {
					st.Muts = nil
				}
			}
			st.Grow = &Grow{Kind: pick(g, []string{"elem", "elem", "msg", "msg", "text", "ins"}), At: g.IntN(20000), Size: pick(g, []int{40000, 200000, 400000, 600000})}
			if g.One(3) {
				st.Grow.At = g.IntN(800)
			}
			if st.Grow.Kind == "ins" {
				st.Grow.S = pick(g, []string{"<A>", "</A>", "<A>1</A>", "<A/>", " ", "\n", "<!-- x -->", "<?x y?>", "&amp;", "&", "<", ">", "<a x=\"y\">", "<STMTTRN>", "<STATUS>", "[", "]]>", "<![CDATA[x]]>"})
			}
			b, _ := st.bytes()
			if _, u := st.Grow.unit(b); len(u) == 0 {
				st.Grow.Kind, st.Grow.S = "ins", "<A>1</A>"
			}
			if st.Grow.Kind == "ins" && st.Grow.S[0] == '<' && len(st.Grow.S) > 1 {
				st.Grow.Size = min(st.Grow.Size, 100000)
			}
			s.Stream = st
			return s
		}
		if g.One(5) {
			s := g.base(false)
			k := &keys{}
			s.addServers("good", hosts...)
			s.Clients = []Client{g.clientSpec(pick(g, []string{"basic", "basic", "vanguard", "discover"}))}
			c := &s.Clients[0]
			a := &Actor{}
			for n := g.Between(1, 4); n > 0; n-- {
				st := g.request(c, k, pick(g, hosts))
				p := st.Replies[0]
				b := p.body()
				p.Body, p.Doc, p.DelayMs, p.GapMs = mutate(b, g.damage(p.Doc, len(b))), nil, 0, 0
				p.Style = model.Style{}
				if g.One(6) {
					// The announced length is damaged, too.
					p.Framing, p.Close, p.BadLen = "", true, pick(g, absurd)
				}
				a.Steps = append(a.Steps, st)
			}
			s.Actors = []*Actor{a}
			return s
		}
		s := &Scenario{Sched: g.sched(false)}
		st := g.streamDoc()
		st.Muts = g.damage(st.Doc, len(model.Encode(st.Doc, st.Style)))
		st.Readers = []*Reader{nil}
		if g.One(3) {
			rd := g.reader()
			rd.GapMs = 0
			st.Readers = append(st.Readers, rd)
		}
		st.Readers[0] = &Reader{}
		s.Stream = st
		return s
	}})
}

// ---- C19

func worldC19(s *Scenario, r *Run) {
	st := s.Stream
	if st == nil || len(st.Hops) == 0 {
		Invalid("no stream")
	}
	if st.Doc == nil {
		Invalid("no document")
	}
	doc := st.Doc
	if st.Break != nil {
		worldC19broken(s, r)
		return
	}
	data, _ := st.bytes()
	o := parseWith(bytes.NewReader(data), false)
	damaged := len(st.Muts) > 0
	if damaged && o.crash == "" {
		// Whatever the library accepts can be relayed.
		if o.err != "" {
			r.Probe("damaged-refused")
			return
		}
		r.Nontriv++
		r.Probe("damaged-accepted")
	}
	if o.err != "" || o.crash != "" {
		r.Violate("refused", "the original: %v", o)
		return
	}
	first := o.value
	resp := o.resp
	for i, h := range st.Hops {
		r.Evals++
		var buf *bytes.Buffer
		var err error
		if crash := guard(func() { buf, err = resp.Marshal() }); crash != "" {
			r.Violate("crash", "marshalling at hop %d: %s", i, crash)
			return
		}
		if err != nil {
			r.Violate("unmarshallable", "hop %d: an accepted response cannot be marshalled: %v", i, err)
			return
		}
		if dump(resp) != first && i == 0 {
			r.Violate("mutated", "marshalling changed the response: %s", firstDiff(first, dump(resp)))
		}
		b := append([]byte(nil), buf.Bytes()...)
		r.Event("hop %d: %d bytes", i, len(b))
		dec, err := model.Decode(b, false)
		if err != nil {
			r.Violate("malformed", "hop %d: %v in %.300q", i, err, b)
			return
		}
		if damaged {
			o := parseWith(r.NewReader(b, h.Reader), h.Decode)
			if o.crash != "" || o.err != "" {
				r.Violate("unparsable", "hop %d: the marshalled response: %v", i, o)
				return
			}
			if o.value != first {
				r.Violate("differs", "hop %d: %s", i, firstDiff(first, o.value))
				return
			}
			resp = o.resp
			continue
		}
		if dec.Doc.Version != doc.Version || dec.SGML != (doc.Version < 200) {
			r.Violate("version", "hop %d: version %d (SGML %v), original %d", i, dec.Doc.Version, dec.SGML, doc.Version)
			return
		}
		if d := diffResponseDoc(doc, dec.Doc); d != "" {
			r.Violate("content", "hop %d: %s", i, d)
			return
		}
		// Damaged copies.
		end := docEnd(b)
		if h.Cut > 0 && h.Cut-1 < end {
			r.Nontriv++
			r.Fire("stored-cut")
			if o := parseWith(r.NewReader(b[:h.Cut-1], h.Reader), h.Decode); o.err == "" || o.crash != "" {
				r.Violate("damaged", "hop %d: a copy cut at %d of %d: %v", i, h.Cut-1, end, o)
			}
		}
		if at := h.Zero - 1; h.Zero > 0 && at < end {
			z := append([]byte(nil), b...)
			for j := at; j < at+max(h.ZeroN, 1) && j < end; j++ {
				z[j] = 0
			}
			r.Nontriv++
			r.Fire("stored-zero-block")
			if o := parseWith(r.NewReader(z, h.Reader), h.Decode); o.err == "" && o.value != first || o.crash != "" {
				r.Violate("damaged", "hop %d: a copy with %d zero bytes at %d of %d: %v", i, h.ZeroN, at, end, o)
			}
		}
		o := parseWith(r.NewReader(b, h.Reader), h.Decode)
		if o.crash != "" || o.err != "" {
			r.Violate("unparsable", "hop %d: the marshalled response: %v", i, o)
			return
		}
		if d := lib.DiffResponse(doc, o.resp); d != "" {
			r.Violate("differs", "hop %d: %s", i, d)
			return
		}
		resp = o.resp
	}
}

// diffResponseDoc compares response documents.
func diffResponseDoc(want, got *model.Doc) string {
	if len(got.Sets) == 0 || len(got.Sets[0].K) != 1 {
		return "no sign-on"
	}
	if d := model.DiffLoose("SONRS", "SONRS", want.Sets[0].K[0], got.Sets[0].K[0]); d != "" {
		return d
	}
	a, b := bySet(want), bySet(got)
	for t, x := range a {
		y := b[t]
		if len(x) != len(y) {
			return fmt.Sprintf("%s: %d messages, expected %d", t, len(y), len(x))
		}
		for i := range x {
			if x[i].T != y[i].T {
				return fmt.Sprintf("%s: message %s, expected %s", t, y[i].T, x[i].T)
			}
			if d := model.DiffLoose(x[i].T, x[i].T, x[i], y[i]); d != "" {
				return d
			}
		}
	}
	for t := range b {
		if len(a[t]) == 0 {
			return "additional message set " + t
		}
	}
	return ""
}

func bySet(d *model.Doc) map[string][]*model.Node {
	m := map[string][]*model.Node{}
	for _, s := range d.Sets[1:] {
		m[s.T] = append(m[s.T], s.K...)
	}
	return m
}

// worldC19broken: a decoded response that breaks a rule is either refused by
// Marshal or its output is accepted.
func worldC19broken(s *Scenario, r *Run) {
	st := s.Stream
	mustCheck(st.Doc, false)
	d := st.Doc
	if st.Break.Rule != "version" {
		d = st.Break.apply(st.Doc)
	}
	b := model.Encode(d, st.Style)
	o := parseWith(bytes.NewReader(b), true)
	if o.err != "" {
		r.Probe("undecodable")
		return
	}
	if st.Break.Rule == "version" {
		badVersion(&o.resp.Version, st.Break.Val)
	}
	var buf *bytes.Buffer
	var err error
	if crash := guard(func() { buf, err = o.resp.Marshal() }); crash != "" {
		r.Violate("crash", "marshalling a rule-breaking response: %s", crash)
		return
	}
	r.Evals++
	r.Nontriv++
	if err != nil {
		r.Probe("marshal-refused")
		return
	}
	r.Probe("marshal-accepted")
	out := append([]byte(nil), buf.Bytes()...)
	if o := parseWith(bytes.NewReader(out), false); o.err != "" || o.crash != "" {
		r.Violate("emitted", "Marshal emitted a document that is refused (%s broken: %s): %v", st.Break.Rule, st.Break.What, o)
	}
}

func init() {
	reg(&Prop{ID: "C19", World: worldC19, Gen: func(g *G) *Scenario {
		s := &Scenario{Sched: g.sched(false)}
		st := g.streamDoc()
		if g.One(4) {
			if b := g.breakRule(st.Doc); b != nil && !b.header() {
				st.Break = b
			}
			if g.One(8) {
				st.Break = &Break{Rule: "version", Val: pick(g, []string{"0", "far", "negative"})}
			}
		} else if g.One(2) {
			st.Muts = g.damage(st.Doc, len(model.Encode(st.Doc, st.Style)))
			for i := range st.Muts {
				if m := &st.Muts[i]; m.Op == "nest" || m.Op == "cut" || g.One(4) {
					*m = g.typed(st.Doc, m.At)
				}
			}
		}
		for n := g.Between(1, 4); n > 0; n-- {
			h := &Hop{Reader: g.reader(), Decode: g.One(3)}
			h.Reader.GapMs = 0
			n := len(model.Encode(st.Doc, st.Style))
			switch g.IntN(4) {
			case 0:
				h.Cut = 1 + g.IntN(n)
			case 1:
				h.Zero, h.ZeroN = 1+g.IntN(n), pick(g, []int{1, 16, 512, 4096})
			case 2:
				h.Cut, h.Zero = 1+g.IntN(n), 1+g.IntN(n)
			}
			st.Hops = append(st.Hops, h)
		}
		s.Stream = st
		return s
	}})
}

var _ = time.Second
