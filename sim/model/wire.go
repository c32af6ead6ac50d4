package model

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
)

// Style is the lexical form of an encoded document.
type Style struct {
	NL       string `json:"nl,omitempty"`      // newline between elements ("" none)
	Indent   bool   `json:"indent,omitempty"`  // indentation
	Close    int    `json:"close,omitempty"`   // SGML value elements: 0 unclosed, 1 closed, 2 mixed
	Esc      int    `json:"esc,omitempty"`     // 0 named, 1 numeric, 2 CDATA (XML only)
	Pad      int    `json:"pad,omitempty"`     // one in Pad values padded with white space (0 never)
	Hdr      int    `json:"hdr,omitempty"`     // header form
	HdrPad   int    `json:"hdr_pad,omitempty"` // extra white space after the SGML header
	Type1    bool   `json:"type1,omitempty"`
	Trailer  string `json:"trailer,omitempty"` // after </OFX>
	Seed     uint64 `json:"seed,omitempty"`
	Encoding string `json:"encoding,omitempty"`
	BOM      bool   `json:"bom,omitempty"`
	Nbsp     bool   `json:"nbsp,omitempty"` // spaces within values as &nbsp;
	Refs     bool   `json:"refs,omitempty"` // quotes and letters outside ASCII as references (XML only)
	Ext      int    `json:"ext,omitempty"`  // one in Ext places holds a private element of the server's vendor (0 never)
}

// RandomStyle picks a style for a version.
func RandomStyle(r *rand.Rand, version int, utf8 bool) Style {
	s := Style{Seed: r.Uint64() >> 12}
	s.NL = []string{"", "\n", "\r\n", "\n"}[r.IntN(4)]
	s.Indent = s.NL != "" && r.IntN(2) == 0
	if version < 200 {
		s.Close = r.IntN(3)
		s.Hdr = r.IntN(4)
		s.Type1 = r.IntN(5) == 0
		if utf8 {
			s.Encoding = "UTF-8"
		} else {
			s.Encoding = []string{"USASCII", "USASCII", "UNICODE", "UTF-8"}[r.IntN(4)]
		}
		s.Esc = r.IntN(2)
	} else {
		s.Hdr = r.IntN(4)
		if r.IntN(6) == 0 {
			s.Hdr = r.IntN(16)
		}
		s.BOM = r.IntN(12) == 0
		s.Esc = r.IntN(3)
	}
	if r.IntN(3) == 0 {
		s.Pad = 1 + r.IntN(6)
	}
	s.Nbsp = r.IntN(8) == 0
	s.Refs = version >= 200 && r.IntN(6) == 0
	if r.IntN(6) == 0 {
		s.Ext = []int{3, 10, 40}[r.IntN(3)]
	}
	s.Trailer = []string{"", "\n", "\r\n", "\n\n", "  "}[r.IntN(5)]
	return s
}

type wenc struct {
	b   strings.Builder
	s   Style
	xml bool
	ctr uint64
}

func (w *wenc) rnd(n uint64) uint64 {
	w.ctr++
	z := w.s.Seed + w.ctr*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return ((z ^ (z >> 31)) >> 3) % n
}

func (w *wenc) esc(v string) string {
	if w.s.Esc == 2 && w.xml && strings.ContainsAny(v, "&<>") && !strings.Contains(v, "]]>") {
		return "<![CDATA[" + v + "]]>"
	}
	if w.s.Esc == 1 {
		v = strings.NewReplacer("&", "&#38;", "<", "&#60;", ">", "&#x3e;").Replace(v)
	} else {
		v = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(v)
	}
	if w.s.Nbsp {
		v = strings.ReplaceAll(v, " ", "&nbsp;")
	}
	if w.s.Refs {
		var b strings.Builder
		for _, r := range v {
			switch {
			case r == '"':
				b.WriteString("&quot;")
			case r == '\'':
				b.WriteString("&apos;")
			case r > 127 && w.rnd(2) == 0:
				fmt.Fprintf(&b, "&#x%X;", r)
			case r > 127:
				fmt.Fprintf(&b, "&#%d;", r)
			default:
				b.WriteRune(r)
			}
		}
		v = b.String()
	}
	return v
}

func (w *wenc) line(depth int) {
	if w.s.NL == "" {
		return
	}
	w.b.WriteString(w.s.NL)
	if w.s.Indent {
		w.b.WriteString(strings.Repeat("  ", depth))
	}
}

// leaf says whether n is a value element (n.V set).
func (w *wenc) node(n *Node, depth int) {
	w.b.WriteString("<" + n.T + ">")
	if n.V != "" {
		v := w.esc(n.V)
		if w.s.Pad > 0 && w.rnd(uint64(w.s.Pad)) == 0 {
			// OFX ignores white space around values.
			if strings.HasPrefix(v, "<![") {
			} else {
				p := []string{" ", " ", "\t", "  ", "\n", "\r\n\t"}[w.rnd(6)]
				if w.rnd(2) == 0 {
					v = v + p
				} else {
					v = p + v
				}
			}
		}
		w.b.WriteString(v)
		closed := w.xml || !Unclosable(n.T) || w.s.Close == 1 || w.s.Close == 2 && w.rnd(2) == 0
		if closed {
			w.b.WriteString("</" + n.T + ">")
		}
		return
	}
	ext := w.s.Ext > 0 && extensible(n.T)
	for _, k := range n.K {
		if ext && w.rnd(uint64(w.s.Ext)) == 0 {
			w.private(depth+1, false)
		}
		w.line(depth + 1)
		w.node(k, depth+1)
	}
	if ext && w.rnd(uint64(w.s.Ext)) == 0 {
		w.private(depth+1, true)
	}
	w.line(depth)
	w.b.WriteString("</" + n.T + ">")
}

// extensible says whether vendors may add elements of their own to an
// aggregate: not to lists of aggregates and not around them.
func extensible(tag string) bool {
	switch tag {
	case "OFX", "INVTRANLIST", "INVPOSLIST", "INVOOLIST", "SECLIST", "MSGSETLIST":
		return false
	}
	return !strings.Contains(tag, "MSGSRSV") && !(strings.HasSuffix(tag, "MSGSET")) && !strings.HasPrefix(tag, "SIGNONMSGS")
}

// private writes an element of the server's vendor; SGML ones may stay open
// at the end of an aggregate.
func (w *wenc) private(depth int, last bool) {
	names := []string{"INTU.BID", "INTU.TIMEOUT", "BOFA.REWARD", "ACME.X1", "VANG.NOTE"}
	name := names[w.rnd(uint64(len(names)))]
	w.line(depth)
	switch {
	case w.rnd(5) == 0:
		w.b.WriteString("<" + name + "S><" + name + ">1</" + name + "><NAME>other</NAME></" + name + "S>")
	case last && !w.xml && w.rnd(2) == 0:
		w.b.WriteString("<" + name + ">00" + strconv.Itoa(int(w.rnd(100))))
	default:
		w.b.WriteString("<" + name + ">" + strconv.Itoa(int(w.rnd(100000))) + "</" + name + ">")
	}
}

// Encode renders d.
func Encode(d *Doc, s Style) []byte {
	w := &wenc{s: s, xml: d.Version >= 200}
	if !w.xml {
		sec := "NONE"
		if s.Type1 {
			sec = "TYPE1"
		}
		enc, cs := s.Encoding, "1252"
		if enc == "" {
			enc = "USASCII"
		}
		switch enc {
		case "UTF-8":
			cs = "NONE"
		case CP1252:
			enc = "USASCII"
		}
		kv := [][2]string{{"OFXHEADER", "100"}, {"DATA", "OFXSGML"}, {"VERSION", strconv.Itoa(d.Version)}, {"SECURITY", sec}, {"ENCODING", enc}, {"CHARSET", cs}, {"COMPRESSION", "NONE"}, {"OLDFILEUID", "NONE"}, {"NEWFILEUID", "NONE"}}
		for _, p := range kv {
			if p[0] == d.HdrKey {
				if d.HdrVal == HdrGone {
					continue
				}
				p[1] = d.HdrVal
			}
			switch s.Hdr {
			case 1:
				w.b.WriteString(p[0] + ": " + p[1] + "\r\n")
			case 2:
				w.b.WriteString(p[0] + ":" + p[1] + "\n")
			case 3:
				w.b.WriteString(p[0] + ":" + p[1])
				if p[0] == "NEWFILEUID" || p[0] == "OLDFILEUID" || p[0] == "CHARSET" || p[0] == "SECURITY" || p[0] == "ENCODING" {
					w.b.WriteString(" ")
				}
			default:
				w.b.WriteString(p[0] + ":" + p[1] + "\r\n")
			}
		}
		if s.Hdr != 3 && s.Hdr != 2 {
			w.b.WriteString("\r\n")
		}
		w.b.WriteString(strings.Repeat(" ", s.HdrPad))
	} else {
		nl := "\r\n"
		if s.Hdr&1 == 1 {
			nl = "\n"
		}
		if s.BOM {
			w.b.WriteString("\ufeff")
		}
		if s.Hdr&2 == 2 {
			w.b.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + nl)
		} else {
			w.b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + nl)
		}
		at := []string{`OFXHEADER="200"`, fmt.Sprintf(`VERSION="%d"`, d.Version), `SECURITY="NONE"`, `OLDFILEUID="NONE"`, `NEWFILEUID="NONE"`}
		if d.HdrKey != "" {
			broken := fmt.Sprintf(`%s="%s"`, d.HdrKey, d.HdrVal)
			found := false
			for i, a := range at {
				if strings.HasPrefix(a, d.HdrKey+"=") {
					at[i], found = broken, true
					if d.HdrVal == HdrGone {
						at[i] = ""
					}
				}
			}
			if !found {
				at[3] += " " + broken
			}
		}
		sep, end := " ", ""
		if s.Hdr&4 == 4 { // another order
			at[0], at[1], at[2], at[4] = at[4], at[0], at[1], at[2]
		}
		if d.HdrKey != "" && s.Seed&1 == 1 { // a document to be refused in any order
			rand.New(rand.NewPCG(s.Seed, 7)).Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		}
		if s.Hdr&8 == 8 { // other white space
			sep, end = nl+"  ", " "
		}
		w.b.WriteString("<?OFX " + strings.Join(at, sep) + end + "?>" + nl)
	}
	root := &Node{T: "OFX", K: d.Sets}
	if d.Root != "" {
		root.T = d.Root
	}
	w.node(root, 0)
	w.b.WriteString(s.Trailer)
	if s.Encoding == CP1252 {
		var out []byte
		for _, r := range w.b.String() {
			switch {
			case r == '€':
				out = append(out, 0x80)
			case r < 0x80 || r >= 0xa0 && r <= 0xff:
				out = append(out, byte(r))
			default:
				out = append(out, '?')
			}
		}
		return out
	}
	return []byte(w.b.String())
}

// CP1252 is the encoding of documents in the character set Windows-1252.
const CP1252 = "1252"

// To1252 replaces the letters of d that Windows-1252 lacks, and reports
// whether d has any letter outside ASCII.
func To1252(d *Doc) (any bool) {
	rep := strings.NewReplacer("漢", "ç", "Ω", "ß", "😀", "ñ")
	for _, s := range d.Sets {
		s.Walk(func(n *Node) {
			n.V = rep.Replace(n.V)
			for _, r := range n.V {
				any = any || r > 127
			}
		})
	}
	return
}

// Decoded is the result of the independent decoder.
type Decoded struct {
	Doc      *Doc
	SGML     bool
	Header   string
	Body     string // everything after the header
	Closed   int    // value elements with a closing tag
	Unclosed int    // value elements without
	// UnclosedTags / ClosedTags name them.
	ClosedTags, UnclosedTags map[string]bool
}

// Decode reads a document by the OFX rules, tolerating unclosed value
// elements in SGML.  Character data is kept exactly (no trimming) when exact.
func Decode(b []byte, exact bool) (*Decoded, error) {
	s := string(b)
	out := &Decoded{Doc: &Doc{}, ClosedTags: map[string]bool{}, UnclosedTags: map[string]bool{}}
	i := strings.Index(s, "<OFX>")
	if i < 0 {
		return nil, fmt.Errorf("no <OFX> element")
	}
	out.Header, out.Body = s[:i], s[i:]
	h := out.Header
	switch {
	case strings.HasPrefix(h, "OFXHEADER:100"):
		out.SGML = true
		kv := map[string]string{}
		for _, l := range strings.Split(h, "\n") {
			l = strings.TrimSuffix(l, "\r")
			if l == "" {
				continue
			}
			k, v, ok := strings.Cut(l, ":")
			if !ok {
				return nil, fmt.Errorf("bad header line %q", l)
			}
			kv[k] = v
		}
		v, err := strconv.Atoi(kv["VERSION"])
		if err != nil {
			return nil, fmt.Errorf("bad VERSION header")
		}
		if kv["DATA"] != "OFXSGML" || kv["SECURITY"] != "NONE" || kv["COMPRESSION"] != "NONE" {
			return nil, fmt.Errorf("bad header %q", h)
		}
		out.Doc.Version = v
	case strings.HasPrefix(h, "<?xml "):
		j := strings.Index(h, "<?OFX ")
		if j < 0 {
			return nil, fmt.Errorf("no OFX processing instruction")
		}
		if !strings.Contains(h, `OFXHEADER="200"`) {
			return nil, fmt.Errorf("bad header %q", h)
		}
		k := strings.Index(h, `VERSION="`)
		for k > 0 && strings.HasSuffix(h[:k], " ") == false {
			n := strings.Index(h[k+1:], `VERSION="`)
			if n < 0 {
				return nil, fmt.Errorf("no version")
			}
			k += 1 + n
		}
		if k < 0 || len(h) < k+12 {
			return nil, fmt.Errorf("no version")
		}
		v, err := strconv.Atoi(h[k+9 : k+12])
		if err != nil {
			return nil, fmt.Errorf("bad version")
		}
		out.Doc.Version = v
	default:
		return nil, fmt.Errorf("no OFX header: %.60q", h)
	}
	// Tokenise.
	type tok struct {
		kind byte // < / t
		s    string
	}
	var toks []tok
	p := out.Body
	for len(p) > 0 {
		if strings.HasPrefix(p, "<![CDATA[") {
			e := strings.Index(p, "]]>")
			if e < 0 {
				return nil, fmt.Errorf("unterminated CDATA")
			}
			toks = append(toks, tok{'t', p[9:e]})
			p = p[e+3:]
			continue
		}
		if p[0] == '<' {
			e := strings.IndexByte(p, '>')
			if e < 0 {
				return nil, fmt.Errorf("unterminated tag")
			}
			name := p[1:e]
			k := byte('<')
			if strings.HasPrefix(name, "/") {
				k, name = '/', name[1:]
			}
			if name == "" || strings.ContainsAny(name, " <&\t\r\n?!") {
				return nil, fmt.Errorf("bad tag %q", p[:e+1])
			}
			toks = append(toks, tok{k, name})
			p = p[e+1:]
			continue
		}
		e := strings.IndexByte(p, '<')
		if e < 0 {
			e = len(p)
		}
		t, err := unescape(p[:e])
		if err != nil {
			return nil, err
		}
		toks = append(toks, tok{'t', t})
		p = p[e:]
	}
	at := 0
	blank := func() {
		for at < len(toks) && toks[at].kind == 't' && strings.TrimSpace(toks[at].s) == "" {
			at++
		}
	}
	var elem func() (*Node, error)
	elem = func() (*Node, error) {
		n := &Node{T: toks[at].s}
		at++
		if at < len(toks) && toks[at].kind == 't' && strings.TrimSpace(toks[at].s) != "" {
			v := ""
			for at < len(toks) && toks[at].kind == 't' {
				v += toks[at].s
				at++
			}
			if at < len(toks) && toks[at].kind == '/' && toks[at].s == n.T {
				at++
				out.Closed++
				out.ClosedTags[n.T] = true
				if !exact {
					v = strings.TrimSpace(v)
				}
			} else {
				if !out.SGML {
					return nil, fmt.Errorf("unclosed element %s", n.T)
				}
				out.Unclosed++
				out.UnclosedTags[n.T] = true
				if !exact {
					v = strings.TrimSpace(v)
				} else {
					v = strings.TrimRight(v, " \r\n") // layout of the next line
				}
			}
			n.V = v
			return n, nil
		}
		if leafTags[n.T] {
			// A value element without a value.
			blank()
			if at < len(toks) && toks[at].kind == '/' && toks[at].s == n.T {
				at++
				return n, nil
			}
			if !out.SGML {
				return nil, fmt.Errorf("unclosed element %s", n.T)
			}
			return n, nil
		}
		for {
			blank()
			if at >= len(toks) {
				return nil, fmt.Errorf("document ends inside %s", n.T)
			}
			switch toks[at].kind {
			case '/':
				if toks[at].s != n.T {
					return nil, fmt.Errorf("</%s> inside <%s>", toks[at].s, n.T)
				}
				at++
				return n, nil
			case 't':
				return nil, fmt.Errorf("text %q inside aggregate %s", toks[at].s, n.T)
			}
			k, err := elem()
			if err != nil {
				return nil, err
			}
			n.K = append(n.K, k)
		}
	}
	blank()
	if at >= len(toks) || toks[at].kind != '<' {
		return nil, fmt.Errorf("no root")
	}
	root, err := elem()
	if err != nil {
		return nil, err
	}
	blank()
	if at != len(toks) {
		return nil, fmt.Errorf("content after </OFX>")
	}
	out.Doc.Sets = root.K
	return out, nil
}

func unescape(s string) (string, error) {
	if !strings.Contains(s, "&") {
		return s, nil
	}
	var b strings.Builder
	for len(s) > 0 {
		i := strings.IndexByte(s, '&')
		if i < 0 {
			b.WriteString(s)
			break
		}
		b.WriteString(s[:i])
		s = s[i:]
		e := strings.IndexByte(s, ';')
		if e < 0 {
			return "", fmt.Errorf("bare & in %q", s)
		}
		ent := s[1:e]
		switch ent {
		case "amp":
			b.WriteByte('&')
		case "lt":
			b.WriteByte('<')
		case "gt":
			b.WriteByte('>')
		case "quot":
			b.WriteByte('"')
		case "apos":
			b.WriteByte('\'')
		default:
			if len(ent) < 2 || ent[0] != '#' {
				return "", fmt.Errorf("unknown entity &%s;", ent)
			}
			base, d := 10, ent[1:]
			if d[0] == 'x' {
				base, d = 16, d[1:]
			}
			n, err := strconv.ParseInt(d, base, 32)
			if err != nil {
				return "", fmt.Errorf("bad entity &%s;", ent)
			}
			b.WriteRune(rune(n))
		}
		s = s[e+1:]
	}
	return b.String(), nil
}

// DiffNodes compares two element trees of aggregate type agg by meaning and
// returns the first difference.
func DiffAgg(path, agg string, want, got *Node) string {
	return diffFields(path, Aggs[agg].Fields, want.K, got.K)
}

func names(k []*Node) string {
	var s []string
	for _, n := range k {
		s = append(s, n.T)
	}
	return strings.Join(s, ",")
}

func diffFields(path string, fields []*Field, want, got []*Node) string {
	if names(want) != names(got) {
		return fmt.Sprintf("%s: elements [%s], expected [%s]", path, names(got), names(want))
	}
	i := 0
	for _, f := range fields {
		for i < len(want) {
			w, g := want[i], got[i]
			if f.Kind == "poly" || w.T != f.Tag {
				break
			}
			p := path + ">" + w.T
			switch f.Kind {
			case "wrap":
				if d := diffFields(p, f.Kids, w.K, g.K); d != "" {
					return d
				}
			case "agg":
				if d := DiffAgg(p, f.Agg, w, g); d != "" {
					return d
				}
			default:
				if len(g.K) > 0 || !SameValue(f, w.V, g.V) {
					return fmt.Sprintf("%s: %q, expected %q", p, g.V, w.V)
				}
			}
			i++
			if f.Max == 1 {
				break
			}
		}
	}
	if i < len(want) {
		return fmt.Sprintf("%s: cannot compare %s", path, want[i].T)
	}
	return ""
}
