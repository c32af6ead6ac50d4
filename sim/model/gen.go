package model

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
)

// Gen generates valid documents.
type Gen struct {
	R       *rand.Rand
	Version int
	Rich    float64 // probability of optional elements
	List    int     // largest list
	UTF8    bool
	Depth   int
	Echo    float64 // probability that a value repeats an earlier one of the same element, or an entry of a list the one before
	uidN    int
	seen    map[*Field][]string
}

func (g *Gen) pick(s []string) string { return s[g.R.IntN(len(s))] }

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

const plainChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
const oddChars = "&<>'\"/\\.,:;-_()[]{}#*+=%$@!?^~|` "

// Texts that look like something else.
var misleading = []string{"OFXHEADER:100", `OFXHEADER="200"`, "</OFX>", "<OFX>", "<BANKTRANLIST>", "&amp;", "&lt;b&gt;", "&#65;", "&nbsp;", "]]>", "<![CDATA[x]]>", "<!-- x -->", "<?xml?>", "%s%d%n", "%", "\\", `"`, "null", "NaN", "Y", "0", "00012", "-1", "1e9", "1,5", "20200101", "[-5:EST]", "NONE", "ERROR", "XXX"}

// Str makes a string of at most max bytes.
func (g *Gen) Str(max int) string {
	if g.R.IntN(30) == 0 {
		if s := g.pick(misleading); len(s) <= max {
			return s
		}
	}
	n := 1 + g.R.IntN(12)
	if g.R.IntN(8) == 0 {
		n = 1 + g.R.IntN(max)
	}
	if g.R.IntN(25) == 0 {
		n = max
	}
	if n > max {
		n = max
	}
	odd := g.R.IntN(3) == 0
	var b strings.Builder
	for b.Len() < n {
		switch {
		case odd && g.R.IntN(4) == 0:
			b.WriteByte(oddChars[g.R.IntN(len(oddChars))])
		case g.UTF8 && odd && g.R.IntN(6) == 0 && b.Len()+4 <= n:
			b.WriteString(g.pick([]string{"é", "ü", "漢", "€", "Ω", "😀"}))
		default:
			b.WriteByte(plainChars[g.R.IntN(len(plainChars))])
		}
	}
	s := strings.TrimSpace(b.String())
	if s == "" {
		s = "x"
	}
	return s
}

// Date makes an OFX date-time in one of its lexical forms.
func (g *Gen) Date() string {
	y := 1990 + g.R.IntN(50)
	switch g.R.IntN(12) {
	case 0:
		y = 1900 + g.R.IntN(200)
	case 1:
		y = 2000
	}
	mo := 1 + g.R.IntN(12)
	dmax := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[mo-1]
	if mo == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		dmax = 29
	}
	d := 1 + g.R.IntN(dmax)
	if g.R.IntN(6) == 0 {
		d = dmax
	}
	s := fmt.Sprintf("%04d%02d%02d", y, mo, d)
	switch g.R.IntN(6) {
	case 0:
	case 1:
		s += fmt.Sprintf("%02d", g.R.IntN(24))
	case 2:
		s += fmt.Sprintf("%02d%02d", g.R.IntN(24), g.R.IntN(60))
	case 3:
		s += fmt.Sprintf("%02d%02d%02d", g.R.IntN(24), g.R.IntN(60), g.R.IntN(60))
	default:
		s += fmt.Sprintf("%02d%02d%02d.%03d", g.R.IntN(24), g.R.IntN(60), g.R.IntN(60), g.R.IntN(1000))
	}
	return s + g.pick([]string{"", "", "", "[0:GMT]", "[0]", "[-5:EST]", "[-4:EDT]", "[-8:PST]", "[-7]", "[+1:CET]", "[2:CEST]", "[5.50:IST]", "[+5.75]", "[9:JST]", "[-3.50:NST]", "[10:AEST]", "[-10:HST]", "[+12]", "[-2.50:NDT]", "[+0.50]", "[-0.50]", "[-0.25:XXT]", "[4.87:NPT]", "[+5.67:XST]", "[-4.40:VXT]"})
}

// Amt makes an amount in one of its lexical forms.
func (g *Gen) Amt(nonzero bool) string {
	var s string
	digits := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(byte('0' + g.R.IntN(10)))
		}
		return b.String()
	}
	switch g.R.IntN(10) {
	case 0:
		s = "0"
	case 1:
		s = digits(1 + g.R.IntN(25))
	case 2:
		s = digits(1+g.R.IntN(6)) + "." + digits(1+g.R.IntN(12))
	case 3:
		s = "." + digits(1+g.R.IntN(4))
	case 4:
		s = digits(1+g.R.IntN(5)) + "," + digits(2)
	case 5:
		s = "0." + strings.Repeat("0", g.R.IntN(9)) + digits(3)
	default:
		s = fmt.Sprintf("%d.%02d", g.R.IntN(100000), g.R.IntN(100))
	}
	switch g.R.IntN(6) {
	case 0, 1:
		s = "-" + s
	case 2:
		if g.R.IntN(3) == 0 {
			s = "+" + s
		}
	}
	if nonzero {
		if g.R.IntN(12) == 0 {
			// Beyond machine words, which these are multiples of.
			return g.pick([]string{"18446744073709551616", "-36893488147419103232", "4294967296", "340282366920938463463374607431768211456.0"})
		}
		if a, err := ParseAmt(s); err != nil || a.Sign() == 0 {
			return "1.25"
		}
	}
	return s
}

// UID makes a unique identifier.
func (g *Gen) UID() string {
	g.uidN++
	switch g.R.IntN(4) {
	case 0:
		return fmt.Sprintf("%d", 1+g.R.IntN(100000000))
	case 1:
		return g.Str(36)
	}
	return fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", g.R.Uint32(), g.R.IntN(65536), g.R.IntN(65536), g.R.IntN(65536), g.R.Uint64()&0xffffffffffff)
}

// value is a new or repeated value.
func (g *Gen) value(f *Field) string {
	if g.Echo == 0 {
		return g.Value(f)
	}
	if l := g.seen[f]; len(l) > 0 && g.R.Float64() < g.Echo {
		return l[g.R.IntN(len(l))]
	}
	if g.seen == nil {
		g.seen = map[*Field][]string{}
	}
	v := g.Value(f)
	g.seen[f] = append(g.seen[f], v)
	return v
}

// again decides whether a list entry repeats the one before it.
func (g *Gen) again(j int) bool {
	return g.Echo > 0 && j > 0 && g.R.Float64() < g.Echo/4
}

// Value makes a valid value for leaf field f.
func (g *Gen) Value(f *Field) string {
	if f.Fixed != "" {
		return f.Fixed
	}
	switch f.Kind {
	case "str":
		return g.Str(f.Len)
	case "uid":
		return g.UID()
	case "lang":
		return g.pick([]string{"ENG", "FRA", "SPA", "DEU", "USA", "CAN"})
	case "amt":
		return g.Amt(f.NonEmpty)
	case "date":
		return g.Date()
	case "int":
		switch g.R.IntN(8) {
		case 0:
			return "0"
		case 1:
			return fmt.Sprint(g.R.Int64N(1e17))
		case 2:
			return fmt.Sprintf("-%d", 1+g.R.IntN(1000))
		case 3: // zero-padded, as banks write counters and codes
			return fmt.Sprintf("%0*d", 2+g.R.IntN(8), g.R.IntN(5000))
		}
		return fmt.Sprint(1 + g.R.IntN(5000))
	case "bool":
		return g.pick([]string{"Y", "N"})
	case "boolT":
		return "Y"
	case "cur":
		return g.pick(currencies)
	case "enum":
		for {
			if v := g.pick(sortedKeys(Enums[f.Enum])); v != f.Not {
				return v
			}
		}
	case "status":
		return "0"
	}
	panic("kind " + f.Kind)
}

var statusList []int

func init() {
	for c := range StatusCodes {
		statusList = append(statusList, c)
	}
	sort.Ints(statusList)
}

// Agg makes an aggregate named tag of type agg.
func (g *Gen) Agg(tag, agg string) *Node {
	n := &Node{T: tag}
	if agg == "STATUS" {
		code := 0
		if g.R.IntN(3) == 0 {
			code = statusList[g.R.IntN(len(statusList))]
		}
		width := 1
		if g.R.IntN(6) == 0 {
			width = 2 + g.R.IntN(5)
		}
		n.K = []*Node{{T: "CODE", V: fmt.Sprintf("%0*d", width, code)}, {T: "SEVERITY", V: StatusCodes[code].Sev}}
		if g.R.IntN(3) == 0 {
			n.K = append(n.K, &Node{T: "MESSAGE", V: g.Str(255)})
		}
		return n
	}
	g.Depth++
	n.K = g.fields(Aggs[agg].Fields)
	g.Depth--
	if w := Statement[agg]; w != "" && n.Kid("STATUS").Kid("SEVERITY").V == "ERROR" && g.R.IntN(2) == 0 {
		if last := len(n.K) - 1; n.K[last].T == w {
			n.K = n.K[:last]
		}
	}
	if agg == "SONRQ" {
		var k []*Node
		drop := "USERKEY"
		if g.R.IntN(4) == 0 {
			drop = "USERPASS"
		}
		has := false
		for _, x := range n.K {
			if x.T == drop {
				continue
			}
			has = has || x.T == "USERPASS" || x.T == "USERKEY"
			k = append(k, x)
		}
		if !has {
			name, max := "USERPASS", 32
			if drop == "USERPASS" {
				name, max = "USERKEY", 64
			}
			at := 2
			k = append(k[:at:at], append([]*Node{{T: name, V: g.Str(max)}}, k[at:]...)...)
		}
		n.K = k
	}
	return n
}

func (g *Gen) listLen() int {
	if g.List <= 0 {
		return 0
	}
	n := g.R.IntN(g.List + 1)
	if g.Depth > 3 && n > 3 {
		n = 1 + g.R.IntN(3)
	}
	return n
}

func (g *Gen) fields(fs []*Field) []*Node {
	var out []*Node
	chosen := map[string]int{} // exclusive group -> index of the member allowed
	size := map[string]int{}
	all := map[string]bool{}
	for i, f := range fs {
		if f.XGroup != "" {
			size[f.XGroup]++
			if g.R.IntN(size[f.XGroup]) == 0 {
				chosen[f.XGroup] = i
			}
		}
		if f.AGroup != "" {
			if _, ok := all[f.AGroup]; !ok {
				all[f.AGroup] = g.R.Float64() < g.Rich
			}
		}
	}
	for i, f := range fs {
		if f.Since > g.Version {
			continue
		}
		if f.XGroup != "" && chosen[f.XGroup] != i {
			continue
		}
		cnt := 1
		switch {
		case f.Kind == "poly":
			cnt = g.listLen()
			if g.R.IntN(5) == 0 {
				cnt = 0
			}
			if f.Poly == "msgset" && cnt == 0 {
				cnt = 1
			}
			for j := 0; j < cnt; j++ {
				if g.again(j) {
					out = append(out, out[len(out)-1].Clone())
					continue
				}
				if f.Poly == "msgset" {
					s := g.pick(MsgSets)
					out = append(out, &Node{T: s, K: []*Node{g.Agg(s+g.pick([]string{"V1", "V1", "V1", "V2"}), "MSGSET")}})
				} else {
					t := g.pick(Polys[f.Poly])
					out = append(out, g.Agg(t, t))
				}
			}
			continue
		case f.AGroup != "":
			if !all[f.AGroup] {
				cnt = 0
			}
		case f.Max < 0:
			cnt = g.listLen()
			if cnt < f.Min {
				cnt = f.Min
			}
		case f.Max == 2:
			cnt = 0
			if g.R.Float64() < g.Rich {
				cnt = g.R.IntN(3)
			}
		case f.Min == 0:
			if g.R.Float64() >= g.Rich {
				cnt = 0
			}
		}
		for j := 0; j < cnt; j++ {
			switch f.Kind {
			case "wrap":
				g.Depth++
				out = append(out, &Node{T: f.Tag, K: g.fields(f.Kids)})
				g.Depth--
			case "agg":
				if g.again(j) {
					out = append(out, out[len(out)-1].Clone())
					continue
				}
				out = append(out, g.Agg(f.Tag, f.Agg))
			default:
				out = append(out, &Node{T: f.Tag, V: g.value(f)})
			}
		}
	}
	return out
}

// Response makes a valid response document.
func (g *Gen) Response(maxMsgs int) *Doc {
	d := &Doc{Version: g.Version}
	d.Sets = append(d.Sets, &Node{T: "SIGNONMSGSRSV1", K: []*Node{g.Agg("SONRS", "SONRS")}})
	left := 1 + g.R.IntN(maxMsgs)
	mask := g.R.IntN(1<<len(ResponseSets)-1) + 1
	if g.R.IntN(3) != 0 {
		mask = 1 << g.R.IntN(len(ResponseSets))
	}
	for i, s := range ResponseSets {
		if mask&(1<<i) == 0 || left == 0 {
			continue
		}
		n := &Node{T: s.Tag}
		for k := 1 + g.R.IntN(left); k > 0; k-- {
			m := g.pick(s.Msgs)
			n.K = append(n.K, g.Agg(m, m))
			left--
			if g.R.IntN(25) == 0 { // the same once more
				n.K = append(n.K, n.K[len(n.K)-1].Clone())
			}
		}
		d.Sets = append(d.Sets, n)
	}
	return d
}

// Request makes a valid request document.
func (g *Gen) Request(maxMsgs int) *Doc {
	d := &Doc{Version: g.Version}
	d.Sets = append(d.Sets, &Node{T: "SIGNONMSGSRQV1", K: []*Node{g.Agg("SONRQ", "SONRQ")}})
	left := g.R.IntN(maxMsgs + 1)
	mask := g.R.IntN(1<<len(RequestSets)-1) + 1
	for i, s := range RequestSets {
		if mask&(1<<i) == 0 || left == 0 {
			continue
		}
		n := &Node{T: s.Tag}
		for k := 1 + g.R.IntN(left); k > 0; k-- {
			m := g.pick(s.Msgs)
			n.K = append(n.K, g.Agg(m, m))
			left--
			if g.R.IntN(25) == 0 { // the same once more
				n.K = append(n.K, n.K[len(n.K)-1].Clone())
			}
		}
		d.Sets = append(d.Sets, n)
	}
	return d
}

// Reply makes a plausible response to a request document.
func (g *Gen) Reply(rq *Doc) *Doc {
	d := &Doc{Version: g.Version}
	d.Sets = append(d.Sets, &Node{T: "SIGNONMSGSRSV1", K: []*Node{g.Agg("SONRS", "SONRS")}})
	for _, s := range rq.Sets[1:] {
		n := &Node{T: strings.Replace(s.T, "RQV1", "RSV1", 1)}
		for _, m := range s.K {
			t := strings.TrimSuffix(m.T, "RQ") + "RS"
			a := g.Agg(t, t)
			a.Kid("TRNUID").V = m.Kid("TRNUID").V
			n.K = append(n.K, a)
		}
		d.Sets = append(d.Sets, n)
	}
	return d
}
