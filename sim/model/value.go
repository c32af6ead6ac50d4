package model

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Value parsing: independent of the library.

var dateRE = regexp.MustCompile(`^(\d{4})(\d\d)(\d\d)(?:(\d\d)(?:(\d\d)(?:(\d\d)(?:\.(\d{3}))?)?)?)?(?:\[([+-]?\d{1,2})(?:\.(\d\d))?(?::([A-Z]{3,5}))?\])?$`)

// ParseDate parses an OFX date-time; GMT when no zone is given.
func ParseDate(s string) (time.Time, error) {
	m := dateRE.FindStringSubmatch(s)
	if m == nil {
		return time.Time{}, fmt.Errorf("bad date %q", s)
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	off := 0
	if m[8] != "" {
		off = n(8) * 3600
		frac := n(9) * 36
		if strings.HasPrefix(m[8], "-") {
			off -= frac
		} else {
			off += frac
		}
	}
	t := time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), n(7)*1000000, time.FixedZone("", off))
	if t.Day() != n(3) || int(t.Month()) != n(2) || n(4) > 23 || n(5) > 59 || n(6) > 59 || off > 14*3600 || off < -12*3600-1800 {
		return t, fmt.Errorf("bad date %q", s)
	}
	return t, nil
}

var amtRE = regexp.MustCompile(`^[+-]?(\d+([.,]\d*)?|[.,]\d+)$`)

// ParseAmt parses an OFX amount exactly.
func ParseAmt(s string) (*big.Rat, error) {
	if !amtRE.MatchString(s) {
		return nil, fmt.Errorf("bad amount %q", s)
	}
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimLeft(s, "+-")
	s = strings.Replace(s, ",", ".", 1)
	ip, fp, _ := strings.Cut(s, ".")
	if ip+fp == "" {
		return nil, fmt.Errorf("bad amount %q", s)
	}
	num, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		return nil, fmt.Errorf("bad amount %q", s)
	}
	if neg {
		num.Neg(num)
	}
	den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(fp))), nil)
	return new(big.Rat).SetFrac(num, den), nil
}

var intRE = regexp.MustCompile(`^[+-]?\d{1,18}$`)

var currencies = strings.Fields("USD EUR GBP JPY CAD CHF AUD NZD INR BRL ZAR SEK NOK DKK MXN SGD HKD CNY KRW PLN")

func isCur(s string) bool {
	for _, c := range currencies {
		if c == s {
			return true
		}
	}
	return false
}

// CheckValue reports whether v is a valid wire value for leaf field f.
func CheckValue(f *Field, v string) error {
	if v != strings.TrimSpace(v) || v == "" {
		return fmt.Errorf("%s: empty or padded value %q", f.Tag, v)
	}
	if f.Fixed != "" && v != f.Fixed {
		return fmt.Errorf("%s: must be %s", f.Tag, f.Fixed)
	}
	for _, r := range v {
		if r < 32 || r == 127 || r == 0xFFFD {
			return fmt.Errorf("%s: control character in %q", f.Tag, v)
		}
	}
	switch f.Kind {
	case "str":
		if f.Len > 0 && len(v) > f.Len {
			return fmt.Errorf("%s: too long", f.Tag)
		}
	case "uid":
		if len(v) > 36 {
			return fmt.Errorf("%s: too long", f.Tag)
		}
	case "lang":
		if len(v) != 3 {
			return fmt.Errorf("%s: not 3 letters", f.Tag)
		}
	case "amt":
		a, err := ParseAmt(v)
		if err != nil {
			return err
		}
		if f.NonEmpty && a.Sign() == 0 {
			return fmt.Errorf("%s: zero", f.Tag)
		}
	case "date":
		if _, err := ParseDate(v); err != nil {
			return err
		}
	case "int":
		if !intRE.MatchString(v) {
			return fmt.Errorf("%s: bad int %q", f.Tag, v)
		}
	case "status":
		n, err := strconv.Atoi(v)
		if err != nil {
			return err
		}
		if _, ok := StatusCodes[n]; !ok {
			return fmt.Errorf("unknown status %d", n)
		}
	case "bool":
		if v != "Y" && v != "N" {
			return fmt.Errorf("%s: bad bool %q", f.Tag, v)
		}
	case "boolT":
		if v != "Y" {
			return fmt.Errorf("%s: bad bool %q", f.Tag, v)
		}
	case "cur":
		if !isCur(v) {
			return fmt.Errorf("%s: bad currency %q", f.Tag, v)
		}
	case "enum":
		if _, ok := Enums[f.Enum][v]; !ok || v == f.Not {
			return fmt.Errorf("%s: bad %s %q", f.Tag, f.Enum, v)
		}
	default:
		return fmt.Errorf("%s: kind %s", f.Tag, f.Kind)
	}
	return nil
}

// SameValue compares two wire values of leaf field f by meaning.
func SameValue(f *Field, a, b string) bool {
	switch f.Kind {
	case "amt":
		x, e1 := ParseAmt(a)
		y, e2 := ParseAmt(b)
		return e1 == nil && e2 == nil && x.Cmp(y) == 0
	case "date":
		x, e1 := ParseDate(a)
		y, e2 := ParseDate(b)
		return e1 == nil && e2 == nil && x.Equal(y)
	case "int", "status":
		x, e1 := strconv.ParseInt(a, 10, 64)
		y, e2 := strconv.ParseInt(b, 10, 64)
		return e1 == nil && e2 == nil && x == y
	}
	return a == b
}

// Statement names the aggregate, last in each of these responses, that a server
// leaves out when the status is an error.
var Statement = map[string]string{"STMTTRNRS": "STMTRS", "CCSTMTTRNRS": "CCSTMTRS"}

// Check reports whether the children of an aggregate are valid for version.
func Check(agg string, n *Node, version int) error {
	a := Aggs[agg]
	if a == nil {
		return fmt.Errorf("unknown aggregate %s", agg)
	}
	if n.V != "" {
		return fmt.Errorf("%s: aggregate with a value", n.T)
	}
	fields := a.Fields
	if w := Statement[agg]; w != "" && n.Kid(w) == nil {
		if st := n.Kid("STATUS"); st != nil && st.Kid("SEVERITY") != nil && st.Kid("SEVERITY").V == "ERROR" {
			fields = fields[:len(fields)-1]
		}
	}
	if err := checkFields(n.T, fields, n.K, version); err != nil {
		return err
	}
	switch agg {
	case "STATUS":
		c, _ := strconv.Atoi(n.Kid("CODE").V)
		if StatusCodes[c].Sev != n.Kid("SEVERITY").V {
			return fmt.Errorf("STATUS: severity does not match code")
		}
	case "SONRQ":
		if (n.Kid("USERPASS") == nil) == (n.Kid("USERKEY") == nil) {
			return fmt.Errorf("SONRQ: exactly one of USERPASS and USERKEY")
		}
	}
	return nil
}

func checkFields(where string, fields []*Field, kids []*Node, version int) error {
	i := 0
	xg := map[string]int{}
	ag := map[string][2]int{}
	for _, f := range fields {
		cnt := 0
		for i < len(kids) && (f.Max < 0 || cnt < f.Max) {
			k := kids[i]
			if f.Kind == "poly" {
				if f.Poly == "msgset" {
					ok := false
					for _, s := range MsgSets {
						ok = ok || s == k.T
					}
					if !ok {
						break
					}
					if len(k.K) != 1 || !(k.K[0].T == k.T+"V1" || k.K[0].T == k.T+"V2") || k.V != "" {
						return fmt.Errorf("%s: bad message set", k.T)
					}
					if err := Check("MSGSET", k.K[0], version); err != nil {
						return err
					}
				} else {
					ok := false
					for _, s := range Polys[f.Poly] {
						ok = ok || s == k.T
					}
					if !ok {
						break
					}
					if err := Check(k.T, k, version); err != nil {
						return err
					}
				}
				i++
				cnt++
				continue
			}
			if k.T != f.Tag {
				break
			}
			if f.Since > version {
				return fmt.Errorf("%s>%s: not in version %d", where, f.Tag, version)
			}
			switch f.Kind {
			case "wrap":
				if k.V != "" {
					return fmt.Errorf("%s: wrapper with a value", k.T)
				}
				if err := checkFields(k.T, f.Kids, k.K, version); err != nil {
					return err
				}
			case "agg":
				if err := Check(f.Agg, k, version); err != nil {
					return err
				}
			default:
				if len(k.K) != 0 {
					return fmt.Errorf("%s: value element with children", k.T)
				}
				if err := CheckValue(f, k.V); err != nil {
					return err
				}
			}
			i++
			cnt++
		}
		if cnt < f.Min {
			return fmt.Errorf("%s: missing %s", where, f.Tag)
		}
		if cnt > 0 && f.XGroup != "" {
			xg[f.XGroup]++
			if xg[f.XGroup] > 1 {
				return fmt.Errorf("%s: more than one of group %s", where, f.XGroup)
			}
		}
		if f.AGroup != "" {
			g := ag[f.AGroup]
			g[0]++
			if cnt > 0 {
				g[1]++
			}
			ag[f.AGroup] = g
		}
	}
	if i < len(kids) {
		return fmt.Errorf("%s: unexpected %s", where, kids[i].T)
	}
	for g, c := range ag {
		if c[1] != 0 && c[1] != c[0] {
			return fmt.Errorf("%s: incomplete group %s", where, g)
		}
	}
	return nil
}

// Doc is one OFX document: a version and its message sets in order.
type Doc struct {
	Version int     `json:"version"`
	Sets    []*Node `json:"sets"`

	// One entry of the header replaced, or left out: only ever set in a
	// document that is made to break a rule.
	HdrKey string `json:"-"`
	HdrVal string `json:"-"`
	Root   string `json:"-"` // instead of OFX, likewise
}

// HdrGone leaves a header entry out.
const HdrGone = "-"

// CheckDoc validates a whole document; rq selects request or response sets.
func CheckDoc(d *Doc, rq bool) error {
	ok := false
	for _, v := range Versions {
		ok = ok || v == d.Version
	}
	if !ok {
		return fmt.Errorf("bad version %d", d.Version)
	}
	suffix, sonAgg, sets := "RS", "SONRS", ResponseSets
	if rq {
		suffix, sonAgg, sets = "RQ", "SONRQ", RequestSets
	}
	if len(d.Sets) == 0 || d.Sets[0].T != "SIGNONMSGS"+suffix+"V1" || len(d.Sets[0].K) != 1 || d.Sets[0].K[0].T != sonAgg {
		return fmt.Errorf("no signon")
	}
	if err := Check(sonAgg, d.Sets[0].K[0], d.Version); err != nil {
		return err
	}
	at := 0
	for _, s := range d.Sets[1:] {
		for at < len(sets) && sets[at].Tag != s.T {
			at++
		}
		if at == len(sets) {
			return fmt.Errorf("unexpected or misplaced message set %s", s.T)
		}
		if rq && len(s.K) == 0 {
			return fmt.Errorf("empty message set %s", s.T)
		}
		for _, m := range s.K {
			ok := false
			for _, t := range sets[at].Msgs {
				ok = ok || t == m.T
			}
			if !ok {
				return fmt.Errorf("message %s in %s", m.T, s.T)
			}
			if err := Check(m.T, m, d.Version); err != nil {
				return err
			}
		}
		at++
	}
	return nil
}

// Prune removes empty value elements and an empty FI aggregate (an element
// without content carries no information).
func Prune(d *Doc) {
	var f func(n *Node) bool
	f = func(n *Node) bool {
		if n.V != "" {
			return true
		}
		var k []*Node
		for _, c := range n.K {
			if f(c) {
				k = append(k, c)
			}
		}
		n.K = k
		return len(k) > 0 || !leafTags[n.T] && n.T != "FI"
	}
	for _, s := range d.Sets {
		for _, m := range s.K {
			f(m)
		}
	}
}
