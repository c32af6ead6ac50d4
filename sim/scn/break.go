package scn

import (
	"fmt"
	"strings"

	"verif/sim/model"
)

// Break is one violation of an OFX rule put into a valid response.
type Break struct {
	Rule string `json:"rule"`
	Site int    `json:"site"`
	Val  string `json:"val,omitempty"` // the offending value, "" missing, " " present but empty
	What string `json:"what,omitempty"`
}

// place is where a rule can be broken.
type place struct {
	what string
	do   func(val string)
}

type rule struct {
	name string
	vals []string
	// find lists the places of a (private copy of a) document.
	find func(d *model.Doc) []place
}

// gone removes an element or empties or changes its value.
func gone(s model.Site) place {
	return place{strings.Join(s.Path, ">"), func(val string) {
		switch val {
		case "":
			s.Parent.Remove(s.N)
		case " ":
			s.N.V, s.N.K = "", nil
		default:
			s.N.V = val
		}
	}}
}

// sites finds value elements.
func sites(match func(s *model.Site, d *model.Doc) bool) func(d *model.Doc) []place {
	return func(d *model.Doc) (out []place) {
		model.WalkTyped(d, func(s model.Site) {
			if match(&s, d) {
				out = append(out, gone(s))
			}
		})
		return
	}
}

func under(s *model.Site, tags ...string) bool {
	// The last elements of the path are exactly these.
	if len(s.Path) < len(tags) {
		return false
	}
	for i, t := range tags {
		if s.Path[len(s.Path)-len(tags)+i] != t {
			return false
		}
	}
	return true
}

// Bank statement transactions are the ones whose rules the library checks
// (those embedded in investment statements are not).
func bankTran(s *model.Site) bool { return s.Path[0] == "BANKMSGSRSV1" }

func leaf(tags ...string) func(s *model.Site, d *model.Doc) bool {
	return func(s *model.Site, _ *model.Doc) bool { return bankTran(s) && under(s, tags...) }
}

// required makes the rules that these elements must be present.
func required(name string, vals []string, paths ...[]string) rule {
	return rule{name, vals, sites(func(s *model.Site, _ *model.Doc) bool {
		for _, p := range paths {
			if bankTran(s) && under(s, p...) {
				return true
			}
		}
		return false
	})}
}

// insert finds aggregates and adds something to them.
func insert(match func(s *model.Site, d *model.Doc) bool, add func(n *model.Node)) func(d *model.Doc) []place {
	return func(d *model.Doc) (out []place) {
		model.WalkTyped(d, func(s model.Site) {
			if match(&s, d) {
				out = append(out, place{strings.Join(s.Path, ">"), func(string) { add(s.N) }})
			}
		})
		return
	}
}

func nd(t, v string, k ...*model.Node) *model.Node { return &model.Node{T: t, V: v, K: k} }

func kind(k string) func(s *model.Site, d *model.Doc) bool {
	return func(s *model.Site, d *model.Doc) bool { return s.F.Kind == k }
}

func image() *model.Node {
	return nd("IMAGEDATA", "", nd("IMAGETYPE", "STATEMENT"), nd("IMAGEREF", "r"), nd("IMAGEREFTYPE", "OPAQUE"))
}

func currency(t string) *model.Node { return nd(t, "", nd("CURRATE", "1.5"), nd("CURSYM", "CAD")) }

var absent = []string{"", " "}

func rules() []rule {
	before := func(n *model.Node, tags string, c *model.Node) {
		// After the last of the elements that precede c.
		var at *model.Node
		for _, k := range n.K {
			if strings.Contains(" "+tags+" ", " "+k.T+" ") {
				at = k
			}
		}
		n.InsertAfter(at, c)
	}
	const upToFitid = "TRNTYPE DTPOSTED DTUSER DTAVAIL TRNAMT FITID CORRECTFITID CORRECTACTION SRVRTID CHECKNUM REFNUM SIC PAYEEID"
	const upToExtd = upToFitid + " NAME PAYEE EXTDNAME"
	const upToImg = upToExtd + " BANKACCTTO CCACCTTO MEMO IMAGEDATA"
	tran := func(has, hasnt string, since, until int) func(s *model.Site, d *model.Doc) bool {
		return func(s *model.Site, d *model.Doc) bool {
			return bankTran(s) && under(s, "STMTTRN") && d.Version >= since && (until == 0 || d.Version < until) &&
				(has == "" || s.N.Kid(has) != nil) && (hasnt == "" || s.N.Kid(hasnt) == nil)
		}
	}
	checked := func(s *model.Site) bool { // STATUS aggregates the library validates
		return under(s, "SONRS", "STATUS", s.F.Tag) || under(s, "STMTTRNRS", "STATUS", s.F.Tag)
	}
	return []rule{
		{"language", []string{"", " ", "EN", "ENGL", "E"}, sites(func(s *model.Site, _ *model.Doc) bool { return under(s, "SONRS", "LANGUAGE") })},
		{"severity", []string{"", " ", "BOGUS", "info", "FATAL", "INFOS"}, sites(func(s *model.Site, _ *model.Doc) bool { return checked(s) && s.F.Tag == "SEVERITY" })},
		{"severity-code", []string{"x"}, func(d *model.Doc) (out []place) {
			model.WalkTyped(d, func(s model.Site) {
				if checked(&s) && s.F.Tag == "SEVERITY" {
					out = append(out, place{strings.Join(s.Path, ">"), func(string) {
						s.N.V = map[string]string{"INFO": "WARN", "WARN": "ERROR", "ERROR": "INFO"}[s.N.V]
					}})
				}
			})
			return
		}},
		{"status-code", []string{"99999", "-1", "3", "2024", "15522", "123"}, sites(func(s *model.Site, _ *model.Doc) bool { return checked(s) && s.F.Tag == "CODE" })},
		{"trnuid", []string{"", " ", strings.Repeat("u", 37), strings.Repeat("0", 300)}, sites(func(s *model.Site, _ *model.Doc) bool { return len(s.Path) == 3 && s.F.Tag == "TRNUID" })},
		required("curdef", absent, []string{"STMTTRNRS", "STMTRS", "CURDEF"}),
		{"statement", nil, insert(func(s *model.Site, _ *model.Doc) bool {
			return under(s, "STMTTRNRS") && s.N.Path("STATUS", "SEVERITY").V != "ERROR"
		}, func(n *model.Node) { n.K = n.K[:len(n.K)-1] })},
		required("ledgerbal-date", absent, []string{"STMTRS", "LEDGERBAL", "DTASOF"}),
		required("availbal", []string{""}, []string{"STMTRS", "AVAILBAL", "DTASOF"}, []string{"STMTRS", "AVAILBAL", "BALAMT"}),
		required("account", absent, []string{"STMTRS", "BANKACCTFROM", "BANKID"}, []string{"STMTRS", "BANKACCTFROM", "ACCTID"}, []string{"STMTRS", "BANKACCTFROM", "ACCTTYPE"}),
		required("account-to", absent, []string{"STMTTRN", "BANKACCTTO", "BANKID"}, []string{"STMTTRN", "BANKACCTTO", "ACCTID"}, []string{"STMTTRN", "BANKACCTTO", "ACCTTYPE"}, []string{"STMTTRN", "CCACCTTO", "ACCTID"}),
		required("trntype", []string{"", " ", "HOLD"}, []string{"STMTTRN", "TRNTYPE"}),
		required("dtposted", absent, []string{"STMTTRN", "DTPOSTED"}),
		required("fitid", absent, []string{"STMTTRN", "FITID"}),
		required("correct-action", []string{""}, []string{"STMTTRN", "CORRECTACTION"}),
		{"name-and-payee", nil, insert(tran("PAYEE", "", 0, 0), func(n *model.Node) { before(n, upToFitid, nd("NAME", "x")) })},
		{"payee-and-name", nil, insert(tran("NAME", "", 0, 0), func(n *model.Node) {
			n.InsertAfter(n.Kid("NAME"), nd("PAYEE", "", nd("NAME", "p"), nd("ADDR1", "a"), nd("CITY", "c"), nd("STATE", "s"), nd("POSTALCODE", "1"), nd("PHONE", "2")))
		})},
		required("payee", absent, []string{"PAYEE", "NAME"}, []string{"PAYEE", "ADDR1"}, []string{"PAYEE", "CITY"}, []string{"PAYEE", "STATE"}, []string{"PAYEE", "POSTALCODE"}, []string{"PAYEE", "PHONE"}),
		required("payee-country", []string{"US", "USAA", "x"}, []string{"PAYEE", "COUNTRY"}),
		{"two-destinations", nil, insert(tran("BANKACCTTO", "", 0, 0), func(n *model.Node) {
			n.InsertAfter(n.Kid("BANKACCTTO"), nd("CCACCTTO", "", nd("ACCTID", "1")))
		})},
		{"two-destinations-cc", nil, insert(tran("CCACCTTO", "", 0, 0), func(n *model.Node) {
			before(n, upToExtd, nd("BANKACCTTO", "", nd("BANKID", "1"), nd("ACCTID", "2"), nd("ACCTTYPE", "SAVINGS")))
		})},
		{"two-currencies", nil, insert(tran("CURRENCY", "", 0, 0), func(n *model.Node) { n.InsertAfter(n.Kid("CURRENCY"), currency("ORIGCURRENCY")) })},
		{"two-currencies-orig", nil, insert(tran("ORIGCURRENCY", "", 0, 0), func(n *model.Node) { before(n, upToImg, currency("CURRENCY")) })},
		{"image-version", nil, insert(tran("", "", 0, 220), func(n *model.Node) { before(n, upToExtd+" BANKACCTTO CCACCTTO MEMO", image()) })},
		{"images", nil, insert(tran("", "", 220, 0), func(n *model.Node) {
			for i := 0; i < 3; i++ {
				before(n, upToExtd+" BANKACCTTO CCACCTTO MEMO", image())
			}
		})},
		required("tranlist", absent, []string{"STMTRS", "BANKTRANLIST", "DTSTART"}, []string{"STMTRS", "BANKTRANLIST", "DTEND"}),
		{"pending-version", nil, insert(func(s *model.Site, d *model.Doc) bool { return under(s, "STMTTRNRS", "STMTRS") && d.Version < 220 }, func(n *model.Node) {
			before(n, "CURDEF BANKACCTFROM BANKTRANLIST", nd("BANKTRANLISTP", "", nd("DTASOF", "20200101")))
		})},
		required("pending", absent, []string{"STMTRS", "BANKTRANLISTP", "DTASOF"}, []string{"STMTTRNP", "TRNTYPE"}, []string{"STMTTRNP", "DTTRAN"}, []string{"STMTTRNP", "NAME"}),
		{"pending-currencies", nil, insert(func(s *model.Site, d *model.Doc) bool { return under(s, "STMTTRNP") && s.N.Kid("CURRENCY") != nil }, func(n *model.Node) {
			n.InsertAfter(n.Kid("CURRENCY"), currency("ORIGCURRENCY"))
		})},
		required("bal", absent, []string{"BALLIST", "BAL", "NAME"}, []string{"BALLIST", "BAL", "DESC"}, []string{"BALLIST", "BAL", "BALTYPE"}),
		{"enum", []string{"BOGUS", "0", "Y", "other"}, sites(kind("enum"))},
		{"enum-case", []string{"x"}, func(d *model.Doc) (out []place) {
			model.WalkTyped(d, func(s model.Site) {
				if s.F.Kind == "enum" && strings.ToLower(s.N.V) != s.N.V {
					out = append(out, place{strings.Join(s.Path, ">"), func(string) { s.N.V += "S" }})
				}
			})
			return
		}},
		{"date", []string{"x", "2006", "20061301", "20060230", "20060102250000", "200601021560", "Jan 2 2006", "2006-01-02"}, sites(kind("date"))},
		{"amount", []string{"abc", "1.2.3", "12x", "$5", "--1", "1 000", "1/3", "0x10", "1_000", "1e5", "0b1", "1e1000000", "1.5e-3", ".", ","}, sites(kind("amt"))},
		{"int", []string{"x1", "1.5", "99999999999999999999", "1 2"}, sites(kind("int"))},
		{"code-int", []string{"x1", "0x", "99999999999999999999"}, sites(kind("status"))},
		{"bool", []string{"X", "yes", "1", "true", "NO", "YN"}, sites(func(s *model.Site, _ *model.Doc) bool { return s.F.Kind == "bool" || s.F.Kind == "boolT" })},
		{"currency", []string{"US", "USDD", "QQQ", "12$", "$"}, sites(kind("cur"))},
		{"message-in-wrong-set", nil, func(d *model.Doc) (out []place) {
			for _, s := range d.Sets[1:] {
				for _, m := range s.K {
					out = append(out, place{s.T + ">" + m.T, func(string) {
						s.K = append(s.K, nd("TRNRS", "", nd("TRNUID", "1")))
						_ = m
					}})
				}
			}
			return
		}},
		{"moved-message", nil, func(d *model.Doc) (out []place) {
			for i, s := range d.Sets[1:] {
				if len(s.K) > 0 {
					to := model.ResponseSets[0].Tag
					if s.T == to {
						to = model.ResponseSets[1].Tag
					}
					out = append(out, place{s.T, func(string) { d.Sets[i+1].T = to }})
				}
			}
			return
		}},
		{"root", []string{"OFC", "ofx", "QFX", "OFX2", "html"}, func(d *model.Doc) []place {
			return []place{{"OFX", func(v string) { d.Root = v }}}
		}},
		{"sign-on-missing", nil, func(d *model.Doc) []place {
			return []place{{"SIGNONMSGSRSV1", func(string) { d.Sets = d.Sets[1:] }}}
		}},
		{"sign-on-late", nil, func(d *model.Doc) (out []place) {
			for i := range d.Sets[1:] {
				out = append(out, place{fmt.Sprint("after ", d.Sets[i+1].T), func(string) {
					first := d.Sets[0]
					copy(d.Sets, d.Sets[1:i+2])
					d.Sets[i+1] = first
				}})
			}
			return
		}},
		{"sign-on-twice", nil, func(d *model.Doc) []place {
			return []place{{"SONRS", func(string) { d.Sets[0].K = append(d.Sets[0].K, d.Sets[0].K[0].Clone()) }},
				{"SIGNONMSGSRSV1", func(string) { d.Sets = append(d.Sets, d.Sets[0].Clone()) }}}
		}},
		{"stray", []string{"x", "0"}, func(d *model.Doc) (out []place) {
			for i := range d.Sets {
				out = append(out, place{fmt.Sprint("after ", d.Sets[i].T), func(v string) {
					d.Sets = append(d.Sets[:i+1:i+1], append([]*model.Node{nd("NOTE", v)}, d.Sets[i+1:]...)...)
				}})
			}
			return
		}},
		{"unknown-set", nil, func(d *model.Doc) (out []place) {
			for _, s := range d.Sets[1:] {
				out = append(out, place{s.T, func(string) { s.T = strings.Replace(s.T, "RSV1", "RQV1", 1) }})
			}
			return
		}},
	}
}

var ruleList = append(rules(), headerRules()...)

// headerRules are about the entries of the OFX header.
func headerRules() (out []rule) {
	hdr := func(key string, since, until int, vals ...string) {
		out = append(out, rule{"header-" + strings.ToLower(key) + map[bool]string{true: "-xml"}[since > 0], vals, func(d *model.Doc) []place {
			if d.Version < since || d.Version > until {
				return nil
			}
			return []place{{"header " + key, func(val string) { d.HdrKey, d.HdrVal = key, val }}}
		}})
	}
	hdr("OFXHEADER", 0, 160, model.HdrGone, "", "200", "10", "1000", "99")
	hdr("DATA", 0, 160, model.HdrGone, "", "OFXXML", "OFXSGMLX", "SGML", "ofxsgml")
	hdr("VERSION", 0, 160, model.HdrGone, "", "100", "104", "10", "1020", "0", "200", "203", "211", "220", "1.02")
	hdr("SECURITY", 0, 160, model.HdrGone, "", "TYPE2", "none", "NONE1", "TYPE")
	hdr("COMPRESSION", 0, 160, model.HdrGone, "", "ZIP", "TYPE1", "NONEX")
	hdr("OFXHEADER", 200, 999, model.HdrGone, "", "100", "20", "2000", "201")
	hdr("VERSION", 200, 999, model.HdrGone, "", "102", "103", "151", "160", "205", "2000", "20", "2.0")
	hdr("SECURITY", 200, 999, "", "TYPE1", "none", "NONE1")
	hdr("EXTRA", 200, 999, "", "1", "NONE")
	return
}

func (b *Break) header() bool { return strings.HasPrefix(b.Rule, "header-") }

func (b *Break) apply(doc *model.Doc) *model.Doc {
	d := doc.Clone()
	for _, r := range ruleList {
		if r.name != b.Rule {
			continue
		}
		p := r.find(d)
		if len(p) == 0 {
			Invalid("no place for rule %s", b.Rule)
		}
		ok := len(r.vals) == 0
		for _, v := range r.vals {
			ok = ok || v == b.Val
		}
		if !ok {
			Invalid("value %q for rule %s", b.Val, b.Rule)
		}
		at := p[((b.Site%len(p))+len(p))%len(p)]
		b.What = fmt.Sprintf("%s at %s", b.Val, at.what)
		at.do(b.Val)
		return d
	}
	Invalid("rule %q", b.Rule)
	return nil
}

// breakRule picks a rule that a document can break, evenly over the rules.
func (g *G) breakRule(doc *model.Doc) *Break { return g.breakThe("", doc) }

// breakThe picks a way of breaking a given rule.
func (g *G) breakThe(name string, doc *model.Doc) *Break {
	type cand struct{ r, n int }
	var cs []cand
	d := doc.Clone()
	for i, r := range ruleList {
		if name != "" && r.name != name {
			continue
		}
		if n := len(r.find(d)); n > 0 {
			cs = append(cs, cand{i, n})
		}
	}
	if len(cs) == 0 {
		return nil
	}
	c := pick(g, cs)
	b := &Break{Rule: ruleList[c.r].name, Site: g.IntN(c.n)}
	if v := ruleList[c.r].vals; len(v) > 0 {
		b.Val = pick(g, v)
	}
	return b
}
