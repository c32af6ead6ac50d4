// Package model is the small executable reference model of OFX used by the
// oracles: a frozen description of the supported messages, a generator of
// valid documents, an independent encoder, an independent tolerant decoder,
// and a comparison between a document and the library's Go values.
package model

import (
	_ "embed"
	"fmt"
	"strconv"
	"strings"
)

//go:embed schema.txt
var schemaText string

// Field is one element of an aggregate.
type Field struct {
	Tag      string
	Min, Max int // Max -1: unlimited
	Go       string
	Kind     string // str amt date int bool boolT uid cur lang status enum agg wrap poly
	Len      int
	NonEmpty bool
	Enum     string
	Not      string
	Agg      string
	Poly     string
	Kids     []*Field
	XGroup   string
	AGroup   string
	Since    int
	Fixed    string
}

// Agg is one aggregate type.
type Agg struct {
	Name, GoType string
	Fields       []*Field
}

var Aggs = map[string]*Agg{}

// Polys lists the alternatives of each polymorphic list: tag -> aggregate.
var Polys = map[string][]string{
	"invtran": {"BUYDEBT", "BUYMF", "BUYOPT", "BUYOTHER", "BUYSTOCK", "CLOSUREOPT", "INCOME", "INVEXPENSE", "JRNLFUND", "JRNLSEC", "MARGININTEREST", "REINVEST", "RETOFCAP", "SELLDEBT", "SELLMF", "SELLOPT", "SELLOTHER", "SELLSTOCK", "SPLIT", "TRANSFER", "INVBANKTRAN"},
	"pos":     {"POSDEBT", "POSMF", "POSOPT", "POSOTHER", "POSSTOCK"},
	"oo":      {"OOBUYDEBT", "OOBUYMF", "OOBUYOPT", "OOBUYOTHER", "OOBUYSTOCK", "OOSELLDEBT", "OOSELLMF", "OOSELLOPT", "OOSELLOTHER", "OOSELLSTOCK", "SWITCHMF"},
	"sec":     {"DEBTINFO", "MFINFO", "OPTINFO", "OTHERINFO", "STOCKINFO"},
}

// MsgSets are the profile message sets a MSGSETLIST may hold.
var MsgSets = []string{"SIGNONMSGSET", "SIGNUPMSGSET", "BANKMSGSET", "CREDITCARDMSGSET", "INVSTMTMSGSET", "SECLISTMSGSET", "PROFMSGSET", "EMAILMSGSET", "BILLPAYMSGSET", "INTERXFERMSGSET"}

// Set is one message set of a response or request.
type Set struct {
	Tag  string
	Go   string   // field of Response/Request
	Msgs []string // aggregate names
}

var ResponseSets = []Set{
	{"SIGNUPMSGSRSV1", "Signup", []string{"ACCTINFOTRNRS"}},
	{"BANKMSGSRSV1", "Bank", []string{"STMTTRNRS"}},
	{"CREDITCARDMSGSRSV1", "CreditCard", []string{"CCSTMTTRNRS"}},
	{"INVSTMTMSGSRSV1", "InvStmt", []string{"INVSTMTTRNRS"}},
	{"SECLISTMSGSRSV1", "SecList", []string{"SECLISTTRNRS", "SECLIST"}},
	{"PROFMSGSRSV1", "Prof", []string{"PROFTRNRS"}},
}

var RequestSets = []Set{
	{"SIGNUPMSGSRQV1", "Signup", []string{"ACCTINFOTRNRQ"}},
	{"BANKMSGSRQV1", "Bank", []string{"STMTTRNRQ"}},
	{"CREDITCARDMSGSRQV1", "CreditCard", []string{"CCSTMTTRNRQ"}},
	{"INVSTMTMSGSRQV1", "InvStmt", []string{"INVSTMTTRNRQ"}},
	{"SECLISTMSGSRQV1", "SecList", []string{"SECLISTTRNRQ"}},
	{"PROFMSGSRQV1", "Prof", []string{"PROFTRNRQ"}},
}

// EmptySets are the message sets the library knows but has no messages for.
var OtherSets = []string{"Loan", "InterXfer", "WireXfer", "Billpay", "Email", "PresDir", "PresDlv", "Image"}

// Versions lists the supported protocol versions.
var Versions = []int{102, 103, 151, 160, 200, 201, 202, 203, 210, 211, 220}

// only2 are value elements that do not exist in OFX 1.0.3; in SGML documents
// they are always written with a closing tag.
var only2 = map[string]bool{}

func init() {
	for _, t := range strings.Fields("HOLDERTYPE MATURITYDATE MATURITYAMOUNT MINBALREQ ACCTCLASSIFICATION OVERDRAFTLIMIT INCLUDEPENDING INCTRANIMG IMAGETYPE IMAGEREF IMAGEREFTYPE IMAGEDELAY DTIMAGEAVAIL IMAGETTL CHECKSUP EXTDNAME INV401KSOURCE DTTRAN CASHADVBALAMT INTRATE INTRATEPURCH INTRATECASH INTRATEXFER REWARDBAL REWARDEARNED INC401K INC401KBAL INCTRANIMAGE REVERSALFITID LOANID LOANPRINCIPAL LOANINTEREST DTPAYROLL PRIORYEARCONTRIB STATEWITHHOLDING PENALTY PRETAXCONTRIBPCT PRETAXCONTRIBAMT AFTERTAXCONTRIBPCT AFTERTAXCONTRIBAMT MATCHCONTRIBPCT MATCHCONTRIBAMT PROFITSHARINGCONTRIBPCT PROFITSHARINGCONTRIBAMT ROLLOVERCONTRIBPCT ROLLOVERCONTRIBAMT OTHERVESTPCT OTHERVESTAMT OTHERNONVESTPCT OTHERNONVESTAMT VESTDATE VESTPCT LOANDESC INITIALLOANBAL LOANSTARTDATE CURRENTLOANBAL LOANRATE LOANPMTAMT LOANPMTFREQ LOANPMTSINITIAL LOANPMTSREMAINING LOANMATURITYDATE LOANTOTALPROJINTEREST LOANINTERESTTODATE LOANNEXTPMTDATE PRETAX AFTERTAX MATCH PROFITSHARING ROLLOVER OTHERVEST OTHERNONVEST EMPLOYERNAME PLANID PLANJOINDATE EMPLOYERCONTACTINFO BROKERCONTACTINFO DEFERPCTPRETAX DEFERPCTAFTERTAX MATCHPCT MAXMATCHAMT MAXMATCHPCT STARTOFYEAR BASEMATCHAMT BASEMATCHPCT CURRENTVESTPCT CASHBAL ACCESSTOKENREQ") {
		only2[t] = true
	}
	if err := parseSchema(); err != nil {
		panic(err)
	}
}

// leafTags are the elements that are values wherever they occur.
var leafTags = map[string]bool{}

// Leaf reports whether tag is a value element that SGML documents may leave
// unclosed.
func Unclosable(tag string) bool { return !only2[tag] }

func parseSchema() error {
	var cur *Agg
	type lvl struct{ list *[]*Field }
	var stack []lvl
	for ln, line := range strings.Split(schemaText, "\n") {
		if strings.HasPrefix(line, "#") || strings.TrimSpace(line) == "" {
			continue
		}
		bad := func(why string) error { return fmt.Errorf("schema line %d: %s: %q", ln+1, why, line) }
		if strings.HasPrefix(line, "type ") {
			p := strings.Fields(line)
			cur = &Agg{Name: p[1], GoType: p[2]}
			Aggs[p[1]] = cur
			stack = []lvl{{&cur.Fields}}
			continue
		}
		depth := len(line) - len(strings.TrimLeft(line, "\t"))
		if depth >= len(stack) {
			return bad("indent")
		}
		stack = stack[:depth+1]
		p := strings.Fields(line)
		f := &Field{Min: 1, Max: 1}
		head := p[0]
		switch {
		case strings.HasPrefix(head, "("):
			f.Min, f.Max, f.Kind = 0, -1, "poly"
			f.Go = p[1]
			f.Poly = strings.TrimPrefix(p[2], "poly:")
			*stack[depth].list = append(*stack[depth].list, f)
			continue
		case strings.HasSuffix(head, "?"):
			f.Min, head = 0, head[:len(head)-1]
		case strings.HasSuffix(head, "*"):
			f.Min, f.Max, head = 0, -1, head[:len(head)-1]
		case strings.HasSuffix(head, "*2"):
			f.Min, f.Max, head = 0, 2, head[:len(head)-2]
		case strings.HasSuffix(head, "+"):
			f.Min, f.Max, head = 1, -1, head[:len(head)-1]
		}
		f.Tag = head
		*stack[depth].list = append(*stack[depth].list, f)
		if p[1] == "-" {
			f.Kind = "wrap"
			stack = append(stack, lvl{&f.Kids})
			continue
		}
		f.Go = p[1]
		k := p[2]
		if strings.HasSuffix(k, "!") {
			f.NonEmpty, k = true, k[:len(k)-1]
		}
		switch {
		case strings.HasPrefix(k, "@"):
			f.Kind, f.Agg = "agg", k[1:]
		case strings.HasPrefix(k, "enum:"):
			f.Kind, f.Enum = "enum", k[5:]
			if Enums[f.Enum] == nil {
				return bad("unknown enum")
			}
		case strings.HasPrefix(k, "str:"):
			f.Kind = "str"
			n, err := strconv.Atoi(k[4:])
			if err != nil {
				return bad("length")
			}
			f.Len = n
		default:
			f.Kind = k
		}
		for _, x := range p[3:] {
			switch x[0] {
			case '^':
				f.XGroup = x[1:]
			case '&':
				f.AGroup = x[1:]
			case '=':
				f.Fixed = x[1:]
			case '-':
				f.Not = x[1:]
			case 'v':
				f.Since, _ = strconv.Atoi(x[1:])
			default:
				return bad("flag")
			}
		}
	}
	var leaves func(fs []*Field)
	aggTags := map[string]bool{}
	leaves = func(fs []*Field) {
		for _, f := range fs {
			switch f.Kind {
			case "poly":
			case "wrap":
				aggTags[f.Tag] = true
				leaves(f.Kids)
			case "agg":
				aggTags[f.Tag] = true
			default:
				leafTags[f.Tag] = true
			}
		}
	}
	for _, a := range Aggs {
		leaves(a.Fields)
	}
	for t := range aggTags {
		delete(leafTags, t)
	}
	for _, a := range Aggs {
		for _, f := range a.Fields {
			if f.Kind == "agg" && Aggs[f.Agg] == nil {
				return fmt.Errorf("schema: unknown aggregate %s", f.Agg)
			}
		}
	}
	return nil
}

// Node is one element of a document.
type Node struct {
	T string  `json:"t"`
	V string  `json:"v,omitempty"`
	K []*Node `json:"k,omitempty"`
}

// Kid returns the first child with the tag.
func (n *Node) Kid(tag string) *Node {
	if n == nil {
		return nil
	}
	for _, k := range n.K {
		if k.T == tag {
			return k
		}
	}
	return nil
}

// Path walks down.
func (n *Node) Path(tags ...string) *Node {
	for _, t := range tags {
		n = n.Kid(t)
	}
	return n
}

// Clone deep-copies.
func (n *Node) Clone() *Node {
	if n == nil {
		return nil
	}
	c := &Node{T: n.T, V: n.V}
	for _, k := range n.K {
		c.K = append(c.K, k.Clone())
	}
	return c
}

// Walk visits every node.
func (n *Node) Walk(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, k := range n.K {
		k.Walk(f)
	}
}

// Count counts elements.
func (n *Node) Count() int {
	c := 0
	n.Walk(func(*Node) { c++ })
	return c
}
