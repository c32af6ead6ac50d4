package scn

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/sim/lib"
	"verif/sim/model"
)

// requestRules are the violations a request can carry; those marked need
// Marshal to be called directly, because clients set these fields.
var requestRules = []string{
	"userid-empty", "userid-33", "userid-300", "secret-none", "secret-both", "pass-33", "pass-300", "key-65", "key-500",
	"language-1", "language-2", "language-4", "language-9",
	"uid-empty", "uid-37", "uid-400",
	"bank-id", "bank-acct", "bank-type", "bank-type-far", "card-acct",
	"pending", "image", "wrong-set", "response",
}

var marshalRules = []string{"appid-empty", "appid-6", "appver-empty", "appver-5", "version-0", "version-far", "version-negative"}

func msgs(q *ofxgo.Request) (out []ofxgo.Message) {
	for _, l := range [][]ofxgo.Message{q.Signup, q.Bank, q.CreditCard, q.InvStmt, q.SecList, q.Prof} {
		out = append(out, l...)
	}
	return
}

// mutateRequest puts a violation into a valid request and returns what takes
// it out again.
func mutateRequest(q *ofxgo.Request, c *Client, m string) (undo func()) {
	rule, site, _ := strings.Cut(m, ":")
	at, err := strconv.Atoi(site)
	if err != nil && site != "" || at < 0 {
		Invalid("site %q", site)
	}
	saved := *q
	son := q.Signon
	var back []func()
	undo = func() {
		for _, f := range back {
			f()
		}
		*q = saved
		q.Signon = son
	}
	long := func(n int) ofxgo.String { return ofxgo.String(strings.Repeat("q", n)) }
	num := func() int {
		n, _ := strconv.Atoi(rule[strings.LastIndex(rule, "-")+1:])
		return n
	}
	list := msgs(q)
	banks := []*ofxgo.StatementRequest{}
	cards := []*ofxgo.CCStatementRequest{}
	for _, x := range list {
		switch x := x.(type) {
		case *ofxgo.StatementRequest:
			banks = append(banks, x)
		case *ofxgo.CCStatementRequest:
			cards = append(cards, x)
		}
	}
	pickMsg := func(n int) int {
		if n == 0 {
			Invalid("no message to break by %s", rule)
		}
		return at % n
	}
	version := c.version()
	switch rule {
	case "client": // the client itself is misconfigured
		if len(c.appID()) <= 5 && len(c.appVer()) <= 4 {
			Invalid("client is fine")
		}
	case "userid-empty":
		q.Signon.UserID = ""
	case "userid-33", "userid-300":
		q.Signon.UserID = (q.Signon.UserID + long(300))[:num()]
	case "secret-none":
		q.Signon.UserPass, q.Signon.UserKey = "", ""
	case "secret-both":
		q.Signon.UserPass, q.Signon.UserKey = "p", "k"
	case "pass-33", "pass-300":
		q.Signon.UserPass, q.Signon.UserKey = long(num()), ""
	case "key-65", "key-500":
		q.Signon.UserPass, q.Signon.UserKey = "", long(num())
	case "language-1", "language-2", "language-4", "language-9":
		q.Signon.Language = long(num())
	case "appid-empty":
		q.Signon.AppID = ""
	case "appid-6":
		q.Signon.AppID = long(6)
	case "appver-empty":
		q.Signon.AppVer = ""
	case "appver-5":
		q.Signon.AppVer = long(5)
	case "version-0", "version-far", "version-negative":
		badVersion(&q.Version, rule[8:])
	case "uid-empty", "uid-37", "uid-400":
		x := reflect.ValueOf(list[pickMsg(len(list))]).Elem().FieldByName("TrnUID")
		old := x.String()
		back = append(back, func() { x.SetString(old) })
		if rule == "uid-empty" {
			x.SetString("")
		} else {
			x.SetString(string(long(num())))
		}
	case "bank-id", "bank-acct", "bank-type", "bank-type-far":
		b := banks[pickMsg(len(banks))]
		old := *b
		back = append(back, func() { *b = old })
		switch rule {
		case "bank-id":
			b.BankAcctFrom.BankID = ""
		case "bank-acct":
			b.BankAcctFrom.AcctID = ""
		case "bank-type":
			b.BankAcctFrom.AcctType = ofxgo.BankAcct{}.AcctType
		case "bank-type-far":
			b.BankAcctFrom.AcctType += 100
		}
	case "card-acct":
		b := cards[pickMsg(len(cards))]
		old := *b
		back = append(back, func() { *b = old })
		b.CCAcctFrom.AcctID = ""
	case "pending", "image":
		if rule == "pending" && version >= 220 || rule == "image" && version >= 210 {
			Invalid("%s is fine in %d", rule, version)
		}
		if i := pickMsg(len(banks) + len(cards)); i < len(banks) {
			b := banks[i]
			old := *b
			back = append(back, func() { *b = old })
			b.IncludePending, b.IncTranImg = ofxgo.Boolean(rule == "pending"), ofxgo.Boolean(rule == "image")
		} else {
			b := cards[i-len(banks)]
			old := *b
			back = append(back, func() { *b = old })
			b.IncludePending, b.IncTranImg = ofxgo.Boolean(rule == "pending"), ofxgo.Boolean(rule == "image")
		}
	case "wrong-set", "response":
		sets := []*[]ofxgo.Message{&q.Signup, &q.Bank, &q.CreditCard, &q.InvStmt, &q.SecList, &q.Prof, &q.Loan, &q.InterXfer, &q.WireXfer, &q.Billpay, &q.Email, &q.PresDir, &q.PresDlv, &q.Image}
		to := sets[at%len(sets)]
		var x ofxgo.Message
		if rule == "response" {
			uid := ofxgo.UID("1")
			x = []ofxgo.Message{&ofxgo.SecListResponse{TrnUID: uid}, &ofxgo.ProfileResponse{TrnUID: uid}, &ofxgo.InvStatementResponse{TrnUID: uid}, &ofxgo.CCStatementResponse{TrnUID: uid}}[at/len(sets)%4]
		} else {
			for _, y := range list {
				fits := false
				for _, z := range *to {
					fits = fits || z.Type() == y.Type()
				}
				names := map[*[]ofxgo.Message]string{&q.Signup: "ACCTINFOTRNRQ", &q.Bank: "STMTTRNRQ", &q.CreditCard: "CCSTMTTRNRQ", &q.InvStmt: "INVSTMTTRNRQ", &q.SecList: "SECLISTTRNRQ", &q.Prof: "PROFTRNRQ"}
				if !fits && names[to] != y.Name() {
					x = y
				}
			}
			if x == nil {
				Invalid("nothing to misplace")
			}
		}
		*to = append(append([]ofxgo.Message(nil), *to...), x)
	default:
		Invalid("rule %q", rule)
	}
	return undo
}

// badVersion stores a version that is not one of OFX.
func badVersion(p any, how string) {
	v := reflect.ValueOf(p).Elem()
	set := func(n int64) {
		if v.CanInt() {
			v.SetInt(n)
		} else {
			v.SetUint(uint64(n))
		}
	}
	get := func() int64 {
		if v.CanInt() {
			return v.Int()
		}
		return int64(v.Uint())
	}
	switch how {
	case "0":
		set(0)
	case "far":
		lib.SetVersion(p, 220)
		set(get() + 7)
	case "negative":
		lib.SetVersion(p, 102)
		for lib.VersionNum(v.Interface()) != 0 {
			set(get() - 1)
		}
	default:
		Invalid("version %q", how)
	}
}

// ---- C17

func worldC17(s *Scenario, r *Run) {
	w := NewWorld(s, r)
	w.RunActors(10 * day)
	for _, rec := range w.Recs {
		switch rec.Step.Op {
		case "request", "noparse", "marshal":
		default:
			continue
		}
		if rec.Crash != "" {
			w.Violate("crash", "%s (%s): %s", rec.label(), rec.Step.Mutate, rec.Crash)
			continue
		}
		if !rec.Done {
			w.Violate("stuck", "%s did not return", rec.label())
			continue
		}
		w.Evals++
		qs := w.ReqsOf(rec)
		if rec.Step.Mutate != "" {
			w.Nontriv++
			w.Fire("invalid-request")
			w.Probe("rule-" + strings.SplitN(rec.Step.Mutate, ":", 2)[0])
			switch {
			case rec.Err == nil:
				w.Violate("accepted", "%s: no error for a request with violation %s", rec.label(), rec.Step.Mutate)
			case rec.Resp != nil || rec.HTTP != nil:
				w.Violate("returned", "%s: a response and error %v (violation %s)", rec.label(), rec.Err, rec.Step.Mutate)
			}
			if len(qs) > 0 {
				w.Violate("sent", "%s: a request with violation %s reached the server", rec.label(), rec.Step.Mutate)
			}
			if rec.DialsEnd != rec.Dials {
				w.Violate("connected", "%s: a connection was made for a request with violation %s (err %v)", rec.label(), rec.Step.Mutate, rec.Err)
			}
			continue
		}
		if rec.Step.Op != "marshal" && len(rec.Client.appID()) > 5 || rec.Step.Op != "marshal" && len(rec.Client.appVer()) > 4 {
			Invalid("client is misconfigured")
		}
		if rec.Err != nil {
			w.Violate("refused", "%s: a valid request: %v", rec.label(), rec.Err)
			continue
		}
		if rec.Step.Op == "marshal" {
			dec, err := model.Decode(rec.Buf.Bytes(), true)
			if err != nil {
				w.Violate("malformed", "%s: %v", rec.label(), err)
				continue
			}
			model.Prune(dec.Doc)
			if err := model.CheckDoc(dec.Doc, true); err != nil {
				w.Violate("invalid", "%s: %v", rec.label(), err)
			}
			continue
		}
		if len(qs) != 1 {
			w.Violate("count", "%s: the server received %d requests", rec.label(), len(qs))
			continue
		}
		w.wire(rec, qs[0])
	}
	for _, q := range w.Reqs {
		if w.owner[q] == nil {
			w.Violate("stray", "a request nobody made: %.200q", q.Raw)
		}
	}
}

// ruleFor picks a violation the request of a document can carry.
func (g *G) ruleFor(d *model.Doc, c *Client, direct bool) string {
	n := map[string]int{}
	total := 0
	for _, s := range d.Sets[1:] {
		for _, m := range s.K {
			n[m.T]++
			total++
		}
	}
	for {
		l := requestRules
		if direct && g.One(2) {
			l = marshalRules
		}
		r := pick(g, l)
		switch {
		case strings.HasPrefix(r, "uid-") || r == "wrong-set":
			if total == 0 {
				continue
			}
		case strings.HasPrefix(r, "bank-"):
			if n["STMTTRNRQ"] == 0 {
				continue
			}
		case r == "card-acct":
			if n["CCSTMTTRNRQ"] == 0 {
				continue
			}
		case r == "pending" || r == "image":
			if n["STMTTRNRQ"]+n["CCSTMTTRNRQ"] == 0 || c.version() >= 220 || r == "image" && c.version() >= 210 {
				continue
			}
		}
		if r == "wrong-set" {
			// A set not all messages of the request belong to.
			own := []string{"ACCTINFOTRNRQ", "STMTTRNRQ", "CCSTMTTRNRQ", "INVSTMTTRNRQ", "SECLISTTRNRQ", "PROFTRNRQ"}
			i := g.IntN(14)
			if i < 6 && n[own[i]] == total {
				i = 6 + g.IntN(8)
			}
			return r + ":" + strconv.Itoa(i)
		}
		return r + ":" + strconv.Itoa(g.IntN(60))
	}
}

func init() {
	reg(&Prop{ID: "C17", World: worldC17, Gen: func(g *G) *Scenario {
		s := g.base(false)
		k := &keys{}
		s.addServers("good", hosts...)
		s.Clients = []Client{g.clientSpec(pick(g, []string{"basic", "basic", "vanguard", "discover"}))}
		c := &s.Clients[0]
		a := &Actor{}
		bad := g.One(8)
		if bad {
			if g.One(2) {
				c.AppID = pick(g, []string{"QWINXX", strings.Repeat("a", 100)})
			} else {
				c.AppVer = pick(g, []string{"24000", strings.Repeat("1", 50)})
			}
		}
		for n := g.Between(2, 8); n > 0; n-- {
			st := g.request(c, k, pick(g, hosts))
			st.Doc = g.reqDoc(c, st.Key, pick(g, []int{1, 4, 8}))
			st.NoLang = st.NoLang && !g.One(2)
			switch g.IntN(4) {
			case 0:
				st.Op = "noparse"
			case 1:
				st.Op = "marshal"
				st.NoLang = false
			}
			if bad && st.Op != "marshal" {
				st.Mutate = "client"
			} else if !g.One(3) {
				st.Mutate = g.ruleFor(st.Doc, c, st.Op == "marshal")
			}
			a.Steps = append(a.Steps, st)
			if g.One(3) && !bad {
				// The same object again, repaired or broken.
				op := st.Op
				x := &Step{Op: op, URL: st.URL, Reuse: len(a.Steps), Replies: []*Reply{g.goodAny(1)}}
				if st.Mutate == "" {
					x.Mutate = g.ruleFor(st.Doc, c, op == "marshal")
				}
				a.Steps = append(a.Steps, x)
				if g.One(2) {
					a.Steps = append(a.Steps, &Step{Op: op, URL: st.URL, Reuse: x.Reuse, Replies: []*Reply{g.goodAny(1)}})
				}
			}
		}
		s.Actors = []*Actor{a}
		return s
	}})
}
