package scn

import (
	"bytes"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"verif/sim/bank"
	"verif/sim/model"
)

// ---- C15

// want is something a listing must show on one line.
type want struct {
	what string
	has  []string // substrings
	word []string // whole words
	amts []string // amounts
	date string
}

var (
	numRE  = regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?`)
	wordRE = regexp.MustCompile(`[A-Za-z0-9]+`)
	stamp  = regexp.MustCompile(`[0-9]{14}(\.[0-9]{3})?(\[[^\]]*\])?`)
)

func (x *want) on(line string) bool {
	for _, s := range x.has {
		if !strings.Contains(line, s) {
			return false
		}
	}
	for _, a := range x.word {
		ok := false
		for _, t := range wordRE.FindAllString(line, -1) {
			ok = ok || t == a
		}
		if !ok {
			return false
		}
	}
	for _, a := range x.amts {
		v, err := model.ParseAmt(a)
		if err != nil {
			Invalid("amount %q", a)
		}
		ok := false
		for _, t := range numRE.FindAllString(line, -1) {
			y, good := new(big.Rat).SetString(t)
			ok = ok || good && y.Cmp(v) == 0
		}
		if !ok {
			return false
		}
	}
	if x.date != "" {
		v, err := model.ParseDate(x.date)
		if err != nil {
			Invalid("date %q", x.date)
		}
		ok := false
		for _, t := range stamp.FindAllString(line, -1) {
			y, err := model.ParseDate(t)
			ok = ok || err == nil && y.Equal(v)
		}
		if !ok {
			return false
		}
	}
	return true
}

// kidV is the value at a path, or "".
func kidV(n *model.Node, path ...string) string {
	if n = n.Path(path...); n == nil {
		return ""
	}
	return n.V
}

// codeOf is the status code of a response, without the zeros a server padded
// it with.
func codeOf(n *model.Node) string {
	v := kidV(n, "STATUS", "CODE")
	for len(v) > 1 && v[0] == '0' {
		v = v[1:]
	}
	return v
}

func transaction(cur string, t *model.Node) *want {
	x := &want{what: "transaction " + kidV(t, "FITID"), amts: []string{kidV(t, "TRNAMT")}, date: kidV(t, "DTPOSTED"), word: []string{kidV(t, "TRNTYPE"), cur}}
	if c := kidV(t, "CURRENCY", "CURSYM"); c != "" {
		x.word[1] = c
	}
	name := kidV(t, "NAME")
	if name == "" {
		name = kidV(t, "PAYEE", "NAME")
	}
	if name != "" {
		x.has = append(x.has, name)
	}
	if m := kidV(t, "MEMO"); m != "" {
		x.has = append(x.has, m)
	}
	return x
}

// listed is the message set a listing command asks for.
var listed = map[string]string{"get-accounts": "SIGNUPMSGSRSV1", "transactions-bank": "BANKMSGSRSV1", "transactions-cc": "CREDITCARDMSGSRSV1", "transactions-inv": "INVSTMTMSGSRSV1"}

// shown lists what the listing of an answer must show: groups of items, each
// in order, and how many lines the items of the last group may take at most.
func shown(cmd string, d *model.Doc) (groups [][]*want, has bool) {
	for _, s := range d.Sets {
		if s.T != listed[cmd] || len(s.K) == 0 {
			continue
		}
		m := s.K[0]
		switch m.T {
		case "ACCTINFOTRNRS":
			var l []*want
			if rs := m.Kid("ACCTINFORS"); rs != nil {
				for _, a := range rs.K {
					if a.T != "ACCTINFO" {
						continue
					}
					known := false
					for _, k := range a.K {
						known = known || k.T == "BANKACCTINFO" || k.T == "CCACCTINFO" || k.T == "INVACCTINFO"
						add := func(what, label, v string) {
							if v != "" {
								l = append(l, &want{what: what, has: []string{v}})
							}
						}
						switch k.T {
						case "BANKACCTINFO":
							add("bank id", "BankID", kidV(k, "BANKACCTFROM", "BANKID"))
							add("account id", "AcctID", kidV(k, "BANKACCTFROM", "ACCTID"))
							add("account type", "AcctType", kidV(k, "BANKACCTFROM", "ACCTTYPE"))
						case "CCACCTINFO":
							add("account id", "AcctID", kidV(k, "CCACCTFROM", "ACCTID"))
						case "INVACCTINFO":
							add("broker id", "BrokerID", kidV(k, "INVACCTFROM", "BROKERID"))
							add("account id", "AcctID", kidV(k, "INVACCTFROM", "ACCTID"))
						}
					}
					// Of any other account its name and description.
					for _, t := range []string{"NAME", "DESC"} {
						if v := kidV(a, t); v != "" && !known {
							l = append(l, &want{what: t + " of another account", has: []string{v}})
						}
					}
				}
			}
			return [][]*want{l}, true
		case "STMTTRNRS", "CCSTMTTRNRS":
			rs := m.Kid(strings.Replace(m.T, "TRNRS", "RS", 1))
			cur := kidV(rs, "CURDEF")
			groups = append(groups, []*want{{what: "balance", amts: []string{kidV(rs, "LEDGERBAL", "BALAMT")}, word: []string{cur, "Balance"}, date: kidV(rs, "LEDGERBAL", "DTASOF")}})
			var l []*want
			if tl := rs.Kid("BANKTRANLIST"); tl != nil {
				for _, t := range tl.K {
					if t.T == "STMTTRN" {
						l = append(l, transaction(cur, t))
					}
				}
			}
			return append(groups, l), true
		case "INVSTMTTRNRS":
			rs := m.Kid("INVSTMTRS")
			if rs == nil {
				return nil, true
			}
			cur := kidV(rs, "CURDEF")
			if b := rs.Kid("INVBAL"); b != nil {
				if a, err := model.ParseAmt(kidV(b, "AVAILCASH")); err == nil && a.Sign() != 0 {
					groups = append(groups, []*want{{what: "balance", amts: []string{kidV(b, "AVAILCASH")}, word: []string{cur, "Balance"}}})
				}
			}
			var bank, inv []*want
			if tl := rs.Kid("INVTRANLIST"); tl != nil {
				for _, t := range tl.K {
					switch t.T {
					case "DTSTART", "DTEND":
					case "INVBANKTRAN":
						for _, x := range t.K {
							if x.T == "STMTTRN" {
								bank = append(bank, transaction(cur, x))
							}
						}
					default:
						inv = append(inv, investment(cur, t))
					}
				}
			}
			return append(groups, bank, inv), true
		}
	}
	return nil, false
}

// refusals lists the error codes of the sign-on and of the answer the command
// asked for.
func refusals(cmd string, d *model.Doc) (l []string) {
	for i, s := range d.Sets {
		if (i == 0 || s.T == listed[cmd]) && len(s.K) > 0 && kidV(s.K[0], "STATUS", "SEVERITY") == "ERROR" {
			l = append(l, codeOf(s.K[0]))
		}
	}
	return
}

// investment is what must be shown of an investment transaction.
func investment(cur string, t *model.Node) *want {
	b := t
	for _, k := range []string{"INVBUY", "INVSELL"} {
		if x := t.Kid(k); x != nil {
			b = x
		}
	}
	x := &want{what: t.T + " " + kidV(b, "INVTRAN", "FITID"), has: []string{t.T}, date: kidV(b, "INVTRAN", "DTTRADE")}
	amts := func(l ...string) {
		for _, n := range l {
			if v := kidV(b, n); v != "" {
				x.amts = append(x.amts, v)
			}
		}
	}
	words := func(l ...string) {
		for _, n := range l {
			x.word = append(x.word, kidV(b, n))
		}
	}
	c := cur
	if v := kidV(b, "CURRENCY", "CURSYM"); v != "" {
		c = v
	}
	if t.T != "CLOSUREOPT" {
		if id := kidV(b, "SECID", "UNIQUEID"); id != "" {
			x.has = append(x.has, id)
		}
	}
	switch t.T {
	case "CLOSUREOPT":
		words("OPTACTION")
		amts("UNITS", "SHPERCTRCT")
	case "INCOME":
		words("INCOMETYPE")
		amts("TOTAL")
		x.word = append(x.word, c)
	case "INVEXPENSE", "RETOFCAP", "MARGININTEREST":
		amts("TOTAL")
		x.word = append(x.word, c)
	case "JRNLFUND":
		amts("TOTAL")
		words("SUBACCTFROM", "SUBACCTTO")
	case "JRNLSEC":
		amts("UNITS")
		words("SUBACCTFROM", "SUBACCTTO")
	case "REINVEST":
		amts("UNITS", "UNITPRICE", "TOTAL")
		x.word = append(x.word, c)
	case "SPLIT":
		amts("OLDUNITS", "NEWUNITS", "NUMERATOR", "DENOMINATOR", "FRACCASH")
	case "TRANSFER":
		amts("UNITS")
		words("TFERACTION")
	default: // buys and sells
		amts("UNITS", "UNITPRICE", "TOTAL")
		x.word = append(x.word, c)
	}
	return x
}

// firstWord of a line of a transaction listing.
func countLines(out string, is func(l string) bool) (n int) {
	for _, l := range strings.Split(out, "\n") {
		if is(l) {
			n++
		}
	}
	return
}

func worldC15(s *Scenario, r *Run) {
	c := runCLI(s, r)
	if strings.HasPrefix(c.spec.Cmd, "download") || c.spec.Cmd == "detect-settings" || c.refuse != "" || c.dry {
		Invalid("not a listing: %s", c.refuse)
	}
	if !c.ended() {
		return
	}
	p := c.served(c.rec)
	fails := c.failures() > 0
	if fails {
		c.Nontriv++
	}
	intact := p.plain() && p.Doc != nil && p.Break == nil
	// The server's refusals: of the sign-on, of what was asked.
	var refused []string
	if p != nil && p.Doc != nil {
		refused = refusals(c.spec.Cmd, p.Doc)
	}
	if c.Code != 0 {
		c.Probe("failed")
		note := intact && codeOf(p.Doc.Sets[0].K[0]) != "0"
		if intact && !fails && len(refused) == 0 && !note {
			c.Violate("refused", "%s: exit status %d although nothing failed: %q", c.label(), c.Code, clip(c.Out+c.Err, 300))
		}
		if intact && !fails && len(refused) > 0 {
			ok := note && strings.Contains(c.Out+c.Err, codeOf(p.Doc.Sets[0].K[0]))
			for _, code := range refused {
				ok = ok || strings.Contains(c.Out+c.Err, code)
			}
			if !ok {
				c.Violate("message", "%s: refused with status %v, but the message is %q", c.label(), refused, clip(c.Out+c.Err, 300))
			}
		}
		return
	}
	c.Probe("succeeded")
	switch {
	case p == nil || p.KillHow != "" || p.EarlyCut != "" || p.Garbage != "":
		c.Violate("invented", "%s: success although the server answered nothing", c.label())
		return
	case p.status() != 200:
		c.Violate("status", "%s: success although the status was %d", c.label(), p.status())
		return
	}
	body := p.body()
	if p.sentEnd() < len(body) {
		body = body[:p.sentEnd()]
	}
	if p.Doc == nil || p.Break != nil {
		// Something damaged: the program may show what the library accepts.
		ok := false
		if cr := guard(func() { _, err := ofxgo.ParseResponse(bytes.NewReader(body)); ok = err == nil }); cr != "" || !ok {
			c.Violate("accepted", "%s: success for an answer the library refuses: %.300q", c.label(), body)
		}
		return
	}
	if p.sentEnd() < docEnd(p.body()) {
		c.Violate("partial", "%s: success although only %d of %d bytes were sent", c.label(), p.sentEnd(), len(p.body()))
		return
	}
	if len(refused) > 0 {
		c.Violate("signon", "%s: success although the sign-on or the statement was refused with status %v", c.label(), refused)
		return
	} else if codeOf(p.Doc.Sets[0].K[0]) != "0" {
		c.Probe("signon-note")
	}
	groups, has := shown(c.spec.Cmd, p.Doc)
	if !has {
		c.Probe("nothing-to-list")
		return
	}
	lines := strings.Split(c.Out, "\n")
	n := 0
	for _, g := range groups {
		at := 0
		for i, x := range g {
			n++
			for at < len(lines) && !x.on(lines[at]) {
				at++
			}
			if at == len(lines) {
				c.Violate("missing", "%s: %s (%d of %d) is not shown, or not in order: %+v", c.label(), x.what, i+1, len(g), *x)
				return
			}
			if c.spec.Cmd != "get-accounts" {
				at++
			} else {
				// Several ids may share a line.
				j := strings.Index(lines[at], x.has[0])
				lines[at] = lines[at][j+len(x.has[0]):]
			}
		}
	}
	if n > 3 {
		c.Nontriv++
	}
	// Nothing is shown that was not sent.
	if c.spec.Cmd == "get-accounts" {
		ids := countLines(c.Out, func(l string) bool { return strings.HasPrefix(strings.TrimSpace(l), "AcctID:") })
		exp := 0
		for _, x := range groups[0] {
			if x.what == "account id" {
				exp++
			}
		}
		if ids > exp {
			c.Violate("invented", "%s: %d accounts shown, %d sent", c.label(), ids, exp)
		}
		return
	}
	if got := countLines(c.Out, func(l string) bool { return stamp.MatchString(strings.SplitN(l, "(", 2)[0]) }); got > n {
		c.Violate("invented", "%s: %d dated lines shown, %d sent", c.label(), got, n)
	}
}

// ---- C22

func worldC22(s *Scenario, r *Run) {
	c := runCLI(s, r)
	if !c.ended() {
		return
	}
	noNet := func(why string) {
		if n := len(c.Net.Dials); n > 0 {
			c.Violate("connected", "%s: %d connections although %s", c.label(), n, why)
		}
	}
	untouched := func() bool {
		if old := c.old(); c.file != "" && string(c.Content) != old {
			c.Violate("touched", "%s: nothing was to be downloaded, but %s (%d bytes before) now has %d bytes", c.label(), c.file, len(old), len(c.Content))
			return false
		}
		return true
	}
	if c.refuse != "" {
		c.Nontriv++
		c.Probe("refused")
		untouched()
		noNet(c.refuse)
		if c.Code == 0 {
			c.Violate("accepted", "%s: exit status 0 although %s", c.label(), c.refuse)
		}
		return
	}
	bad := func(class, f string, a ...any) *model.Decoded {
		c.Violate(class, "%s: %s", c.label(), fmt.Sprintf(f, a...))
		return nil
	}
	if c.dry {
		c.Nontriv++
		c.Probe("dry-run")
		noNet("it is a dry run")
		if c.Code != 0 {
			c.Violate("dry", "%s: a dry run ends with status %d: %q", c.label(), c.Code, clip(c.Out+c.Err, 300))
			return
		}
		if !untouched() {
			return
		}
		doc, ok := strings.CutSuffix(c.Out, "\n")
		if !ok {
			c.Violate("dry", "%s: a dry run printed %q", c.label(), clip(c.Out, 300))
			return
		}
		c.fillUID([]byte(doc))
		c.wireDoc(c.rec, []byte(doc), bad)
		return
	}
	qs := c.whole(c.rec)
	if len(qs) == 0 {
		c.Violate("unsent", "%s: the server received no request: %q", c.label(), clip(c.Out+c.Err, 300))
		return
	}
	for _, q := range qs {
		c.fillUID(q.Body)
		c.wire(c.rec, q)
		if q.Host != c.wantHost() {
			c.Violate("address", "%s: connected to %s for %s", c.label(), q.Host, c.vals["url"])
		}
	}
	max := 1
	if c.rec.Client.eff() == "vanguard" {
		max = 2
	}
	if len(qs) > max {
		c.Violate("resent", "%s: %d requests", c.label(), len(qs))
	}
}

func (c *cliRun) wantHost() string {
	h := strings.TrimPrefix(c.vals["url"], "https://")
	if i := strings.IndexAny(h, "/?"); i >= 0 {
		h = h[:i]
	}
	return addr(h)
}

var uidRE = regexp.MustCompile(`<TRNUID>([0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12})`)

// fillUID takes over the transaction id the program drew.
func (c *cliRun) fillUID(b []byte) {
	if m := uidRE.FindSubmatch(b); m != nil {
		c.rec.Sent.Sets[1].K[0].Kid("TRNUID").V = string(m[1])
	}
}

// ---- C16

// combo is one attempt of a settings detection.
type combo struct {
	app, ver string
	version  int
	noIndent bool
	anon     bool
}

// combos is the order in which settings are tried, best first.
var combos = func() (l []combo) {
	vers := map[string][]string{"OFXGO": {"0001"}}
	down := func(app string, from, to int) {
		for n := from; n >= to; n -= 100 {
			vers[app] = append(vers[app], fmt.Sprint(n))
		}
	}
	down("QWIN", 2600, 1400)
	down("QMOFX", 1700, 1400)
	down("QB", 1800, 1500)
	vers["Money"] = []string{"1600", "1500", "1400", "1200", "1100"}
	for _, a := range []string{"OFXGO", "QWIN", "QMOFX", "QB", "Money"} {
		for _, v := range vers[a] {
			for _, n := range []int{203, 103, 200, 201, 202, 210, 211, 102, 151, 160, 220} {
				for _, ni := range []bool{false, true} {
					l = append(l, combo{a, v, n, ni, false}, combo{a, v, n, ni, true})
				}
			}
		}
	}
	return
}()

func (c combo) same(o combo) bool { c.anon, o.anon = false, false; return c == o }

func (c combo) String() string {
	who := "user"
	if c.anon {
		who = "anonymous"
	}
	return fmt.Sprintf("%s %s %d noindent=%t %s", c.app, c.ver, c.version, c.noIndent, who)
}

// comboOf reads the settings off a request.
func (c *cliRun) comboOf(q *bank.Req) (x combo, ok bool) {
	d, err := model.Decode(q.Body, true)
	if err != nil {
		return x, false
	}
	son := d.Doc.Sets[0].K[0]
	x = combo{kidV(son, "APPID"), kidV(son, "APPVER"), d.Doc.Version, !strings.Contains(d.Body, "\n"), kidV(son, "USERID") == anonymous && c.vals["username"] != anonymous}
	return x, true
}

func (r *Rule) accepts(x combo) bool {
	in := func(l []string, v string) bool {
		for _, s := range l {
			if s == v {
				return true
			}
		}
		return len(l) == 0
	}
	v := len(r.Versions) == 0
	for _, n := range r.Versions {
		v = v || n == x.version
	}
	return in(r.Apps, x.app) && in(r.AppVers, x.ver) && v && (r.Indent == 0 || (r.Indent == 2) == x.noIndent) && (r.Who == 0 || (r.Who == 2) == x.anon)
}

// usable: an answer the program can work with.
func (p *Reply) usable() bool {
	return p.status() == 200 && p.Doc != nil && p.Break == nil && p.sentEnd() >= docEnd(p.body())
}

// detectServer answers by the settings of a request.
func (c *cliRun) detectServer() func(q *bank.Req) bank.Reply {
	refused, accepted := 0, 0
	if len(c.spec.Refusals) == 0 || len(c.spec.Replies) == 0 {
		Invalid("no refusals or replies")
	}
	for _, p := range c.spec.Refusals {
		if p.usable() || p.CutHow == "stall" || p.KillHow == "stall" || p.EarlyCut != "" {
			Invalid("refusal")
		}
	}
	for _, p := range c.spec.Replies {
		if !p.plain() || !p.usable() {
			Invalid("reply")
		}
	}
	return func(q *bank.Req) bank.Reply {
		c.owner[q] = c.rec
		c.marks[q] = c.failures()
		x, ok := c.comboOf(q)
		c.Event("attempt %v %v", x, ok)
		var p *Reply
		if ok && c.spec.Accept != nil && c.spec.Accept.accepts(x) {
			accepted++
			if accepted > c.spec.Accept.Skip {
				p = c.spec.Replies[accepted%len(c.spec.Replies)]
			}
		}
		if p == nil {
			p = c.spec.Refusals[refused%len(c.spec.Refusals)]
			refused++
		}
		c.used[q] = p
		br := p.Reply
		br.Body = p.body()
		return br
	}
}

func worldC16(s *Scenario, r *Run) {
	c := runCLI(s, r)
	if c.spec.Cmd != "detect-settings" || c.refuse != "" {
		Invalid("not a settings detection: %s", c.refuse)
	}
	if !c.ended() {
		return
	}
	delay, _ := strconv.Atoi(c.vals["delay"])
	wait := time.Duration(delay) * time.Millisecond
	netFails := 0
	for k, n := range c.Net.Fired {
		_ = k
		netFails += n
	}
	var qs []*bank.Req
	var seq []combo
	at := -1
	for _, q := range c.Reqs {
		if !q.Whole {
			continue
		}
		x, ok := c.comboOf(q)
		if !ok {
			c.Violate("garbled", "%s: request %d cannot be read: %.300q", c.label(), len(qs), q.Body)
			return
		}
		c.Evals++
		next := at + 1
		for next < len(combos) && combos[next] != x {
			next++
		}
		if next == len(combos) {
			c.Violate("order", "%s: attempt %v after %v is not in the order of the candidates", c.label(), x, last(seq))
			return
		}
		if next > at+1 && netFails == 0 {
			c.Violate("skipped", "%s: after %v the program tried %v, not %v", c.label(), last(seq), x, combos[at+1])
			return
		}
		// The whole request.
		c.rec.Client = &Client{Kind: "get", URL: c.vals["url"], AppID: x.app, AppVer: x.ver, Version: x.version, NoIndent: x.noIndent}
		user, pass := c.vals["username"], c.vals["password"]
		if x.anon {
			user, pass = anonymous, anonymous
		}
		c.rec.Sent = c.document("x", user, pass)
		c.fillUID(q.Body)
		if c.wire(c.rec, q) == nil {
			return
		}
		// The pause since the attempt before.
		if len(qs) > 0 {
			steps := next/2 - at/2
			gap := q.At - qs[len(qs)-1].At
			if gap < time.Duration(steps)*wait {
				c.Violate("hasty", "%s: attempts %v and %v are %v apart, %d pauses of %v are configured", c.label(), last(seq), x, gap, steps, wait)
				return
			}
			most := time.Duration(steps)*wait + 2*time.Minute
			if n, p := c.S.Net, c.used[qs[len(qs)-1]]; len(n.Plans) == 0 && n.Default.DialMs+n.Default.LatencyMs+n.Default.JitterMs <= 10 && n.Default.Window == 0 && p != nil && p.PauseMs == 0 && p.GapMs == 0 {
				// Nothing but the server's own delay takes time.
				most = time.Duration(steps)*wait + time.Duration(p.DelayMs)*time.Millisecond + 300*time.Millisecond
				c.Probe("brisk")
			}
			if netFails == 0 && gap > most {
				c.Violate("slow", "%s: attempts %v and %v are %v apart with pauses of %v", c.label(), last(seq), x, gap, wait)
				return
			}
		}
		at = next
		qs, seq = append(qs, q), append(seq, x)
	}
	if len(seq) > 4 {
		c.Nontriv++
	}
	// A usable answer that nothing disturbed ends the search.
	for i, q := range qs {
		p := c.used[q]
		if p == nil || !p.usable() {
			continue
		}
		later := c.failures()
		if i+1 < len(qs) {
			later = c.marks[qs[i+1]]
		}
		if i+1 < len(qs) && later == c.marks[q] {
			c.Violate("continued", "%s: %v was accepted, but the program went on to %v", c.label(), seq[i], seq[i+1])
			return
		}
	}
	rep, told := c.reported()
	if told != (c.Code == 0 && rep != nil) && told {
		c.Violate("report", "%s: settings reported with exit status %d", c.label(), c.Code)
		return
	}
	if !told {
		for i, q := range qs {
			if p := c.used[q]; p != nil && p.usable() && i == len(qs)-1 && c.marks[q] == c.failures() {
				c.Violate("unreported", "%s: %v was accepted, but nothing was reported: %q", c.label(), seq[i], clip(c.Out, 300))
				return
			}
		}
		if at != len(combos)-1 && netFails == 0 {
			c.Violate("gaveup", "%s: the program stopped after %v although it was refused", c.label(), last(seq))
			return
		}
		c.Probe("exhausted")
		return
	}
	c.Probe("reported")
	if len(qs) == 0 {
		c.Violate("invented", "%s: %v reported although the server was never asked", c.label(), rep)
		return
	}
	p := c.used[qs[len(qs)-1]]
	if p == nil || !p.usable() {
		c.Violate("invented", "%s: %v reported although the server did not accept the last attempt %v", c.label(), rep, last(seq))
		return
	}
	if !rep.same(last(seq)) {
		c.Violate("wrong", "%s: %v reported, the server accepted %v", c.label(), rep, last(seq))
	}
}

func last(l []combo) combo {
	if len(l) == 0 {
		return combo{}
	}
	return l[len(l)-1]
}

// reported are the settings the program printed.
func (c *cliRun) reported() (*combo, bool) {
	get := func(k string) (string, bool) {
		m := regexp.MustCompile(`(?mi)^` + k + `: *(.*)$`).FindStringSubmatch(c.Out)
		if m == nil {
			return "", false
		}
		return strings.TrimSpace(m[1]), true
	}
	a, ok1 := get("AppID")
	v, ok2 := get("AppVer")
	n, ok3 := get("OFX Version")
	i, ok4 := get("noindent")
	if !ok1 && !ok2 && !ok3 && !ok4 {
		return nil, false
	}
	x, _ := strconv.Atoi(n)
	b, _ := strconv.ParseBool(i)
	return &combo{app: a, ver: v, version: x, noIndent: b}, true
}

func init() {
	reg(&Prop{ID: "C15", World: worldC15, Gen: func(g *G) *Scenario {
		s := g.cliBase()
		spec, _ := g.cliSpec(pick(g, listings))
		s.CLI = spec
		rq, cl := cliDoc(spec)
		var p *Reply
		for {
			p = g.good(rq, cl)
			if g.One(2) {
				m := g.docGen(pick(g, model.Versions))
				if g.One(2) {
					m.Rich = pick(g, []float64{0, 0.5, 1})
				}
				if g.One(2) {
					m.List = pick(g, []int{3, 8, 30})
				}
				p.Doc = m.Reply(rq)
				p.Style = model.RandomStyle(g.Rand, p.Doc.Version, m.UTF8)
			}
			// Most sign-ons and statements succeed.
			for i, set := range p.Doc.Sets {
				for _, m := range set.K {
					st := m.Kid("STATUS")
					if i > 0 && (model.Statement[m.T] != "" && m.Kid(model.Statement[m.T]) == nil || st == nil) {
						continue
					}
					if !g.One(6) {
						st.Kid("CODE").V, st.Kid("SEVERITY").V = "0", "INFO"
					}
				}
			}
			if _, ok := shown(spec.Cmd, p.Doc); ok || g.One(4) {
				break
			}
		}
		switch g.IntN(12) {
		case 0, 1:
			good := p
			p = g.badReply(rq, cl, false)
			if p.Doc != nil && g.One(2) {
				p.Doc, p.Style = good.Doc, good.Style
				p.Cut = min(p.Cut, len(p.body()))
				if p.BadLen < 0 {
					p.BadLen = max(p.BadLen, -len(p.body()))
				}
			}
		case 2:
			// A damaged answer, which the library may accept.
			b := p.body()
			ms := g.damage(p.Doc, len(b))
			p.Doc, p.Body = nil, mutate(b, ms)
		case 3, 4:
			p.Break = g.breakRule(p.Doc)
		}
		spec.Replies = []*Reply{p}
		if cl.eff() == "vanguard" && g.One(2) {
			spec.Replies = []*Reply{g.handshake(p), p}
		}
		if g.One(6) {
			s.Net.Plans = g.plans(2, false)
		}
		return s
	}})
	reg(&Prop{ID: "C22", World: worldC22, Gen: func(g *G) *Scenario {
		s := g.cliBase()
		spec, _ := g.cliSpec(pick(g, append(append([]string(nil), downloads...), listings...)))
		s.CLI = spec
		rq, cl := cliDoc(spec)
		spec.Replies = []*Reply{g.good(rq, cl)}
		if cl.eff() == "vanguard" && g.One(2) {
			spec.Replies = append([]*Reply{g.handshake(spec.Replies[0])}, spec.Replies...)
		}
		if g.One(3) {
			at := g.IntN(len(spec.Flags) + 1)
			spec.Flags = append(spec.Flags[:at:at], append([]Flag{{N: "dryrun", V: "true", Form: pick(g, []int{3, 1, 2})}}, spec.Flags[at:]...)...)
			for i := range spec.Flags {
				if f := &spec.Flags[i]; f.N == "url" && g.One(4) {
					f.V = pick(g, []string{"http://plain.test/ofx", "bank", "https://unknown.test/"})
				}
			}
		}
		if g.One(3) {
			spec.Old = pick(g, []int{1, 5000})
		}
		if g.One(2) {
			return s
		}
		flag := func(n string) *Flag {
			for i := range spec.Flags {
				if spec.Flags[i].N == n {
					return &spec.Flags[i]
				}
			}
			spec.Flags = append(spec.Flags, Flag{N: n, Form: 1})
			return &spec.Flags[len(spec.Flags)-1]
		}
		drop := func(n string) {
			var l []Flag
			for _, f := range spec.Flags {
				if f.N != n {
					l = append(l, f)
				}
			}
			spec.Flags = l
		}
		long := func(n int) string { return strings.Repeat("9", n+1) }
		switch g.IntN(13) {
		case 0:
			spec.Tail = []string{pick(g, []string{"-nosuch", "--bankids", "-bankid-", "-dryrunx=true", "-url", "-org", "--password", "-username"})}
			switch g.IntN(4) {
			case 0:
				spec.Tail = []string{pick(g, []string{"true", "false", "-", "", "response.ofx", "download-profile", "url=https://b0.test/"})}
				for g.One(2) {
					spec.Tail = append(spec.Tail, pick(g, []string{"-dryrun", "-dryrun=true", "--", "-noindent", "more", "-nosuch"}))
				}
			case 1:
				spec.Tail = []string{"--", pick(g, []string{"-dryrun", "x", "--"})}
			case 2:
				f := flag(pick(g, []string{"noindent", "carriagereturn", "dryrun"}))
				f.V, f.Form = pick(g, []string{"true", "false", "1"}), pick(g, []int{0, 4})
				spec.Tail = nil
			}
		case 1:
			drop(pick(g, []string{"url", "username", "password"}))
		case 2:
			flag(pick(g, []string{"url", "username", "password"})).V = ""
		case 3:
			flag("ofxversion").V = pick(g, []string{"", "204", "2.0.3", "1", "300", "103x", "-203"})
		case 4:
			flag(pick(g, []string{"noindent", "carriagereturn", "dryrun"})).V = "maybe"
			for i := range spec.Flags {
				if f := &spec.Flags[i]; f.V == "maybe" {
					f.Form = g.Between(1, 2)
				}
			}
		case 5:
			f := flag("url")
			f.V = "http" + strings.TrimPrefix(f.V, "https")
		case 6:
			flag("username").V = long(32)
		case 7:
			flag("password").V = long(32)
		case 8:
			flag("appid").V = pick(g, []string{"QWIN26", "", "OFXGOX"})
		case 9:
			flag("appver").V = pick(g, []string{"24000", "", "2.4.0"})
		case 10:
			switch {
			case spec.download():
				flag("filename").V = ""
			default:
				spec.Cmd = pick(g, []string{"transactions", "Download-bank", "", "get-accounts ", "download", "-dryrun"})
			}
		case 11:
			if strings.Contains(spec.Cmd, "bank") {
				flag("accttype").V = pick(g, []string{"", "CHEQUE", "CHECKING SAVINGS", "0", "1", "savings", "Checking"})
			} else {
				spec.Flags = append(spec.Flags, Flag{N: "accttype", V: "CHECKING", Form: 1})
			}
		case 12:
			if n := pick(g, []string{"bankid", "acctid"}); strings.Contains(strings.Join(cliFlags[spec.Cmd], " "), n) && !strings.HasSuffix(spec.Cmd, "inv") {
				flag(n).V = ""
			}
		}
		return s
	}})
	reg(&Prop{ID: "C16", World: worldC16, Gen: func(g *G) *Scenario {
		s := g.cliBase()
		m := &model.Gen{R: g.Rand, Version: 203}
		spec := &CLISpec{Cmd: "detect-settings"}
		set := func(n, v string) { spec.Flags = append(spec.Flags, Flag{n, v, pick(g, []int{0, 1, 2, 4})}) }
		url := g.cliURL(false)
		if g.One(10) {
			url = "https://ofx.discovercard.com"
		}
		set("url", url)
		set("username", m.Str(32))
		set("password", m.Str(32))
		if g.One(2) {
			set("org", m.Str(32))
			if g.One(2) {
				set("fid", m.Str(32))
			}
		}
		if g.One(2) {
			set("delay", fmt.Sprint(pick(g, []int{0, 0, 0, 1, 100, 1000, 30000, 3600000})))
		}
		g.Shuffle(len(spec.Flags), func(i, j int) { spec.Flags[i], spec.Flags[j] = spec.Flags[j], spec.Flags[i] })
		s.CLI = spec
		// What the server accepts, built around one combination.
		far := pick(g, []int{4, 20, 44, 44, 44, 150, 300})
		if g.One(12) {
			far = len(combos)
		}
		t := combos[g.IntN(far)]
		rule := &Rule{Indent: pick(g, []int{0, 0, 1, 2}), Who: pick(g, []int{0, 0, 1, 2})}
		if rule.Indent != 0 {
			rule.Indent = map[bool]int{false: 1, true: 2}[t.noIndent]
		}
		if rule.Who != 0 {
			rule.Who = map[bool]int{false: 1, true: 2}[t.anon]
		}
		if !g.One(3) {
			rule.Versions = append(rule.Versions, t.version)
			for g.One(3) {
				rule.Versions = append(rule.Versions, pick(g, model.Versions))
			}
		}
		if !g.One(3) {
			rule.Apps = append(rule.Apps, t.app)
		}
		if g.One(2) {
			rule.AppVers = append(rule.AppVers, t.ver)
		}
		if g.One(4) {
			rule.Skip = g.Between(1, 5)
		}
		spec.Accept = rule
		if g.One(40) {
			spec.Accept = nil
		}
		one := &model.Doc{Version: 203, Sets: []*model.Node{{}}}
		cl := &Client{Kind: "get", URL: url}
		small := func() (*model.Doc, model.Style) {
			mg := &model.Gen{R: g.Rand, Version: pick(g, model.Versions), Rich: g.Float64(), List: 2}
			d := mg.Response(1)
			if st := d.Sets[0].K[0].Kid("STATUS"); true {
				st.Kid("CODE").V, st.Kid("SEVERITY").V = "0", "INFO"
			}
			return d, model.RandomStyle(g.Rand, d.Version, false)
		}
		for n := g.Between(1, 3); n > 0; n-- {
			p := &Reply{Reply: g.framing()}
			p.DelayMs, p.GapMs = p.DelayMs/10, 0
			p.Doc, p.Style = small()
			spec.Replies = append(spec.Replies, p)
		}
		for n := g.Between(1, 6); len(spec.Refusals) < n; {
			p := g.badReply(one, cl, false)
			p.Chunk, p.GapMs, p.DelayMs, p.Gzip = 0, 0, p.DelayMs/20, false
			if p.Doc != nil {
				p.Doc, p.Style = small()
				p.Break = nil
				p.Cut = min(p.Cut, len(p.body()))
				if p.BadLen < 0 {
					p.BadLen = max(p.BadLen, -len(p.body()))
				}
			}
			if g.One(4) {
				p = &Reply{}
				p.Body = []byte(pick(g, []string{"", "<html>sorry</html>", "OFXHEADER:100\r\nDATA:OFXSGML\r\n", "<?xml version=\"1.0\"?><OFX></OFX>"}))
			}
			if p.usable() || p.EarlyCut != "" {
				continue
			}
			spec.Refusals = append(spec.Refusals, p)
		}
		s.Net.Default.SegMax = 0
		if g.One(4) {
			s.Net.Plans = g.plans(g.Between(2, 12), false)
		}
		return s
	}})
}
