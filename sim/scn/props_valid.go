package scn

import (
	"bytes"

	"verif/sim/lib"
	"verif/sim/model"
)

// ---- C21: responses that break a rule.

func worldC21(s *Scenario, r *Run) {
	if s.Stream != nil {
		streamC21(s, r)
		return
	}
	w := NewWorld(s, r)
	w.RunActors(10 * day)
	w.noCrash()
	for _, rec := range w.Recs {
		if rec.Step.Op != "request" || rec.Crash != "" {
			continue
		}
		if !rec.Done {
			w.Violate("stuck", "%s did not return", rec.label())
			continue
		}
		if len(rec.Step.Replies) != 1 {
			Invalid("one reply per step")
		}
		p := rec.Step.Replies[0]
		r.Evals++
		if p.Break == nil {
			if rec.Err != nil || rec.Resp == nil {
				w.Violate("refused", "%s: a valid response: %v", rec.label(), rec.Err)
			} else if d := lib.DiffResponse(p.Doc, rec.Resp); d != "" {
				w.Violate("differs", "%s: %s", rec.label(), d)
			}
			continue
		}
		r.Nontriv++
		r.Probe("rule-" + p.Break.Rule)
		r.Fire("rule-broken")
		if rec.Err == nil {
			w.Violate("accepted", "%s: no error although the response breaks the rule %s: %s", rec.label(), p.Break.Rule, p.Break.What)
		} else if rec.Resp != nil {
			w.Violate("returned", "%s: a response together with the error %v (rule %s: %s)", rec.label(), rec.Err, p.Break.Rule, p.Break.What)
		}
	}
}

func streamC21(s *Scenario, r *Run) {
	st := s.Stream
	if st.Doc == nil || st.Break == nil || len(st.Muts) > 0 {
		Invalid("no broken document")
	}
	mustCheck(st.Doc, false)
	good := model.Encode(st.Doc, st.Style)
	bad := model.Encode(st.Break.apply(st.Doc), st.Style)
	rds := append([]*Reader{nil}, st.Readers...)
	for i, p := range rds {
		r.Evals++
		r.Nontriv++
		r.Probe("rule-" + st.Break.Rule)
		r.Fire("rule-broken")
		o := parseWith(r.NewReader(bad, p), false)
		r.Event("reader %d: broken: %v", i, o)
		if o.crash != "" {
			r.Violate("crash", "rule %s: %s", st.Break.Rule, o.crash)
		} else if o.err == "" {
			r.Violate("accepted", "no error although the response breaks the rule %s: %s", st.Break.Rule, st.Break.What)
		}
		o = parseWith(r.NewReader(good, p), false)
		r.Event("reader %d: intact: %v", i, o)
		if o.crash != "" || o.err != "" {
			r.Violate("refused", "the same document without the violation (rule %s, %s): %v", st.Break.Rule, st.Break.What, o)
		} else if d := lib.DiffResponse(st.Doc, o.resp); d != "" {
			r.Violate("differs", "%s", d)
		} else if ok, err := o.resp.Valid(); !ok || err != nil {
			r.Violate("invalid", "Valid() of the accepted response: %v, %v", ok, err)
		}
		// The separate validity check agrees with parsing.
		if o := parseWith(bytes.NewReader(bad), true); o.err == "" && o.crash == "" {
			if ok, err := o.resp.Valid(); ok || err == nil {
				r.Violate("valid", "Valid() says %v, %v although the response breaks the rule %s: %s", ok, err, st.Break.Rule, st.Break.What)
			}
			r.Probe("decodable")
		}
	}
}

func init() {
	reg(&Prop{ID: "C21", World: worldC21, Gen: func(g *G) *Scenario {
		if g.One(2) {
			s := &Scenario{Sched: g.sched(false)}
			// Half of the runs wait for a document that has a place for a given
			// rule, so that the rarely applicable ones get their share.
			want := ""
			if g.One(2) {
				want = pick(g, ruleList).name
			}
			for try := 0; ; try++ {
				if try == 40 {
					want = ""
				}
				st := g.streamDoc()
				if !g.One(3) {
					// Most rules concern bank statements.
					m := g.docGen(pick(g, model.Versions))
					m.List, m.Rich = max(m.List, 2), 0.3+0.7*m.Rich
					st.Doc.Version = m.Version
					d := m.Response(1)
					st.Doc.Sets = []*model.Node{d.Sets[0], {T: "BANKMSGSRSV1", K: []*model.Node{m.Agg("STMTTRNRS", "STMTTRNRS")}}}
					st.Style = model.RandomStyle(g.Rand, st.Doc.Version, m.UTF8)
				}
				if st.Break = g.breakThe(want, st.Doc); st.Break == nil {
					continue
				}
				for n := g.IntN(3); n > 0; n-- {
					rd := g.reader()
					rd.GapMs = 0
					st.Readers = append(st.Readers, rd)
				}
				s.Stream = st
				return s
			}
		}
		s := g.base(false)
		k := &keys{}
		s.addServers("good", hosts...)
		s.Clients = []Client{g.clientSpec(pick(g, []string{"basic", "basic", "vanguard", "discover"}))}
		c := &s.Clients[0]
		a := &Actor{}
		for n := g.Between(1, 4); n > 0; n-- {
			st := g.request(c, k, pick(g, hosts))
			p := st.Replies[0]
			if g.One(2) {
				m := g.docGen(p.Doc.Version)
				m.List, m.Rich = max(m.List, 2), 0.3+0.7*m.Rich
				p.Doc.Sets = []*model.Node{p.Doc.Sets[0], {T: "BANKMSGSRSV1", K: []*model.Node{m.Agg("STMTTRNRS", "STMTTRNRS")}}}
				p.Style = model.RandomStyle(g.Rand, p.Doc.Version, m.UTF8)
			}
			if !g.One(4) {
				p.Break = g.breakRule(p.Doc)
			}
			a.Steps = append(a.Steps, st)
		}
		s.Actors = []*Actor{a}
		return s
	}})
}
