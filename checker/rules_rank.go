package main

import (
	"go/types"
)

// ---- orders ----

// orderKey is one key of an order: the value of a position and its direction.
type orderKey struct {
	get  func(o *Outcome, x *Term) *Term
	desc bool
}

// ordered: the comparator puts positions in the lexicographic order of the
// keys. skip tells cases the order does not speak about.
func (e *Engine) ordered(cmp *Comparator, skip func(o *Outcome, x, y *Term) bool, keys ...orderKey) string {
	if cmp == nil {
		return "its order could not be analysed"
	}
	n := 0
	for _, o := range cmp.outs {
		el := func(i *Term) *Term {
			ad := e.indexAddr(cmp.coll, i, cmp.elem)
			if _, ok := cmp.elem.Underlying().(*types.Pointer); ok {
				return e.load(o.st, ad, cmp.elem)
			}
			return ad
		}
		x, y := el(cmp.i), el(cmp.j)
		if skip != nil && skip(o, x, y) {
			continue
		}
		n++
		f := o.st.facts
		for _, k := range keys {
			a, b := k.get(o, x), k.get(o, y)
			if a == nil || b == nil {
				return "the compared values are not found"
			}
			for _, less := range []bool{true, false} {
				g := f.clone()
				p, q := a, b
				if !less {
					p, q = b, a
				}
				if !e.assume(g, e.tt.Less(p, q, types.Typ[types.Int64]), true) {
					continue
				}
				want := less != k.desc
				if v := e.eval(g, o.ret[0]); v == 0 || (v == 1) != want {
					return "its comparison does not follow the order"
				}
			}
			f = f.clone()
			if !e.assume(f, e.tt.Eq(a, b, types.Typ[types.Int64]), true) {
				f = nil
				break
			}
		}
	}
	if n == 0 {
		return "its order could not be analysed"
	}
	return ""
}

// fieldKey orders by a field of the element.
func (e *Engine) fieldKey(t types.Type, field string, desc bool) orderKey {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return orderKey{func(o *Outcome, x *Term) *Term { return e.at(o.st, x, types.NewPointer(t), field) }, desc}
}

// lastSort is the last sort of the list before position i of the log.
func lastSort(l []Ev, i int, list *Term) *Effect {
	for j := i - 1; j >= 0; j-- {
		if l[j].kind == "sort" && l[j].args[0] == list {
			return l[j].Effect
		}
	}
	return nil
}

// ---- C20: live ranks ----

func ruleC20(c *Ctx) {
	rbw := c.k("CompetitionPlayerStatus_ReBuyWaiting")
	pats := []string{"store:CompetitionPlayer.CompetitionRank", "sort:*", "snap:callback:OnCompetitionStateUpdated"}
	track := []string{"CompetitionPlayer.Chips"}
	type job struct {
		r    *Run
		outs []*Outcome
		name string
		must func(o *Outcome, q *FQ) bool
	}
	var jobs []job
	if r := c.settleRun("", track, pats...); r != nil {
		jobs = append(jobs, job{r, r.outs, "a settled hand", func(o *Outcome, q *FQ) bool {
			return r.ended(r.st0, q) != 1 && !q.absent(pTables, "ID", r.arg(0, "ID")) && handNew(q)
		}})
	}
	if r, a := c.blindRun("", append(track, "BlindState.FinalBuyInLevelIndex", "BlindState.CurrentLevelIndex", "Status.CurrentLevelIndex"), pats...); r != nil && a != nil {
		jobs = append(jobs, job{r, a.outcomes, "the end of buy-in", func(o *Outcome, q *FQ) bool {
			return r.ended(a.st0, q) != 1 && r.stopBuyIn(o.st, q) != -1 && q.termIn(r.comp(a.st0, "State.Status"), c.k("CompetitionStateStatus_StoppedBuyIn")) != 1
		}})
	}
	for _, m := range []string{"PlayerBuyIn", "PlayerAddon"} {
		cfg := siteCfg(append(track, "CompetitionState.Status", "CompetitionMeta.Mode"), pats...)
		cfg.NoAsync = true
		cfg.LocalStores = true
		if r := c.op(cfg, m, nil); r != nil {
			jobs = append(jobs, job{r, r.outs, "an accepted " + m, func(o *Outcome, q *FQ) bool { return r.succeeded(o) && !q.notMode("ct", "mtt", "cash") }})
		}
	}
	n := 0
	seen := map[*LoopInfo]bool{}
	for _, j := range jobs {
		r, e := j.r, j.r.e
		pt := c.playerType()
		// which list a pass runs over: 1 players with chips, 2 players waiting
		// for a re-buy, 3 the rankings
		players := func(o *Outcome) *Term { return r.comp(o.st, "State.Players") }
		mine := func(o *Outcome, f *Effect) bool {
			a := root(f.addr)
			if a.op != OAlloc {
				return true
			}
			if cur := players(o); cur.op == OAppend {
				for _, x := range cur.args[1:] {
					if x == a {
						return true
					}
				}
			}
			return false // a copy
		}
		stores := func(o *Outcome, l *LogNode) (out []Ev) {
			for _, f := range evs(l, "store:CompetitionPlayer.CompetitionRank") {
				if mine(o, f.Effect) {
					out = append(out, f)
				}
			}
			return
		}
		type lk struct{ t, cur *Term }
		kinds := map[lk]int{}
		kind := func(o *Outcome, t *Term) int {

			if e.pathOf(t) == "C.State.Rankings" {
				return 3
			}
			cur := players(o)
			key := lk{t, cur}
			if k, ok := kinds[key]; ok {
				return k
			}
			from := func(src *Term) bool { return src == cur || e.pathOf(src) == pPlayers && e.pathOf(cur) == pPlayers }
			k := 0
			if ok, _ := e.picksFrom(t, from, func(p passCase) int { return p.q.positive(p.f(e, "Chips")) }); ok {
				k = 1
			} else if ok, _ := e.picksFrom(t, from, func(p passCase) int {
				return and3(not3(p.q.positive(p.f(e, "Chips"))), p.q.termIn(p.f(e, "Status"), rbw))
			}); ok {
				k = 2
			}
			if _, stages := e.selectionTo(t, from); len(stages) == 0 {
				k = 0
			} else if k > 0 {
				for _, st := range stages {
					for _, p := range st {
						for _, f := range []string{"PlayerID", "Chips", "JoinAt", "ReBuyWaitingAt"} {
							if p.val != nil && !p.q.same(e.partOf(p.ct.st, p.val, p.et, f), p.f(e, f)) {
								k = 0
							}
						}
					}
				}
			}
			kinds[key] = k
			return k
		}
		none := func(o *Outcome, q *FQ, k int) bool {
			for _, t := range q.summaries() {
				if t.op == OLen && q.e.ivOf(q.f, t).hi <= 0 && kind(o, t.args[0]) == k {
					return true
				}
			}
			return false
		}
		event := func(f *Effect) bool {
			if f.kind != "callback" || f.name != "OnCompetitionStateUpdated" {
				return false
			}
			s, ok := f.args[0].strVal()
			return ok && s == c.k("CompetitionStateEvent_PlayerRankUpdated")
		}
		// given a rank in a refresh
		gives := func(o *Outcome, f Ev) bool {
			if f.name != "CompetitionPlayer.CompetitionRank" || !mine(o, f.Effect) {
				return false
			}
			if len(f.loops) == 0 {
				return root(f.addr).op != OAlloc // else a new player's first rank
			}
			li := f.loops[len(f.loops)-1]
			// else the final ranking
			return li.seq == nil || li.reverse || e.pathOf(li.seq) != "C.State.Rankings" && (li.start == nil || li.seq != r.comp(li.start, "State.Rankings"))
		}
		for _, o := range j.outs {
			q := e.q(o.st.facts)
			open := q.termIn(r.comp(o.st, "State.Status"), c.k("CompetitionStateStatus_Registering"), c.k("CompetitionStateStatus_DelayedBuyIn"), c.k("CompetitionStateStatus_StoppedBuyIn"))
			must := open != -1 && j.must(o, q)
			if must {
				n++
			}
			c.count("obligations", 1)
			for _, f := range flat(o.st.log) {
				if event(f.Effect) && len(f.loops) == 0 {
					must = false
				} else if gives(o, f) {
					must = true
				}
			}
			if must {
				c.fail("ranks:event", r.fn.Pos(), r.name, "%s: the ranks are not given anew and announced: %s", j.name, r.describe(o))
			}
		}
		for _, s := range r.e.sites {
			if !event(s.eff) || s.st == nil {
				continue
			}
			o := &Outcome{st: s.st}
			q := e.q(s.facts)
			l := flat(s.log)
			for i := len(l) - 1; i >= 0; i-- {
				if event(l[i].Effect) && len(l[i].loops) == 0 {
					l = l[i+1:]
					break
				}
			}
			var passes []*LoopInfo
			at := map[*LoopInfo]int{}
			first := s.eff
			for i, f := range l {
				if !gives(o, f) {
					continue
				}
				first = f.Effect
				if len(f.loops) == 0 {
					c.fail("ranks:loop", f.pos, stackStr(f.Effect), "%s: a rank is written outside a pass over the players", j.name)
					continue
				}
				li := f.loops[len(f.loops)-1]
				if _, ok := at[li]; !ok {
					at[li] = i
					passes = append(passes, li)
				}
			}
			c.count("obligations", 1)
			pos, fn := first.pos, stackStr(first)
			bad := func(key, msg string, x ...any) { c.fail("ranks:"+key, pos, fn, j.name+": "+msg, x...) }
			base := e.tt.Int(1)
			want := 1
			for _, li := range passes {
				k := 0
				if li.seq != nil {
					k = kind(o, li.seq)
				}
				if k == 0 {
					bad("list", "ranks are given to a list that is neither the players with chips, those waiting for a re-buy nor the rankings")
					continue
				}
				for want < k {
					if !none(o, q, want) {
						bad("missed", "%s get no rank before others do", []string{"", "players with chips", "players waiting for a re-buy"}[want])
					}
					want++
				}
				if k < want {
					bad("order", "the groups of players are not ranked once each and in order")
				}
				want = k + 1
				// order
				if k < 3 {
					s := lastSort(l, at[li], li.seq)
					if s == nil {
						bad("unsorted", "ranks are given to players in no order")
					} else if !seen[li] {
						keys := []orderKey{e.fieldKey(s.cmpElem(), "Chips", true), e.fieldKey(s.cmpElem(), "JoinAt", false)}
						if k == 2 {
							keys = []orderKey{e.fieldKey(s.cmpElem(), "ReBuyWaitingAt", true)}
						}
						if why := e.ordered(s.cmp, nil, keys...); why != "" {
							c.fail("ranks:sort", s.pos, stackStr(s), "the %s are not ranked in order: %s", []string{"", "players with chips", "players waiting for a re-buy"}[k], why)
						}
					}
				}
				if !li.full || li.breaks > 0 || li.reverse != (k == 3) {
					bad("partial", "not everybody is ranked, or in the wrong direction")
				}
				// numbers
				var cnt *Term
				for _, ct := range li.conts {
					sts := stores(o, ct.log)
					x, et := e.elemOf(li, ct)
					pid := e.at(ct.st, x, et, "PlayerID")
					cq := e.q(ct.st.facts)
					switch {
					case len(sts) == 0:
						if !cq.noneWith(players(o), "PlayerID", pid) {
							bad("skipped", "a player of the competition may get no rank")
						}
					case len(sts) > 1:
						bad("twice", "a player gets several ranks")
					default:
						v := sts[0].val
						rec := sts[0].addr.args[0]
						if !cq.same(e.at(ct.st, rec, pt, "PlayerID"), pid) {
							bad("player", "the rank is given to a player other than the visited one")
						}
						if cnt == nil {
							cnt = v
						}
						if v != cnt {
							bad("number", "the ranks are not counted up")
						}
					}
				}
				s := e.sums[cnt]
				switch {
				case cnt == nil:
				case s != nil && s.loop == li && q.same(s.init, base):
					for _, ct := range li.conts {
						want := cnt
						if len(stores(o, ct.log)) > 0 {
							want = e.tt.Add(cnt, e.tt.Int(1))
						}
						if ct.next[cnt] != want {
							bad("step", "the next rank is %s after rank %s", ct.next[cnt], cnt)
						}
					}
					base = cnt
				case q.same(cnt, e.tt.Add(base, li.idx)) && !li.reverse:
					base = e.tt.Add(base, e.lenOf(li.seq))
				default:
					bad("first", "the ranks of this group do not continue from %s: %s", base, cnt)
				}
				seen[li] = true
			}
			for ; want <= 3; want++ {
				if !none(o, q, want) && !(want == 3 && q.le("len(C.State.Rankings)", nil, 0)) {
					bad("missing", "%s may be left without a new rank: %s", []string{"", "players with chips", "players waiting for a re-buy", "players knocked out"}[want], stackStr(s.eff))
				}
			}
		}
	}
	c.need(n > 0 && len(seen) > 0, "refreshes of the ranks")
	c.count("refreshes", n)
	c.count("rank passes", len(seen))
}

func (f *Effect) cmpElem() types.Type {
	if f.cmp == nil {
		return types.Typ[types.Int]
	}
	return f.cmp.elem
}

// partOf is the field of a struct value, or of the object a pointer points to.
func (e *Engine) partOf(st *State, v *Term, t types.Type, field string) *Term {
	if pt, ok := t.Underlying().(*types.Pointer); ok && v.typ != nil && v.op != OAlloc {
		if s, ok := v.typ.Underlying().(*types.Struct); ok && types.Identical(v.typ, pt.Elem()) {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == field {
					return e.sel(v, s.Field(i), i)
				}
			}
		}
	}
	return e.at(st, v, t, field)
}
