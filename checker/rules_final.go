package main

import (
	"go/types"
	"strings"
)

// ---- C21: final ranking ----

// seg is a part of the ranking list: the records there were before, or one
// record per player with chips. best: in order, best (or earliest) first.
type seg struct {
	alive bool
	fwd   bool
}

func segsReversed(s []seg) []seg {
	var r []seg
	for i := len(s) - 1; i >= 0; i-- {
		r = append(r, seg{s[i].alive, !s[i].fwd})
	}
	return r
}

const pRank = "C.State.Rankings"

// finalRanks follows the final ranking list through one path.
type finalRanks struct {
	c    *Ctx
	r    *Run
	o    *Outcome
	log  []Ev
	bad  func(f *Effect, key, msg string, x ...any)
	list *Term // the list stored last
}

// bestFirst: the list holds exactly the players with chips; 1 best first, -1
// worst first, 0 neither. why explains a 0.
func (fr *finalRanks) bestFirst(t *Term) (dir int, why string) {
	e := fr.r.e
	isPl := func(x *Term) bool { return e.pathOf(x) == pPlayers }
	if t == nil {
		return 0, "the list is not known"
	}
	ok, why := e.picksFrom(t, isPl, func(p passCase) int { return p.q.positive(p.f(e, "Chips")) })
	if !ok {
		return 0, why
	}
	src, stages := e.selectionTo(t, isPl)
	if len(stages) == 0 {
		return 0, "nobody is selected"
	}
	_ = src
	// every kept element stands for the visited one
	for _, st := range stages {
		for _, p := range st {
			if p.val == nil {
				continue
			}
			for _, f := range []string{"PlayerID", "Chips", "JoinAt"} {
				a, b := fr.field(p.ct.st, p.val, fr.elemType(p.val, p.et), f), fr.field(p.ct.st, p.x, p.et, f)
				if a != nil && b != nil && !p.q.same(a, b) && !strings.HasPrefix(f, "Chips") {
					return 0, "an element is not the selected player's"
				}
			}
		}
	}
	// order: from the nearest sorted list down to t
	lists := []*Term{t}
	x := t
	for i := 0; i < len(stages); i++ {
		x = stages[i][0].li.seq
		lists = append(lists, x)
	}
	dir = 1
	for i, l := range lists {
		s := lastSort(fr.log, len(fr.log), l)
		if s == nil {
			if i < len(stages) && stages[i][0].li.reverse {
				dir = -dir
			}
			continue
		}
		for _, d := range []bool{true, false} {
			el := s.cmpElem()
			if !hasField(el, "Chips") || !hasField(el, "JoinAt") {
				return 0, "the order cannot follow chips and joining time"
			}
			why = e.ordered(s.cmp, nil, e.fieldKey(el, "Chips", d), e.fieldKey(el, "JoinAt", !d))
			if why == "" {
				if !d {
					dir = -dir
				}
				return dir, ""
			}
		}
		return 0, why
	}
	return 0, "the players with chips are in no order"
}

func hasField(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (fr *finalRanks) elemType(v *Term, et types.Type) types.Type {
	if v.typ != nil {
		if _, ok := v.typ.Underlying().(*types.Struct); ok && v.op != OAlloc {
			return v.typ
		}
		if v.op == OAlloc {
			return types.NewPointer(v.typ)
		}
		if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			return v.typ
		}
	}
	return et
}

// field is a field of an element, nil when it has none of that name.
func (fr *finalRanks) field(st *State, x *Term, et types.Type, f string) *Term {
	if !hasField(et, f) {
		return nil
	}
	if s, ok := et.Underlying().(*types.Struct); ok && x.op != OAlloc {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				if x.op == OIndex || x.op == OField { // an address
					return fr.r.e.at(st, x, types.NewPointer(et), f)
				}
				return fr.r.e.sel(x, s.Field(i), i)
			}
		}
	}
	return fr.r.e.partOf(st, x, et, f)
}

// nth: v is the 1-based position, from the best, of the element visited by the
// pass over a list ordered dir.
func (fr *finalRanks) nth(li *LoopInfo, ct *Cont, list *Term, dir int, v *Term, took func(ct *Cont) bool) bool {
	e := fr.r.e
	q := e.q(ct.st.facts)
	if v == nil {
		return false
	}
	if li.idx != nil && dir == 1 && q.same(v, e.tt.Add(li.idx, e.tt.Int(1))) {
		return true
	}
	if li.idx != nil && dir == -1 && q.same(v, e.tt.Sub(e.lenOf(list), li.idx)) {
		return true
	}
	visit := dir
	if li.reverse {
		visit = -visit
	}
	// a counter: v is the counter, or one more than it
	for t, s := range e.sums {
		if s.loop != li || visit != 1 || !isIntType(t.typ) {
			continue
		}
		off, ok := e.tt.Sub(v, t).intVal()
		if !ok {
			continue
		}
		init, ok := s.init.intVal()
		if !ok || init+off != 1 {
			continue
		}
		good := true
		for _, c2 := range li.conts {
			step := int64(0)
			if took(c2) {
				step = 1
			}
			d, ok := e.tt.Sub(c2.next[t], t).intVal()
			good = good && ok && d == step
		}
		if good {
			return true
		}
	}
	// one more than the length of a list that grows along
	for t, s := range e.sums {
		if s.loop != li || visit != 1 || !emptyList(s.init) || !q.same(v, e.tt.Add(e.lenOf(t), e.tt.Int(1))) {
			continue
		}
		good := true
		for _, c2 := range li.conts {
			n := c2.next[t]
			if took(c2) {
				good = good && n != nil && n.op == OAppend && n.args[0] == t && len(n.args) == 2 && n.args[1].op != OSpread
			} else {
				good = good && n == t
			}
		}
		if good {
			return true
		}
	}
	// a field given to the element when the list was built
	x, et := e.elemOf(li, ct)
	s, isS := et.Underlying().(*types.Struct)
	if p, ok := et.Underlying().(*types.Pointer); ok {
		s, isS = p.Elem().Underlying().(*types.Struct)
	}
	if !isS || x == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if !isIntType(s.Field(i).Type()) {
			continue
		}
		name := s.Field(i).Name()
		if got := fr.field(ct.st, x, et, name); got == nil || !q.same(got, v) {
			continue
		}
		seq, cs, ok := e.selectOf(list)
		if !ok {
			continue
		}
		all := true
		n := 0
		for _, p := range cs {
			if p.val == nil {
				continue
			}
			n++
			d, _ := fr.bestFirst(list)
			bd := d
			if p.li.reverse {
				bd = -bd
			}
			fv := fr.field(p.ct.st, p.val, fr.elemType(p.val, p.et), name)
			tk := map[*Cont]bool{}
			for _, y := range cs {
				tk[y.ct] = y.val != nil
			}
			all = all && fr.nth(p.li, p.ct, seq, bd, fv, func(c *Cont) bool { return tk[c] })
		}
		if all && n > 0 {
			return true
		}
	}
	return false
}

// rankStores are the changes of the ranking list in a log.
func isRankStore(f *Effect) bool {
	return f.kind == "store" && strings.HasPrefix(f.name, "CompetitionState.Rankings") || (f.kind == "copy" || f.kind == "sort") && strings.HasPrefix(f.name, "CompetitionState.Rankings")
}

// added: the record's owner in the visited pass.
func (fr *finalRanks) record(st *State, rec *Term) (id, chips *Term, ok bool) {
	e := fr.r.e
	if rec.op != OAlloc {
		return nil, nil, false
	}
	rt := types.NewPointer(rec.typ)
	if !hasField(rt, "PlayerID") || !hasField(rt, "FinalChips") {
		return nil, nil, false
	}
	return e.at(st, rec, rt, "PlayerID"), e.at(st, rec, rt, "FinalChips"), true
}

// isList: the ranking list as it is now.
func (fr *finalRanks) isList(t *Term) bool {
	return t != nil && (t == fr.list || fr.list == nil && fr.r.e.pathOf(t) == pRank)
}

// order reads a list value as segments.
func (fr *finalRanks) order(st *State, t *Term, cur []seg) ([]seg, bool) {
	e := fr.r.e
	if emptyList(t) {
		return nil, true
	}
	if fr.isList(t) {
		return cur, true
	}
	if t.op == OAppend {
		s, ok := fr.order(st, t.args[0], cur)
		for _, x := range t.args[1:] {
			if !ok || x.op != OSpread {
				return nil, false
			}
			var s2 []seg
			s2, ok = fr.order(st, x.args[0], cur)
			s = append(append([]seg{}, s...), s2...)
		}
		return s, ok
	}
	s := e.sums[t]
	if s == nil || s.loop.seq == nil || !s.loop.full || s.loop.breaks > 0 {
		return nil, false
	}
	li := s.loop
	init, ok := fr.order(st, s.init, cur)
	if !ok {
		return nil, false
	}
	var body []seg
	pre := false
	if dir, _ := fr.bestFirst(li.seq); dir == 0 {
		src, ok := fr.order(st, li.seq, cur)
		if !ok {
			return nil, false
		}
		// a copy in the order visited
		for _, ct := range li.conts {
			x, _ := e.elemOf(li, ct)
			n := ct.next[t]
			if n == nil || n.op != OAppend || n.args[0] != t || len(n.args) != 2 || n.args[1] != x {
				return nil, false
			}
		}
		body = src
		if li.reverse {
			body = segsReversed(src)
		}
	} else {
		var done bool
		body, pre, done = fr.pass(li, func(ct *Cont) (*Term, *Term) { return t, ct.next[t] })
		if !done {
			return nil, false
		}
	}
	if pre {
		return append(append([]seg{}, body...), init...), true
	}
	return append(append([]seg{}, init...), body...), true
}

// pass: a pass over the players with chips that adds one record each.
func (fr *finalRanks) pass(li *LoopInfo, upd func(ct *Cont) (before, after *Term)) (body []seg, pre, ok bool) {
	e := fr.r.e
	if li.seq == nil || !li.full || li.breaks > 0 {
		return nil, false, false
	}
	dir, why := fr.bestFirst(li.seq)
	direct := false
	if dir == 0 {
		fr.bad(&Effect{pos: li.pos}, "list", "the records are not made for the players with chips, ordered by chips and then by joining: %s", why)
		return nil, false, false
	}
	_ = direct
	for i, ct := range li.conts {
		before, after := upd(ct)
		if after == nil || before == nil {
			return nil, false, false
		}
		base, el := e.listElems(ct.st, after)
		p := false
		if base == nil && len(el) == 2 && el[1].op == OSpread && el[1].args[0] == before {
			p, el = true, el[:1]
		} else if base != before {
			return nil, false, false
		}
		if len(el) != 1 || i > 0 && p != pre {
			return nil, false, false
		}
		pre = p
		x, et := e.elemOf(li, ct)
		id, chips, ok := fr.record(ct.st, el[0])
		q := e.q(ct.st.facts)
		if !ok || !q.same(id, fr.field(ct.st, x, et, "PlayerID")) || !q.same(chips, fr.field(ct.st, x, et, "Chips")) {
			fr.bad(&Effect{pos: li.pos}, "record", "a record does not hold the player's id and final chips")
			return nil, false, false
		}
	}
	fwd := (dir == 1) != li.reverse
	if pre {
		fwd = !fwd
	}
	return []seg{{true, fwd}}, pre, true
}

// swaps: the loop reverses the list in place.
func (fr *finalRanks) swaps(li *LoopInfo, list *Term) bool {
	e := fr.r.e
	if len(li.conts) != 1 || li.breaks > 0 || li.cond == nil {
		return false
	}
	ct := li.conts[0]
	st := evs(ct.log, "store:CompetitionState.Rankings[]")
	if len(st) != 2 {
		return false
	}
	ix := func(t *Term) *Term {
		for t != nil && t.op == OInit {
			t = t.args[0]
		}
		if t == nil || t.op != OIndex || t.args[0] != list {
			return nil
		}
		return t.args[1]
	}
	a, b := ix(st[0].addr), ix(st[1].addr)
	if a == nil || b == nil || ix(st[0].val) != b || ix(st[1].val) != a {
		return false
	}
	n := e.lenOf(list)
	for k := 0; k < 2; k++ {
		sa := e.sums[a]
		if sa != nil && sa.loop == li {
			i0, ok := sa.init.intVal()
			step := e.tt.Sub(ct.next[a], a)
			if one, isI := step.intVal(); ok && i0 == 0 && isI && one == 1 {
				last := e.tt.Sub(n, e.tt.Int(1))
				var j *Term
				if sb := e.sums[b]; sb != nil && sb.loop == li {
					if d, isI := e.tt.Sub(ct.next[b], b).intVal(); isI && d == -1 && sb.init == last {
						j = b
					}
				} else if b == e.tt.Sub(last, a) {
					j = b
				}
				if j != nil {
					for _, c := range []*Term{
						e.tt.Less(a, j, types.Typ[types.Int]),
						e.tt.Less(a, e.tt.mk(OBin, "/", types.Typ[types.Int], n, e.tt.Int(2)), types.Typ[types.Int]),
					} {
						if c == li.cond {
							return true
						}
					}
				}
			}
		}
		a, b = b, a
	}
	return false
}

func ruleC21(c *Ctx) {
	r := c.op(&Config{TrackAll: true, NoAsync: true}, "CloseCompetition", nil)
	if r == nil {
		return
	}
	e := r.e
	delayed, stopped := c.k("CompetitionStateStatus_DelayedBuyIn"), c.k("CompetitionStateStatus_StoppedBuyIn")
	ranked, unranked := 0, 0
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		c.count("obligations", 1)
		in := q.termIn(r.comp(r.st0, "State.Status"), delayed, stopped)
		told := func(l *LogNode) (out []Ev) { return evs(l, "callback:OnCompetitionFinalPlayerRankUpdated") }
		if in == -1 {
			unranked++
			for _, f := range flat(o.st.log) {
				if isRankStore(f.Effect) || f.name == "OnCompetitionFinalPlayerRankUpdated" || f.name == "CompetitionPlayer.CompetitionRank" {
					c.fail("ranked", f.pos, stackStr(f.Effect), "a competition that never ran (or has ended) gets a final ranking")
				}
			}
			continue
		}
		if in == 0 {
			c.fail("anyhow", r.fn.Pos(), r.name, "the final ranking does not depend on whether the competition is running: %s", r.describe(o))
			continue
		}
		ranked++
		log := flat(o.st.log)
		fr := &finalRanks{c: c, r: r, o: o, log: log}
		failed := false
		fr.bad = func(f *Effect, key, msg string, x ...any) {
			failed = true
			c.fail(key, f.pos, r.name, msg, x...)
		}
		cur := []seg{{false, true}}
		places, calls := 0, 0
		settled := false
		for _, f := range o.st.log.effects() {
			if settled {
				break
			}
			if f.kind == "store" && f.name == "CompetitionState.Status" {
				settled = true
				for _, g := range log {
					_ = g
				}
				continue
			}
			if f.kind == "callback" && f.name == "OnCompetitionFinalPlayerRankUpdated" {
				fr.bad(f, "told", "a final rank is announced outside the passes over the players")
			}
			if f.kind == "store" && f.name == "CompetitionPlayer.CompetitionRank" {
				fr.bad(f, "place", "a final rank is given outside a pass over the ranking")
			}
			if f.kind != "loop" {
				if isRankStore(f) {
					s, ok := fr.order(o.st, f.val, cur)
					if f.kind != "store" || f.name != "CompetitionState.Rankings" || !ok {
						if !failed {
							fr.bad(f, "order", "the ranking is changed in a way that is not an addition of every player with chips or a reversal")
						}
						continue
					}
					cur, fr.list = s, f.val
				}
				continue
			}
			li := f.loop
			var rank, place, tell bool
			for _, ct := range li.conts {
				for _, g := range flat(ct.log) {
					rank = rank || isRankStore(g.Effect)
					place = place || g.name == "CompetitionPlayer.CompetitionRank"
					tell = tell || g.name == "OnCompetitionFinalPlayerRankUpdated"
				}
			}
			if rank {
				list := (*Term)(nil)
				for _, ct := range li.conts {
					for _, g := range evs(ct.log, "store:CompetitionState.Rankings[]") {
						list = g.addr.args[0]
					}
				}
				if list != nil {
					if !fr.isList(list) || !fr.swaps(li, list) {
						fr.bad(f, "order", "the ranking is rearranged in a way that is not a reversal")
					}
					cur = segsReversed(cur)
				} else {
					body, pre, ok := fr.pass(li, func(ct *Cont) (*Term, *Term) {
						st := evs(ct.log, "store:CompetitionState.Rankings")
						if len(st) != 1 || len(st[0].loops) > 0 {
							return nil, nil
						}
						return st[0].old, st[0].val
					})
					if !ok && !failed {
						fr.bad(f, "order", "the pass does not add one record for each player with chips")
					}
					if pre {
						cur = append(append([]seg{}, body...), cur...)
					} else {
						cur = append(append([]seg{}, cur...), body...)
					}
				}
			}
			if tell {
				calls++
				dir, why := 0, "the pass is not over the players with chips"
				if li.seq != nil && li.full && li.breaks == 0 {
					dir, why = fr.bestFirst(li.seq)
				}
				if dir == 0 {
					fr.bad(f, "told", "final ranks are not announced for exactly the players with chips: %s", why)
					continue
				}
				for _, ct := range li.conts {
					g := told(ct.log)
					x, et := e.elemOf(li, ct)
					if len(g) != 1 || len(g[0].loops) > 0 || len(g[0].args) != 3 {
						fr.bad(f, "told", "a player's final rank is announced %d times", len(g))
						continue
					}
					cq := e.q(ct.st.facts)
					if !cq.same(g[0].args[0], r.comp(ct.st, "ID")) || !cq.same(g[0].args[1], fr.field(ct.st, x, et, "PlayerID")) {
						fr.bad(g[0].Effect, "told", "a final rank is announced for another player")
					}
					if !fr.nth(li, ct, li.seq, dir, g[0].args[2], func(*Cont) bool { return true }) {
						fr.bad(g[0].Effect, "told", "the announced final rank is not the player's place by chips: %s", g[0].args[2])
					}
				}
			}
			if place {
				places++
				if len(cur) != 2 {
					fr.bad(f, "early", "final ranks are given before the ranking is complete")
				}
				if !fr.isList(li.seq) || !li.full || li.breaks > 0 {
					fr.bad(f, "place", "the pass that gives the final ranks is not over the whole ranking")
					continue
				}
				for _, ct := range li.conts {
					st := evs(ct.log, "store:CompetitionPlayer.CompetitionRank")
					x, et := e.elemOf(li, ct)
					pid := e.at(ct.st, x, et, "PlayerID")
					cq := e.q(ct.st.facts)
					switch {
					case len(st) == 0:
						if !cq.noneWith(r.comp(ct.st, "State.Players"), "PlayerID", pid) {
							fr.bad(f, "place", "a player of the ranking may get no final rank")
						}
					case len(st) > 1 || len(st[0].loops) > 0:
						fr.bad(f, "place", "several final ranks are given for one record")
					default:
						if !cq.same(e.at(ct.st, st[0].addr.args[0], c.playerType(), "PlayerID"), pid) {
							fr.bad(st[0].Effect, "place", "the final rank is given to another player")
						}
						ok := cq.same(st[0].val, e.tt.Add(li.idx, e.tt.Int(1)))
						if !ok && !li.reverse {
							if s := e.sums[st[0].val]; s != nil && s.loop == li {
								k, isI := s.init.intVal()
								ok = isI && k == 1
								for _, c2 := range li.conts {
									d, isI := e.tt.Sub(c2.next[st[0].val], st[0].val).intVal()
									ok = ok && isI && d == 1
								}
							}
						}
						if !ok {
							fr.bad(st[0].Effect, "place", "the final rank is not the place in the ranking: %s", st[0].val)
						}
					}
				}
			}
		}
		if failed {
			continue
		}
		if !settled {
			fr.bad(&Effect{pos: r.fn.Pos()}, "settled", "the competition is not settled after its ranking: %s", r.describe(o))
		}
		if len(cur) != 2 || !cur[0].alive || !cur[0].fwd || cur[1].alive || cur[1].fwd {
			fr.bad(&Effect{pos: r.fn.Pos()}, "final", "the final ranking is not the players with chips, best first, followed by the players knocked out, last one first: %s", segStr(cur))
		}
		if calls != 1 {
			fr.bad(&Effect{pos: r.fn.Pos()}, "told", "the final ranks of the players with chips are announced in %d passes", calls)
		}
		if places == 0 {
			fr.bad(&Effect{pos: r.fn.Pos()}, "place", "no final ranks are given")
		}
	}
	c.need(ranked > 0, "closing a running competition")
	c.need(unranked > 0, "closing a competition that is not running")
	c.count("ranked paths", ranked)
}

func segStr(s []seg) string {
	var out []string
	for _, x := range s {
		n := "earlier knocked out"
		if x.alive {
			n = "with chips"
		}
		if x.fwd {
			n += " (kept order)"
		} else {
			n += " (reversed)"
		}
		out = append(out, n)
	}
	return strings.Join(out, ", ")
}

// ---- C47: closing ----

func ruleC47(c *Ctx) {
	r := c.op(&Config{TrackAll: true, NoAsync: true}, "CloseCompetition", nil)
	if r == nil {
		return
	}
	e := r.e
	closed := 0
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		c.count("obligations", 1)
		l := flat(o.st.log)
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail(key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail(key, r.fn.Pos(), r.name, msg, x...)
			}
		}
		switch r.ended(r.st0, q) {
		case 1:
			for _, f := range l {
				if mutation(f.Effect) || f.kind == "callback" {
					bad(f.Effect, "ended", "closing an ended competition has an effect: %s", f.name)
				}
			}
			continue
		case 0:
			bad(nil, "anyhow", "closing does not depend on whether the competition has ended: %s", r.describe(o))
			continue
		}
		closed++
		if o.err() == nil || !r.succeeded(o) {
			bad(nil, "result", "a close of an open competition does not succeed")
		}
		st := evIdx(l, "store:CompetitionState.Status")
		if len(st) != 1 || len(l[st[0]].loops) > 0 || !q.same(l[st[0]].val, r.args[0]) {
			bad(nil, "status", "the status is not set to the requested one exactly once")
			continue
		}
		s := st[0]
		// the end time
		ends := evs(o.st.log, "store:CompetitionState.EndAt")
		if q.mode("mtt") {
			if len(ends) != 1 || !isNow(ends[0].val) {
				bad(nil, "end-at", "the end time of an MTT is not the time of its close")
			}
		} else if !q.notMode("mtt") {
			bad(nil, "end-at", "the end time does not depend on the mode")
		} else {
			for _, f := range ends {
				bad(f.Effect, "end-at", "the end time of a CT or cash competition is changed by its close")
			}
		}
		if n := evs(o.st.log, "invoke:Blind.End"); len(n) != 1 || len(n[0].loops) > 0 {
			bad(nil, "blind", "the blind clock is stopped %d times", len(n))
		}
		if n := evs(o.st.log, "invoke:Blind.*"); len(n) > 1 {
			bad(nil, "blind", "the blind clock is given something else to do")
		}
		told := 0
		for i, f := range l {
			if f.kind != "callback" {
				continue
			}
			switch f.name {
			case "OnCompetitionStateUpdated":
				if ev := f.args[0]; q.sameStr(ev, c.k("CompetitionStateEvent_Settled")) {
					told++
					if i < s || len(f.loops) > 0 {
						bad(f.Effect, "told", "the end is announced before the status is set")
					}
				}
			case "OnCompetitionUpdated":
				if i < s {
					bad(f.Effect, "told", "an update is reported before the new status is set")
				}
			}
		}
		if told != 1 {
			bad(nil, "told", "the end of the competition is announced %d times", told)
		}
		// every table released
		rel := 0
		for _, f := range o.st.log.effects() {
			if f.kind != "loop" {
				continue
			}
			some := false
			for _, ct := range f.loop.conts {
				some = some || len(evs(ct.log, "invoke:TableManagerBackend.*")) > 0
			}
			if !some {
				continue
			}
			rel++
			if f.loop.seq == nil || e.pathOf(f.loop.seq) != pTables || !f.loop.full || f.loop.breaks > 0 {
				bad(f, "release", "not every table of the competition is released")
				continue
			}
			for _, ct := range f.loop.conts {
				x, et := e.elemOf(f.loop, ct)
				tb := evs(ct.log, "invoke:TableManagerBackend.*")
				if len(tb) != 1 || tb[0].name != "TableManagerBackend.ReleaseTable" || !e.q(ct.st.facts).same(tb[0].args[0], e.at(ct.st, x, et, "ID")) {
					bad(f, "release", "a table is not released exactly once")
				}
			}
		}
		if rel > 1 || rel == 0 && !q.le("len("+pTables+")", nil, 0) {
			bad(nil, "release", "the tables are released in %d passes", rel)
		}
		for i, f := range l {
			if f.kind == "invoke" && strings.HasPrefix(f.name, "TableManagerBackend.") && i < s {
				bad(f.Effect, "early", "a table is released while the competition is not yet closed")
			}
			if f.kind == "invoke" && strings.HasPrefix(f.name, "TableManagerBackend.") && len(f.loops) == 0 {
				bad(f.Effect, "release", "a table is given something to do outside the pass over the tables")
			}
			if f.kind == "store" && f.name == "CompetitionState.Tables" || f.kind == "store" && f.name == "CompetitionState.Players" {
				bad(f.Effect, "kept", "closing changes %s", f.name)
			}
		}
	}
	c.need(closed > 0, "closing an open competition")
}

// ---- C48: when a competition closes ----

// passedNow: whether some reading of the clock is beyond t.
func (q *FQ) passedNow(t *Term) int {
	for _, n := range q.allTerms() {
		if isNow(n) {
			if v := q.lessT(t, n); v != 0 {
				return v
			}
		}
	}
	return 0
}

// handAlive is the number of players with chips in the reported hand.
func (r *Run) handAlive(t *Term) bool {
	e := r.e
	if t.op == OLen && t.args[0].op == OCall && strings.Contains(t.args[0].name, "pokertable.Table.AlivePlayers") {
		return true
	}
	seq, cs, ok := e.countOf(t)
	return ok && strings.HasSuffix(e.pathOf(seq), ".State.PlayerStates") && exactly(cs, func(p passCase) int { return p.q.positive(p.f(e, "Bankroll")) })
}

func (r *Run) handAliveLess(q *FQ, n *Term) int {
	for _, t := range q.allTerms() {
		if r.handAlive(t) {
			if v := q.lessT(t, n); v != 0 {
				return v
			}
		}
	}
	return 0
}

func ruleC48(c *Ctx) {
	for _, mode := range []string{"ct", "cash", "mtt"} {
		cfg := siteCfg([]string{"CompetitionState.Status", "sym:now", "CompetitionMeta.MaxDuration", "CompetitionMeta.TableMinPlayerCount", "BlindState.FinalBuyInLevelIndex", "BlindState.CurrentLevelIndex", "Status.CurrentLevelIndex"},
			"ext:timebank.TimeBank.NewTask", "store:CompetitionState.Status")
		status := ""
		if f := c.w.namedType(c.w.root, "AdvanceState"); f != nil {
			status = "AdvanceState.Status"
		}
		if !c.need(status != "", "the state of the advancement") {
			return
		}
		in := interest("ext:timebank.TimeBank.NewTask", "store:CompetitionState.Status", "store:"+status)
		cfg.Interest = in
		if mode == "mtt" {
			cfg.Track[status] = true
			delete(cfg.Track, "sym:now")
			cfg.TrackTerm = func(e *Engine, t *Term) bool {
				if t.op != OLin && t.op != OLen {
					return false
				}
				for l := range e.leaves(t) {
					if l == "CompetitionState.Tables" {
						return true
					}
				}
				ok := false
				for _, x := range append([]*Term{t}, t.args...) {
					if x.op == OLen {
						seq, _, isC := e.countOf(x)
						ok = ok || isC && strings.HasSuffix(e.pathOf(seq), ".State.PlayerStates")
					}
				}
				return ok
			}
		}
		cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool { return a.name == "timebank.TimeBank.NewTask" }
		r := c.updateTable(cfg, mode, "table_game_settled")
		if r == nil {
			continue
		}
		e := r.e
		// which tasks close the competition
		closers := map[*Term]*Async{}
		for _, a := range r.asyncs("timebank.TimeBank.NewTask") {
			if a.name != "timebank.TimeBank.NewTask" {
				continue
			}
			for _, o := range a.outcomes {
				if len(evs(o.st.log, "store:CompetitionState.Status")) > 0 {
					closers[a.closure] = a
				}
			}
		}
		if !c.need(len(closers) > 0, "%s: a delayed task that closes the competition", mode) {
			continue
		}
		for _, a := range closers {
			done := false
			for _, o := range a.outcomes {
				q := e.q(o.st.facts)
				st := evs(o.st.log, "store:CompetitionState.Status")
				c.count("obligations", 1)
				switch {
				case len(st) == 0:
					if r.ended(a.st0, q) == -1 && q.fails(a.params[0]) {
						c.fail("task:"+mode, a.pos, a.label, "the task may leave an open competition open")
					}
				case !q.fails(a.params[0]) || len(st) > 1 || !q.sameStr(st[0].val, c.k("CompetitionStateStatus_End")):
					c.fail("task:"+mode, st[0].pos, a.label, "the task closes the competition although it was cancelled, or not as regularly ended")
				default:
					done = true
				}
			}
			c.need(done, "%s: the close by the delayed task", mode)
		}
		closes, stays := 0, 0
		for _, o := range r.outs {
			q := e.q(o.st.facts)
			if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) || !handNew(q) {
				continue
			}
			c.count("obligations", 1)
			var tasks []Ev
			for _, f := range flat(o.st.log) {
				if f.kind == "ext" && f.name == "timebank.TimeBank.NewTask" && len(f.args) == 3 && closers[f.args[2]] != nil {
					tasks = append(tasks, f)
				}
			}
			for _, f := range flat(o.st.log) {
				if f.name == "CompetitionState.Status" {
					c.fail("at-once:"+mode, f.pos, stackStr(f.Effect), "a settled hand closes the competition at once")
				}
			}
			end := e.tt.Add(r.arg0(r.st0, 0, "State.StartAt"), r.comp(r.st0, "Meta.MaxDuration"))
			want := 0
			switch mode {
			case "cash":
				want = q.passedNow(end)
			case "ct":
				want = or3(q.passedNow(end), and3(r.stopBuyIn(o.st, q), r.handAliveLess(q, r.comp(r.st0, "Meta.TableMinPlayerCount"))))
			case "mtt":
				upd := q.termIn(r.comp(r.st0, "State.AdvanceState.Status"), c.k("CompetitionAdvanceStatus_Updating"))
				adv := -1
				for _, f := range evs(o.st.log, "store:"+status) {
					if q.sameStr(f.val, c.k("CompetitionAdvanceStatus_End")) {
						adv = 1
					}
				}
				oneAlive := 0
				for _, t := range q.allTerms() {
					if oneAlive == 0 && r.handAlive(t) {
						oneAlive = q.eqInt(t, 1)
					}
				}
				oneTable := q.eqInt(e.lenOf(r.comp(o.st, "State.Tables")), 1)
				switch upd {
				case 1:
					want = adv
				case -1:
					want = and3(and3(not3(r.ended(o.st, q)), r.stopBuyIn(o.st, q)), and3(oneAlive, oneTable))
				}
			}
			switch {
			case len(tasks) > 1 || len(tasks) == 1 && len(tasks[0].loops) > 0:
				c.fail("once:"+mode, tasks[0].pos, stackStr(tasks[0].Effect), "%s: several closes are scheduled after one hand", mode)
			case len(tasks) == 1:
				closes++
				if want != 1 {
					c.fail("early:"+mode, tasks[0].pos, stackStr(tasks[0].Effect), "%s: a close is scheduled although the competition may have to go on: %s", mode, r.describe(o))
				}
				if !q.sameInt(tasks[0].args[1], 3000000000) {
					c.fail("delay:"+mode, tasks[0].pos, stackStr(tasks[0].Effect), "%s: the close is not scheduled for 3 seconds later", mode)
				}
			default:
				stays++
				if want != -1 {
					c.fail("missed:"+mode, r.fn.Pos(), r.name, "%s: no close is scheduled although the competition may be over: %s", mode, r.describe(o))
				}
			}
		}
		c.need(closes > 0 && stays > 0, "%s: hands that close the competition and hands that do not", mode)
		c.count("hands", closes+stays)
	}
}
