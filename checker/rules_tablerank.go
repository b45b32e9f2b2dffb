package main

import (
	"go/types"
	"strings"
)

// ---- C51: a settled hand's chips and table ranks ----

// rankStage is a pass that puts the rank data of players into a map.
type rankStage struct {
	s       *Summary
	counter *Term // the rank given, nil when it is always none
	guarded bool  // only for players without rank data
}

// rankData reads how a map of rank data was filled: the players of the hand in
// order, and everybody else at the table without a rank.
func (c *Ctx) rankData(r *Run, o *Outcome, l []Ev, at int, m *Term) (hand, rest *rankStage, why string) {
	e := r.e
	first := true
	for ; m != nil && m.op != OMapEmpty; first = false {
		s := e.sums[m]
		if s == nil || s.loop == nil || !s.loop.full || s.loop.breaks > 0 {
			return nil, nil, "it is not clear how the ranks were determined: " + m.String()
		}
		g := &rankStage{s: s}
		none, puts := 0, 0
		for _, ct := range s.loop.conts {
			q := e.q(ct.st.facts)
			next := ct.next[s.sym]
			x, et := e.elemOf(s.loop, ct)
			if x == nil || next == nil {
				return nil, nil, "a pass over the table's players is not understood"
			}
			switch {
			case next == s.sym:
				g.guarded = true
				if !q.holds(e.tt.mk(OCall, "maphas", types.Typ[types.Bool], s.sym, e.at(ct.st, x, et, "PlayerID"))) {
					return nil, nil, "a player of the table gets no rank data"
				}
			case next.op == OMapPut && next.args[0] == s.sym && next.args[2].typ != nil:
				puts++
				k, v := next.args[1], next.args[2]
				f := func(n string) *Term { return e.partOf(ct.st, v, v.typ, n) }
				if e.pathOf(k) != "p1.State.PlayerStates[].PlayerID" || e.pathOf(f("Chips")) != "p1.State.PlayerStates[].Bankroll" || holder(k) == nil || holder(k) != holder(f("Chips")) {
					return nil, nil, "the chips recorded for " + k.String() + " are " + f("Chips").String()
				}
				rank := f("Rank")
				switch cs := e.sums[rank]; {
				case q.sameInt(rank, 0):
					none++
				case g.counter != nil && g.counter != rank:
					return nil, nil, "the ranks are not counted up"
				case cs != nil && cs.loop == s.loop && q.sameInt(cs.init, 1) && ct.next[rank] == e.tt.Add(rank, e.tt.Int(1)):
					g.counter = rank
				case rank == e.tt.Add(s.loop.idx, e.tt.Int(1)):
					g.counter = rank
				default:
					return nil, nil, "the ranks do not count 1, 2, … but are " + rank.String()
				}
			default:
				return nil, nil, "rank data is not recorded by player"
			}
		}
		switch {
		case puts == none && puts > 0 && rest == nil && e.pathOf(s.loop.seq) == "p1.State.PlayerStates":
			if rest = g; first && !g.guarded {
				return nil, nil, "players of the hand may lose their ranks"
			}
		case none == 0 && hand == nil && g.counter != nil && !g.guarded && !s.loop.reverse:
			hand = g
			if why := c.handOrder(r, o, l, at, s.loop.seq); why != "" {
				return nil, nil, why
			}
		default:
			return nil, nil, "the passes that determine the ranks are not understood"
		}
		m = s.init
	}
	if hand == nil || rest == nil {
		return nil, nil, "not everybody at the table gets rank data"
	}
	return
}

// handOrder: the list holds everybody in the hand, most chips first, then who
// joined first.
func (c *Ctx) handOrder(r *Run, o *Outcome, l []Ev, at int, list *Term) string {
	e := r.e
	from := func(t *Term) bool { return e.pathOf(t) == "p1.State.GamePlayerIndexes" }
	if ok, why := e.picksFrom(list, from, func(p passCase) int { return 1 }); !ok {
		return "not everybody in the hand is ranked: " + why
	}
	if _, st := e.selectionTo(list, from); len(st) > 0 {
		for _, cs := range st {
			for _, p := range cs {
				if from(p.li.seq) && p.took == 1 && !e.tableSeatOf(p) {
					return "another player than the one in the hand is ranked: " + p.val.String()
				}
			}
		}
	}
	s := lastSort(l, at, list)
	if s == nil {
		return "the players of the hand are ranked in no order"
	}
	join := func(o *Outcome, x *Term) *Term { return r.joinOf(o, s, x) }
	chips := e.fieldKey(s.cmpElem(), "Bankroll", true)
	if why := e.ordered(s.cmp, nil, chips); why != "" {
		return "the players of the hand are not ranked by chips: " + why
	}
	known := 0
	if why := e.ordered(s.cmp, func(o *Outcome, x, y *Term) bool {
		if join(o, x) == nil || join(o, y) == nil {
			return true
		}
		known++
		return false
	}, chips, orderKey{join, false}); why != "" || known == 0 {
		return "the players of the hand are not ranked by chips and then by when they joined: " + why
	}
	return ""
}

// tableSeatOf: what is listed is the player of the table the index stands for.
func (e *Engine) tableSeatOf(p selCase) bool {
	if p.val == nil || p.val.typ == nil {
		return false
	}
	if isIntType(p.val.typ) {
		return p.q.same(p.val, p.x)
	}
	var h *Term
	for _, n := range []string{"PlayerID", "Bankroll"} {
		g := holder(uncopied(e.partOf(p.ct.st, p.val, p.val.typ, n)))
		if g == nil || h != nil && g != h {
			return false
		}
		h = g
	}
	return e.pathOf(h) == "p1.State.PlayerStates[]" && h.op == OInit && h.args[0].op == OIndex && p.q.same(h.args[0].args[1], p.x)
}

func ruleC51(c *Ctx) {
	cfg := siteCfg([]string{"CompetitionState.Status"}, "store:CompetitionPlayer.TableRank", "store:CompetitionPlayer.Rank", "store:CompetitionPlayer.Chips", "callback:OnCompetitionPlayerUpdated", "sort:*")
	cfg.NoAsync = true
	cfg.TrackTerm = func(e *Engine, t *Term) bool { return strings.HasPrefix(t.name, "sync.Map.LoadOrStore") }
	r := c.updateTable(cfg, "", "table_game_settled")
	if r == nil {
		return
	}
	e := r.e
	pt := c.playerType()
	bad := func(f *Effect, key, msg string, a ...any) {
		pos, where := r.fn.Pos(), r.name
		if f != nil {
			pos, where = f.pos, stackStr(f)
		}
		c.fail("tablerank:"+key, pos, where, msg, a...)
	}
	mine := func(f *Effect) bool { return f.kind == "store" }
	seen := map[*LoopInfo]bool{}
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		l := flat(o.st.log)
		var here *LoopInfo
		for i, f := range l {
			if !mine(f.Effect) {
				continue
			}
			if len(f.loops) == 0 {
				bad(f.Effect, "loop", "%s changes outside a pass over the table's players", f.name)
				continue
			}
			li := f.loops[len(f.loops)-1]
			if here != nil && here != li {
				bad(f.Effect, "again", "%s is written by a second pass", f.name)
			}
			here = li
			if seen[li] {
				continue
			}
			seen[li] = true
			c.count("obligations", 1)
			if !li.full || li.breaks > 0 || !li.mapSeq {
				bad(f.Effect, "pass", "the rank data of the table's players is not given to everybody")
				continue
			}
			hand, rest, why := c.rankData(r, o, l, i, li.seq)
			if why != "" {
				bad(f.Effect, "data", "%s", why)
				continue
			}
			for _, ct := range li.conts {
				c.count("obligations", 1)
				q := e.q(ct.st.facts)
				sts := evs(ct.log, "store:*")
				if len(sts) == 0 {
					none := false
					for _, t := range append(q.allTerms(), q.lookedFor(pPlayers+"[].PlayerID")...) {
						none = none || e.pathOf(t) == "p1.State.PlayerStates[].PlayerID" && q.absent(pPlayers, "PlayerID", t)
					}
					if !none {
						bad(f.Effect, "missed", "a player of the table may keep old chips and ranks")
					}
					continue
				}
				rec := sts[0].addr.args[0]
				for _, g := range sts {
					if g.addr.args[0] != rec {
						bad(g.Effect, "who", "several players change at once")
					}
				}
				get := func(n string) *Term { return e.at(ct.st, rec, pt, n) }
				chips, rank := get("Chips"), get("TableRank")
				if e.pathOf(chips) != "p1.State.PlayerStates[].Bankroll" {
					bad(sts[0].Effect, "chips", "the chips become %s, not the table's", chips)
					continue
				}
				who := holder(chips)
				if !q.same(get("PlayerID"), e.at(ct.st, who, who.typ, "PlayerID")) {
					bad(sts[0].Effect, "player", "the chips of another player are recorded")
				}
				if !q.same(get("Rank"), rank) {
					bad(sts[0].Effect, "rank", "Rank is %s, TableRank is %s", get("Rank"), rank)
				}
				switch {
				case e.instanceOf(hand.counter, rank):
				case q.sameInt(rank, 0) && (!rest.guarded || q.outOf(rest.s, e.at(ct.st, who, who.typ, "PlayerID"))):
				default:
					bad(sts[0].Effect, "rank-value", "the table rank becomes %s", rank)
				}
				n := 0
				lc := flat(ct.log)
				for k, g := range lc {
					if g.kind == "callback" && g.args[1] == rec && len(evIdx(lc[k:], "store:*")) == 0 {
						n++
					}
				}
				if n != 1 || len(evIdx(lc, "callback:*")) != 1 {
					bad(sts[0].Effect, "event", "the new chips and rank are announced %d times", n)
				}
			}
		}
		if here == nil && r.ended(r.st0, q) != 1 && !q.absent(pTables, "ID", r.arg(0, "ID")) && !handSeen(q) {
			bad(nil, "none", "a settled hand changes no chips and ranks on this path: %s", r.describe(o))
		}
	}
	c.need(len(seen) > 0, "the pass that records chips and table ranks")
}

// instanceOf: t is a value the counter had in some turn of its pass.
func (e *Engine) instanceOf(counter, t *Term) bool {
	if t == counter {
		return true
	}
	symOf := func(t *Term) *Term {
		if s := e.sums[t]; s != nil {
			return s.sym
		}
		return t
	}
	for k := int64(0); k < 3; k++ {
		a, b := e.tt.Sub(counter, e.tt.Int(k)), e.tt.Sub(t, e.tt.Int(k))
		if a.op == OSym && b.op == OSym {
			return symOf(a) == symOf(b)
		}
	}
	return false
}

// outOf: the id had no entry in the map before this pass put it there.
func (q *FQ) outOf(s *Summary, id *Term) bool {
	for t, v := range q.f.atoms {
		if !v && t.op == OCall && t.name == "maphas" && q.same(t.args[1], id) {
			if m := q.e.sums[t.args[0]]; m != nil && m.sym == s.sym {
				return true
			}
		}
	}
	return false
}

// holder is the object a field's value was read from.
func holder(v *Term) *Term {
	switch {
	case v.op == OInit && v.args[0].op == OField:
		return v.args[0].args[0]
	case v.op == OSel:
		return v.args[0]
	}
	return nil
}

// lookedFor: what a field of a list's elements was compared with in passes
// that found nothing.
func (q *FQ) lookedFor(path string) (l []*Term) {
	for t, v := range q.f.atoms {
		li := q.e.exhLoop[t]
		if !v || li == nil {
			continue
		}
		for _, ct := range li.conts {
			for a, v := range ct.st.facts.atoms {
				if !v && a.op == OEq {
					for i := range a.args[:2] {
						if q.e.pathOf(a.args[i]) == path {
							l = append(l, a.args[1-i])
						}
					}
				}
			}
		}
	}
	return
}
