package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// ---- C43: statistics of a hand ----

// handStat is one counter of a player and by how much a hand changes it.
type handStat struct {
	name string                          // field of the player
	flag string                          // counts one if this is set
	add  string                          // or counts this
	also func(e *Engine, p passCase) int // and if this holds
	by   []string                        // what it reads besides
}

const statsAt = "GameStatistics."

func foldRound(round string) func(e *Engine, p passCase) int {
	return func(e *Engine, p passCase) int {
		return p.q.termIn(p.f(e, statsAt+"FoldRound"), round)
	}
}

// ruleC43: the counters of the players are kept exactly.
func ruleC43(c *Ctx) {
	var l []handStat
	for _, n := range []string{"VPIP", "PFR", "ATS", "3B", "Ft3B", "CheckRaise", "CBet", "FtCB"} {
		l = append(l, handStat{name: "Total" + n + "Chances", flag: "Is" + n + "Chance"}, handStat{name: "Total" + n + "Times", flag: "Is" + n})
	}
	l = append(l, handStat{name: "TotalShowdownWinningChances", flag: "ShowdownWinningChance"}, handStat{name: "TotalShowdownWinningTimes", flag: "IsShowdownWinning"})
	for _, n := range []string{"Action", "Raise", "Call", "Check"} {
		l = append(l, handStat{name: "Total" + n + "Times", add: n + "Times"})
	}
	l = append(l, handStat{name: "TotalGameCounts"}, handStat{name: "TotalFoldTimes", flag: "IsFold"})
	for _, n := range []string{"Preflop", "Flop", "Turn", "River"} {
		round := c.kOf("pokertable", "GameRound_"+n)
		l = append(l, handStat{name: "Total" + n + "FoldTimes", flag: "IsFold", also: foldRound(round), by: []string{"FoldRound"}})
	}
	for _, s := range l {
		c.handStat(s)
	}
	c.handWins()
	// nothing else changes them
	names := append([]string{"TotalProfitTimes", "TotalWalkTimes"}, bestHand...)
	for _, s := range l {
		names = append(names, s.name)
	}
	var pats []string
	for _, n := range append(names, "BestWinningPotChips") {
		pats = append(pats, "store:CompetitionPlayer."+n)
	}
	for _, m := range allOps {
		r := c.op(siteCfg(nil, pats...), m, func(r *Run, st *State) {
			if m == "UpdateTable" {
				r.e.assume(st.facts, r.e.tt.Eq(r.arg0(st, 0, "State.Status"), r.e.tt.Str("table_game_settled"), types.Typ[types.String]), false)
			}
		})
		if r == nil {
			continue
		}
		c.count("obligations", 1)
		for _, x := range r.e.sites {
			c.fail("elsewhere:"+x.eff.name, x.eff.pos, stackStr(x.eff), "%s changes outside the settlement of a hand", x.eff.name)
		}
	}
	// they start at nothing
	r, pid := c.buyIn()
	if r == nil {
		return
	}
	n := 0
	for _, o := range r.outs {
		q := r.e.q(o.st.facts)
		if !r.succeeded(o) || q.notMode("ct", "mtt", "cash") || r.foundIdx(q, pid) != nil {
			continue
		}
		v := vc{c, r, o, q, "start", "accepted buy-in"}
		p := v.newPlayer()
		if p == nil {
			continue
		}
		n++
		for _, name := range append(names, "BestWinningPotChips") {
			switch t := r.e.at(o.st, p, c.playerType(), name); name {
			case "BestWinningCombo":
				if !emptyList(t) && q.eqInt(r.e.lenOf(t), 0) != 1 {
					v.bad(name, t, "empty")
				}
			case "BestWinningType":
				v.eqStr(name, t, "")
			default:
				v.eqInt(name, t, 0)
			}
		}
	}
	c.need(n > 0, "new players")
}

var bestHand = []string{"BestWinningPower", "BestWinningCombo", "BestWinningType"}

func (c *Ctx) handStat(s handStat) {
	track := []string{"pokertable.TablePlayerState.IsParticipated"}
	for _, n := range append([]string{s.flag}, s.by...) {
		if n != "" {
			track = append(track, "pokertable.TablePlayerGameStatistics."+n)
		}
	}
	c.handPasses(s.name, "p1.State.PlayerStates", track, []string{"store:CompetitionPlayer." + s.name}, func(r *Run, li *LoopInfo, at *Effect, bad func(f *Effect, key, msg string, a ...any)) {
		c.handPass(s, r, li, at, bad)
	})
}

// handPasses: every new hand changes these values in one full pass over the
// list, and nowhere else.
func (c *Ctx) handPasses(name, over string, track, pats []string, each func(r *Run, li *LoopInfo, at *Effect, bad func(f *Effect, key, msg string, a ...any))) {
	cfg := siteCfg(append(track, "CompetitionState.Status"), pats...)
	cfg.NoAsync = true
	cfg.TrackTerm = func(e *Engine, t *Term) bool { return strings.HasPrefix(t.name, "sync.Map.LoadOrStore") }
	r := c.updateTable(cfg, "", "table_game_settled")
	if r == nil {
		return
	}
	e := r.e
	bad := func(f *Effect, key, msg string, a ...any) {
		pos, where := r.fn.Pos(), r.name
		if f != nil {
			pos, where = f.pos, stackStr(f)
		}
		c.fail(name+":"+key, pos, where, name+": "+msg, a...)
	}
	passes := map[*LoopInfo]*Effect{}
	var order []*LoopInfo
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		var here *LoopInfo
		for _, f := range flat(o.st.log) {
			if f.kind == "store" && len(f.loops) == 0 {
				bad(f.Effect, "loop", "changed outside a pass over the table's players")
			}
			if f.kind != "store" || len(f.loops) == 0 {
				continue
			}
			li := f.loops[len(f.loops)-1]
			if here != nil && here != li {
				bad(f.Effect, "again", "changed by a second pass")
			}
			if here = li; passes[li] == nil {
				passes[li] = f.Effect
				order = append(order, li)
			}
		}
		if here == nil && r.ended(r.st0, q) != 1 && !q.absent(pTables, "ID", r.arg(0, "ID")) && !handSeen(q) {
			bad(nil, "none", "a settled hand is not counted on this path: %s", r.describe(o))
		}
	}
	c.need(len(order) > 0, "the pass that keeps %s", name)
	for _, li := range order {
		if !li.full || li.breaks > 0 || e.pathOf(li.seq) != over {
			bad(passes[li], "pass", "not everyone is considered (%s)", li.seq)
			continue
		}
		c.count("passes", 1)
		each(r, li, passes[li], bad)
	}
}

func (c *Ctx) handPass(s handStat, r *Run, here *LoopInfo, at *Effect, bad func(f *Effect, key, msg string, a ...any)) {
	e := r.e
	pt := c.playerType()
	for _, ct := range here.conts {
		c.count("obligations", 1)
		x, et := e.elemOf(here, ct)
		q := e.q(ct.st.facts)
		p := passCase{li: here, ct: ct, x: x, et: et, q: q}
		rec, none := r.rec(q, ct.st, p.f(e, "PlayerID"))
		cond := e.eval(q.f, p.f(e, "IsParticipated"))
		if s.flag != "" {
			cond = and3(cond, e.eval(q.f, p.f(e, statsAt+s.flag)))
		}
		if s.also != nil {
			cond = and3(cond, s.also(e, p))
		}
		for _, f := range evs(ct.log, "store:*") {
			if rec == nil || f.addr.args[0] != rec {
				bad(f.Effect, "who", "the count of another player changes")
			}
		}
		if rec == nil {
			if !none && cond != -1 {
				bad(at, "missed", "a player who took part may not be counted")
			}
			continue
		}
		by := e.tt.Sub(e.at(ct.st, rec, pt, s.name), e.at(here.start, rec, pt, s.name))
		switch want := e.tt.Int(1); {
		case cond == -1:
			if !q.sameInt(by, 0) {
				bad(at, "wrong", "changes by %s although there is nothing to count", by)
			}
		default:
			if s.add != "" {
				want = p.f(e, statsAt+s.add)
			}
			if cond == 0 || !q.same(by, want) {
				bad(at, "by", "changes by %s instead of %s (%d)", by, want, cond)
			}
		}
	}
}

// kOf is a text constant of a package the competition uses.
func (c *Ctx) kOf(pkg, name string) string {
	for _, p := range c.w.root.Imports() {
		if p.Name() != pkg {
			continue
		}
		if o, ok := p.Scope().Lookup(name).(*types.Const); ok && o.Val().Kind() == constant.String {
			return constant.StringVal(o.Val())
		}
	}
	c.need(false, "constant %s.%s", pkg, name)
	return "?" + name
}

// ---- the winners of a hand ----

var winTrack = []string{"settlement.PlayerResult.Changed"}

// handWins: what the hand's winners gain.
func (c *Ctx) handWins() {
	type val func(n string) (old, now *Term)
	const result = "p1.State.GameState.Result.Players"
	win := func(names, track []string, check func(r *Run, w passCase, tp *Term, tpt types.Type, v val) string) {
		all := append(append([]string{}, winTrack...), track...)
		var pats []string
		for _, n := range names {
			pats = append(pats, "store:CompetitionPlayer."+n)
		}
		c.handPasses(names[0], result, all, pats, func(r *Run, li *LoopInfo, at *Effect, bad func(f *Effect, key, msg string, a ...any)) {
			e := r.e
			for _, ct := range li.conts {
				c.count("obligations", 1)
				x, et := e.elemOf(li, ct)
				q := e.q(ct.st.facts)
				p := passCase{li: li, ct: ct, x: x, et: et, q: q}
				idxs, players := r.arg0(ct.st, 0, "State.GamePlayerIndexes"), r.arg0(ct.st, 0, "State.PlayerStates")
				gi := e.load(ct.st, e.indexAddr(idxs, p.f(e, "Idx"), types.Typ[types.Int]), types.Typ[types.Int])
				tpt := elemType(players)
				tp := e.load(ct.st, e.indexAddr(players, gi, tpt), tpt)
				rec, none := r.rec(q, ct.st, e.at(ct.st, tp, tpt, "PlayerID"))
				cond := q.positive(p.f(e, "Changed"))
				stores := evs(ct.log, "store:*")
				for _, f := range stores {
					if rec == nil || f.addr.args[0] != rec {
						bad(f.Effect, "who", "the record of someone else than the winner changes")
					}
				}
				if cond == -1 || rec == nil {
					if len(stores) > 0 {
						bad(stores[0].Effect, "wrong", "the record of a player who won nothing changes")
					} else if cond != -1 && !none {
						bad(at, "missed", "a winner may not be recorded")
					}
					continue
				}
				why := check(r, p, tp, tpt, func(n string) (*Term, *Term) {
					return e.at(li.start, rec, c.playerType(), n), e.at(ct.st, rec, c.playerType(), n)
				})
				if cond == 0 {
					why = "it is not known whether the player won"
				}
				if why != "" {
					bad(at, "value", "%s", why)
				}
			}
		})
	}
	win([]string{"TotalProfitTimes"}, nil, func(r *Run, p passCase, tp *Term, tpt types.Type, v val) string {
		if old, now := v("TotalProfitTimes"); !p.q.sameInt(r.e.tt.Sub(now, old), 1) {
			return "a win is not counted once but " + r.e.tt.Sub(now, old).String()
		}
		return ""
	})
	win([]string{"BestWinningPotChips"}, []string{"CompetitionPlayer.BestWinningPotChips"}, func(r *Run, p passCase, tp *Term, tpt types.Type, v val) string {
		old, now := v("BestWinningPotChips")
		won := p.f(r.e, "Changed")
		if p.q.same(now, won) && p.q.upTo(old, won) || p.q.same(now, old) && p.q.upTo(won, old) {
			return ""
		}
		return "the best win becomes " + now.String() + ", which is not the larger of the best so far and what was won"
	})
	best := bestHand
	win(best, []string{"CompetitionPlayer.BestWinningPower"}, func(r *Run, p passCase, tp *Term, tpt types.Type, v val) string {
		e := r.e
		kept, same := 0, 0
		var le, ge bool
		for i, n := range best {
			old, now := v(n)
			if now == old {
				kept++
			}
			path := "Combination." + []string{"Power", "Cards", "Type"}[i]
			for _, h := range r.handPlayers(p) {
				w := e.at(p.ct.st, h, h.typ, path)
				if i == 0 {
					le, ge = le || p.q.upTo(old, w), ge || p.q.upTo(w, old)
				}
				if now == w || p.q.same(uncopied(now), uncopied(w)) {
					same++
					break
				}
			}
		}
		if kept == 3 && ge || same == 3 && le {
			return ""
		}
		return "the best hand does not become the winner's, completely, exactly if that is better"
	})
	win([]string{"TotalWalkTimes"}, []string{"pokertable.TableState.CurrentBBSeat", "pokertable.TablePlayerGameStatistics.ActionTimes", "pokertable.TableState.GamePlayerIndexes",
		"pokertable.TablePlayerState.IsParticipated", "pokertable.TablePlayerGameStatistics.IsFold", "pokertable.TablePlayerGameStatistics.FoldRound"}, func(r *Run, p passCase, tp *Term, tpt types.Type, v val) string {
		e, q := r.e, p.q
		old, now := v("TotalWalkTimes")
		by := e.tt.Sub(now, old)
		seat := r.arg0(p.ct.st, 0, "State.CurrentBBSeat")
		bb := e.eval(q.f, e.tt.Eq(seat, e.at(p.ct.st, tp, tpt, "Seat"), types.Typ[types.Int]))
		idle := q.eqInt(e.at(p.ct.st, tp, tpt, statsAt+"ActionTimes"), 0)
		others := e.tt.Sub(e.lenOf(r.arg0(p.ct.st, 0, "State.GamePlayerIndexes")), e.tt.Int(1))
		folded := 0
		for _, t := range q.summaries() {
			if !r.preflopFolds(t) {
				continue
			}
			if k := e.eval(q.f, e.tt.Eq(t, others, types.Typ[types.Int])); k != 0 {
				folded = k
			}
		}
		switch walk := and3(bb, and3(idle, folded)); {
		case q.sameInt(by, 1) && walk == 1, q.sameInt(by, 0) && walk == -1:
			return ""
		default:
			return "a walk changes the count by " + by.String() + " (" + itoa(bb) + itoa(idle) + itoa(folded) + ")"
		}
	})
}

// preflopFolds: t counts the participants who folded before the flop.
func (r *Run) preflopFolds(t *Term) bool {
	e := r.e
	seq, cs, ok := e.countOf(t)
	round := foldRound(r.c.kOf("pokertable", "GameRound_Preflop"))
	is := func(p passCase) int {
		return and3(e.eval(p.q.f, p.f(e, "IsParticipated")), and3(e.eval(p.q.f, p.f(e, statsAt+"IsFold")), round(e, p)))
	}
	return ok && e.pathOf(seq) == "p1.State.PlayerStates" && (exactly(cs, is) || exactly(cs, func(p passCase) int {
		rec, none := r.rec(p.q, p.ct.st, p.f(e, "PlayerID"))
		known := 0
		if none {
			known = -1
		} else if rec != nil {
			known = 1
		}
		return and3(known, is(p))
	}))
}

// handPlayers: the terms for the winner's state in the hand.
func (r *Run) handPlayers(p passCase) (l []*Term) {
	e := r.e
	idx := p.f(e, "Idx")
	seen := map[*Term]bool{}
	for _, t := range p.q.allTerms() {
		if !seen[t] && strings.HasPrefix(t.name, "pokerface.GameState.GetPlayer#0") && len(t.args) == 2 && p.q.same(t.args[1], idx) && e.pathOf(t.args[0]) == "p1.State.GameState" {
			seen[t] = true
			l = append(l, t)
		}
	}
	if ps := r.arg0(p.ct.st, 0, "State.GameState.Players"); ps != nil {
		l = append(l, e.load(p.ct.st, e.indexAddr(ps, idx, elemType(ps)), elemType(ps)))
	}
	return
}

func uncopied(t *Term) *Term {
	for t.op == OClone {
		t = t.args[0]
	}
	return t
}

func elemType(list *Term) types.Type { return list.typ.Underlying().(*types.Slice).Elem() }

func (q *FQ) upTo(a, b *Term) bool { return q.lessT(b, a) == -1 }
