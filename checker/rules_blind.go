package main

import (
	"strings"
)

// ---- C17: the end of the buy-in ----

// aliveAt: the facts tell whether the table at the index has fewer than n
// players with chips (1 fewer, -1 at least n, 0 not established).
func (r *Run) aliveFewer(q *FQ, n int64) int {
	e := r.e
	at0 := func(t *Term) bool {
		ok := false
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.op == OIndex && e.pathOf(t.args[0]) == pTables {
				if k, is := t.args[1].intVal(); is && k == 0 {
					ok = true
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(t)
		return ok
	}
	for _, t := range q.allTerms() {
		is := false
		if t.op == OLen && t.args[0].op == OCall && strings.Contains(t.args[0].name, "AlivePlayers") && at0(t.args[0]) {
			is = true
		} else if seq, cs, ok := e.countOf(t); ok && e.pathOf(seq) == pTables+"[].State.PlayerStates" && at0(seq) &&
			exactly(cs, func(p passCase) int { return p.q.positive(p.f(e, "Bankroll")) }) {
			is = true
		}
		if !is {
			continue
		}
		if v := q.lessT(t, e.tt.Int(n)); v != 0 {
			return v
		}
	}
	return 0
}

// allTerms lists every term the facts mention.
func (q *FQ) allTerms() []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		r = append(r, t)
		for _, a := range t.args {
			walk(a)
		}
	}
	for t := range q.f.iv {
		walk(t)
	}
	for t := range q.f.set {
		walk(t)
	}
	for t := range q.f.atoms {
		walk(t)
	}
	return r
}

func ruleC17(c *Ctx) {
	stopped, end, ko := c.k("CompetitionStateStatus_StoppedBuyIn"), c.k("CompetitionStateStatus_End"), c.k("CompetitionPlayerStatus_Knockout")
	pt := c.playerType()
	for _, mode := range []string{"ct", "cash", "mtt"} {
		r, a := c.blindRun(mode, []string{"BlindState.FinalBuyInLevelIndex", "BlindState.CurrentLevelIndex", "Status.CurrentLevelIndex", "CompetitionState.Tables", "CompetitionPlayer.IsReBuying", "CompetitionPlayer.ReBuyEndAt"},
			"store:CompetitionState.Status", "store:CompetitionPlayer.Status", "invoke:Regulator.SetStatus", "invoke:Blind.End", "invoke:TableManagerBackend.PlayersLeave", "callback:OnAdvancePlayerCountUpdated")
		if r == nil || a == nil {
			continue
		}
		e := r.e
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("stop:"+key, f.pos, stackStr(f), mode+": "+msg, x...)
			} else {
				c.fail("stop:"+key, a.pos, a.label, mode+": "+msg, x...)
			}
		}
		stops, closes := 0, 0
		seen := map[*Cont]bool{}
		for _, o := range a.outcomes {
			q := e.q(o.st.facts)
			if r.ended(a.st0, q) == 1 {
				continue
			}
			c.count("obligations", 1)
			l := flat(o.st.log)
			over := r.stopBuyIn(o.st, q)
			was := q.termIn(r.comp(a.st0, "State.Status"), stopped)
			var sts []Ev
			for _, f := range l {
				if f.kind == "store" && f.name == "CompetitionState.Status" {
					sts = append(sts, f)
				}
			}
			ss := evs(o.st.log, "invoke:Regulator.SetStatus")
			if over == -1 || was == 1 {
				for _, f := range append(sts, ss...) {
					bad(f.Effect, "early:"+f.name, "%s happens on a level change that does not end the buy-in", f.name)
				}
				continue
			}
			if len(sts) == 0 || !q.sameStr(sts[0].val, stopped) || len(sts[0].loops) > 0 {
				bad(nil, "missed", "a level change beyond the last buy-in level does not stop the buy-in: %s", r.describe(o))
				continue
			}
			if over != 1 || was != -1 || r.ended(a.st0, q) != -1 {
				bad(sts[0].Effect, "gate", "the buy-in is stopped although it may still be open, stopped already or the competition ended: %s", r.describe(o))
			}
			stops++
			if mode == "mtt" {
				if len(ss) != 1 || len(ss[0].loops) > 0 || !c.isConst(ss[0].args[0], "CompetitionStatus_AfterRegDeadline") {
					bad(sts[0].Effect, "regulator", "the regulator is told %d times instead of once that the registration is over", len(ss))
				}
			} else if len(ss) > 0 {
				bad(ss[0].Effect, "regulator-other", "the regulator is called outside MTT")
			}
			// CT: a waiting player still holding the seat leaves it
			for _, f := range evs(o.st.log, "store:CompetitionPlayer.Status") {
				if f.cont == nil || seen[f.cont] || !e.q(f.cont.st.facts).sameStr(f.val, ko) {
					continue
				}
				seen[f.cont] = true
				li := f.loops[len(f.loops)-1]
				x := f.addr.args[0]
				cq := e.q(f.cont.st.facts)
				holds := -1
				if mode == "ct" {
					holds = and3(e.eval(cq.f, e.at(li.start, x, pt, "IsReBuying")), not3(cq.eqInt(e.at(li.start, x, pt, "ReBuyEndAt"), unset)))
					holds = and3(holds, cq.positive(e.lenOf(r.comp(li.start, "State.Tables"))))
				}
				lv := evs(f.cont.log, "invoke:TableManagerBackend.PlayersLeave")
				pid := e.at(f.cont.st, x, pt, "PlayerID")
				switch {
				case len(lv) == 0:
					if holds != -1 {
						bad(f.Effect, "seat-kept", "a player knocked out while the re-buy window was open does not leave the table")
					}
				case holds != 1:
					bad(lv[0].Effect, "seat-none", "a player leaves the table who holds no seat there")
				case len(lv) != 1 || len(lv[0].loops) > 0 || !q.same(lv[0].args[0], r.table0(f.cont.st, "ID")) || !cq.listIs(f.cont.st, lv[0].list(1), pid):
					bad(lv[0].Effect, "seat", "not exactly the knocked-out player leaves the table once (%s)", sprint(lv[0].args))
				}
			}
			// closing
			n := e.lenOf(r.comp(a.st0, "State.Tables"))
			none := q.eqInt(n, 0)
			few := and3(q.eqInt(n, 1), r.aliveFewer(q, 2))
			over2 := or3(none, few)
			if mode == "cash" {
				over2 = -1
			}
			bl := evs(o.st.log, "invoke:Blind.End")
			switch {
			case len(sts) == 1:
				if over2 != -1 {
					bad(sts[0].Effect, "open", "the buy-in ended with no more than one player left, but the competition stays open: %s", r.describe(o))
				}
				if len(bl) > 0 {
					bad(bl[0].Effect, "blind", "the blind clock is ended although the competition goes on")
				}
			case over2 != 1:
				bad(sts[1].Effect, "closed", "the competition is closed when the buy-in ends although it is not over: %s", r.describe(o))
			default:
				closes++
				if len(sts) != 2 || !q.sameStr(sts[1].val, end) || len(sts[1].loops) > 0 {
					bad(sts[1].Effect, "close", "the competition is not closed with status end exactly once")
				}
			}
		}
		c.need(stops > 0 && (closes > 0 || mode == "cash"), "ends of buy-in (%s)", mode)
		c.count("ends of buy-in "+mode, stops)
		c.need(len(seen) > 0, "knockouts at the end of buy-in (%s)", mode)
	}
}
