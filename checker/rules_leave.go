package main

import "strings"

// ---- C42: quitting ----

func ruleC42(c *Ctx) {
	r := c.op(opCfg(), "PlayerQuit", nil)
	if r == nil {
		return
	}
	e := r.e
	tid, pid := r.args[0], r.args[1]
	pt := c.playerType()
	ok := func(q *FQ) bool {
		return q.mode("ct") && r.foundIdx(q, pid) != nil && len(q.found(pTables, "ID", tid)) > 0 && r.stopBuyIn(r.st0, q) == -1
	}
	c.gate(r, r.muts(), "quit:gate", "a CT whose buy-in has not stopped, a registered player and a known table", func(q *FQ, s *Site) bool { return ok(q) })
	c.reasons(r, "quit:refusal", true, map[string]reasonFn{
		"ErrCompetitionQuitRejected": func(q *FQ) bool {
			return q.notMode("ct") || q.absent(pPlayers, pp, pid) || q.absent(pTables, "ID", tid) || r.stopBuyIn(r.st0, q) == 1
		},
	})
	n := 0
	for _, o := range r.outs {
		l := flat(o.st.log)
		calls := evs(o.st.log, "invoke:TableManagerBackend.*")
		if !r.succeeded(o) && len(calls) == 0 {
			continue
		}
		q := e.q(o.st.facts)
		v := vc{c, r, o, q, "quit", "a player who quits"}
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("quit:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("quit:"+key, r.fn.Pos(), r.name, msg, x...)
			}
		}
		if len(calls) != 1 || calls[0].name != "TableManagerBackend.PlayersLeave" || len(calls[0].loops) > 0 {
			bad(nil, "leave", "a player who quits does not leave the table by one call: %s", r.describe(o))
			continue
		}
		v.eq("PlayersLeave table", calls[0].args[0], tid)
		if !e.listIs(o.st, calls[0].list(1), pid) {
			bad(calls[0].Effect, "who", "not exactly the player who quits leaves the table")
		}
		if !r.succeeded(o) {
			if o.err() != calls[0].res {
				bad(calls[0].Effect, "error", "the table's refusal is not returned: %s", r.describe(o))
			}
			for _, f := range l {
				if mutation(f.Effect) && f.Effect != calls[0].Effect {
					bad(f.Effect, "refused", "the table refused the leave but the competition changes (%s)", f.name)
				}
			}
			continue
		}
		if !q.isNil(calls[0].res) {
			bad(calls[0].Effect, "error", "quitting succeeds although the table may have refused")
		}
		n++
		i := r.foundIdx(q, pid)
		if i == nil {
			continue
		}
		p, _ := r.elem(r.st0, "State.Players", i)
		f := func(n string) *Term { return e.at(o.st, p, pt, n) }
		v.eqStr("Status", f("Status"), c.k("CompetitionPlayerStatus_ReBuyWaiting"))
		v.eqBool("IsReBuying", f("IsReBuying"), false)
		v.eqInt("ReBuyEndAt", f("ReBuyEndAt"), unset)
		v.eqInt("CurrentSeat", f("CurrentSeat"), unset)
		for _, n := range []string{"PlayerID", "Chips", "TotalRedeemChips", "ReBuyTimes", "AddonTimes", "TotalBuyInUnits", "CurrentTableID", "Rank", "KnockoutAt", "JoinAt"} {
			v.eq(n, f(n), e.at(r.st0, p, pt, n))
		}
		c.foreignWrites(r, o, p, "quit")
		v.eq("Players", r.comp(o.st, "State.Players"), r.comp(r.st0, "State.Players"))
		r.toldAfter(o, l, p, c.k("CompetitionStateEvent_KnockoutPlayers"), bad)
	}
	c.need(n > 0, "players who quit")
	c.count("accepted quit paths", n)
}

// toldAfter: the player, the competition and the event are announced, after
// the player's record is final and nobody else is announced.
func (r *Run) toldAfter(o *Outcome, l []Ev, p *Term, event string, bad func(f *Effect, key, msg string, x ...any)) {
	e := r.e
	q := e.q(o.st.facts)
	last := -1
	for i, f := range l {
		if f.kind == "store" && strings.HasPrefix(f.name, "CompetitionPlayer.") {
			last = i
		}
	}
	pl, upd, ev := 0, 0, 0
	for i, f := range l {
		if f.kind != "callback" {
			continue
		}
		switch f.name {
		case "OnCompetitionPlayerUpdated":
			if !q.same(f.args[1], p) {
				bad(f.Effect, "told", "another player is announced (%s)", f.args[1])
				continue
			}
			if i < last {
				bad(f.Effect, "told-early", "the player is announced before the record is final")
			}
			pl++
		case "OnCompetitionUpdated":
			if i > last {
				upd++
			}
		case "OnCompetitionStateUpdated":
			if q.sameStr(f.args[0], event) && i > last {
				ev++
			}
		}
	}
	if pl != 1 {
		bad(nil, "told-player", "the player is announced %d times", pl)
	}
	if ev != 1 {
		bad(nil, "told-event", "%s is announced %d times afterwards", event, ev)
	}
	_ = upd
}

// ---- C41: cashing out ----

func ruleC41(c *Ctx) {
	c.cashOutOp()
	c.cashOutHand()
}

func (c *Ctx) cashOutOp() {
	cfg := opCfg()
	cfg.NoGC = true
	r := c.op(cfg, "PlayerCashOut", nil)
	if r == nil {
		return
	}
	e := r.e
	tid, pid := r.args[0], r.args[1]
	pt := c.playerType()
	c.gate(r, r.muts(), "cash-out:gate", "a Cash competition and a registered player", func(q *FQ, s *Site) bool {
		return q.mode("cash") && r.foundIdx(q, pid) != nil
	})
	c.reasons(r, "cash-out:refusal", true, map[string]reasonFn{
		"ErrCompetitionLeaveRejected": func(q *FQ) bool { return q.notMode("cash") || q.absent(pPlayers, pp, pid) },
	})
	now, later := 0, 0
	for _, o := range r.outs {
		if !r.succeeded(o) {
			if r.envErr(o) {
				c.fail("cash-out:error", r.fn.Pos(), r.name, "a cash-out that is under way fails: %s", r.describe(o))
			}
			continue
		}
		q := e.q(o.st.facts)
		v := vc{c, r, o, q, "cash-out", "a player who cashes out"}
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("cash-out:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("cash-out:"+key, r.fn.Pos(), r.name, msg, x...)
			}
		}
		i := r.foundIdx(q, pid)
		if i == nil {
			continue
		}
		p, _ := r.elem(r.st0, "State.Players", i)
		v.eqStr("Status", e.at(o.st, p, pt, "Status"), c.k("CompetitionPlayerStatus_CashLeaving"))
		for _, n := range []string{"PlayerID", "Chips", "TotalRedeemChips", "ReBuyTimes", "AddonTimes", "TotalBuyInUnits", "CurrentTableID"} {
			v.eq(n, e.at(o.st, p, pt, n), e.at(r.st0, p, pt, n))
		}
		c.foreignWrites(r, o, p, "cash-out")
		st := r.comp(r.st0, "State.Status")
		delayed := q.termIn(st, c.k("CompetitionStateStatus_DelayedBuyIn"))
		tables := r.lenOf(r.st0, "State.Tables")
		has := -q.lessT(tables, e.tt.Int(1))
		if x := q.eqInt(tables, 0); x != 0 {
			has = -x
		}
		paused := q.termIn(r.table0(r.st0, "State.Status"), "table_pausing")
		want := or3(q.termIn(st, c.k("CompetitionStateStatus_Registering")), and3(delayed, and3(has, paused)))
		l := flat(o.st.log)
		calls := evs(o.st.log, "invoke:TableManagerBackend.*")
		out := evs(o.st.log, "callback:OnCompetitionPlayerCashOut")
		if len(calls)+len(out) == 0 {
			later++
			if want != -1 {
				bad(nil, "kept", "a player who cashes out while no hand is played does not leave at once: %s", r.describe(o))
			}
			v.eq("Players", r.comp(o.st, "State.Players"), r.comp(r.st0, "State.Players"))
			continue
		}
		now++
		if want != 1 {
			bad(nil, "early", "a player leaves at once although a hand may be played: %s", r.describe(o))
		}
		if len(calls) != 1 || calls[0].name != "TableManagerBackend.PlayersLeave" || len(calls[0].loops) > 0 {
			bad(nil, "leave", "a player who cashes out does not leave the table by one call")
		} else {
			v.eq("PlayersLeave table", calls[0].args[0], tid)
			if !e.listIs(o.st, calls[0].list(1), pid) {
				bad(calls[0].Effect, "who", "not exactly the player who cashes out leaves the table (%s)", calls[0].list(1))
			}
		}
		if len(out) > 0 && len(out[0].loops) == 1 && out[0].loops[0].seq == r.comp(r.st0, "State.Players") {
			var last *LoopInfo
			for _, f := range out {
				if len(f.loops) != 1 || last != nil && f.loops[0] != last {
					bad(f.Effect, "paid", "the player who leaves is cashed out in several passes")
				}
				last = f.loops[0]
			}
			c.payPass(r, last, nil, func(p passCase) int { return e.eqVal(p.q.f, p.f(e, "PlayerID"), pid) }, bad)
		} else if len(out) != 1 || len(out[0].loops) > 0 || !q.same(out[0].args[1], p) || !q.same(out[0].args[0], r.comp(r.st0, "ID")) {
			bad(nil, "paid", "the player who leaves is not cashed out exactly once: %s", r.describe(o))
		}
		final := r.comp(o.st, "State.Players")
		seq, cs, ok := e.filterOf(final)
		if !(ok && seq == r.comp(r.st0, "State.Players") && exactly(cs, func(p passCase) int { return -e.eqVal(p.q.f, p.f(e, "PlayerID"), pid) })) && !c.removedAt(r, o, i) {
			bad(nil, "players", "not exactly the player who cashed out is removed from the players (%s)", final)
		}
		ev := 0
		for k, f := range l {
			if f.kind == "callback" && f.name == "OnCompetitionStateUpdated" && q.sameStr(f.args[0], c.k("CompetitionStateEvent_CashOutPlayers")) && len(evIdx(l[k:], "store:CompetitionState.Players")) == 0 {
				ev++
			}
		}
		if ev != 1 {
			bad(nil, "event", "the cash-out is announced %d times after the removal", ev)
		}
	}
	c.need(now > 0 && later > 0, "players who cash out at once and later (%d, %d)", now, later)
}

// cashOutHand: after a settled hand everybody who wants to leave is cashed out.
func (c *Ctx) cashOutHand() {
	r := c.settleRun("cash", nil, "invoke:TableManagerBackend.*", "callback:OnCompetitionPlayerCashOut", "store:CompetitionState.Players", "callback:OnCompetitionStateUpdated")
	if r == nil {
		return
	}
	e := r.e
	leaving := func(p passCase) int { return p.q.termIn(p.f(e, "Status"), c.k("CompetitionPlayerStatus_CashLeaving")) }
	here := func(src *Term) bool { return e.pathOf(src) == pPlayers }
	paid, none := 0, 0
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) || !handNew(q) {
			continue
		}
		c.count("obligations", 1)
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("leavers:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("leavers:"+key, r.fn.Pos(), r.name, msg, x...)
			}
		}
		l := flat(o.st.log)
		var leave []Ev
		for _, f := range l {
			if f.kind == "invoke" && f.name == "TableManagerBackend.PlayersLeave" {
				leave = append(leave, f)
			}
		}
		if len(leave) == 0 {
			none++
			if len(evs(o.st.log, "callback:OnCompetitionPlayerCashOut", "store:CompetitionState.Players")) > 0 {
				bad(nil, "stay", "a player is cashed out without leaving the table: %s", r.describe(o))
			}
			ok := false
			for _, t := range q.allTerms() {
				if t.op == OLen && !ok {
					if yes, _ := e.picksFrom(t.args[0], here, leaving); yes {
						ok = q.eqInt(t, 0) == 1
					} else if seq, cs, y := e.keyedCount(t.args[0]); y && here(seq) && exactly(cs, leaving) {
						ok = q.eqInt(t, 0) == 1
					}
				}
			}
			if !ok && !q.allPass(r.comp(o.st, "State.Players"), func(p passCase) int { return -leaving(p) }) {
				bad(nil, "missed", "players who want to leave may stay: %s", r.describe(o))
			}
			continue
		}
		paid++
		f := leave[0]
		if len(leave) != 1 || len(f.loops) > 0 || !q.same(f.args[0], r.arg(0, "ID")) {
			bad(f.Effect, "leave", "the players who want to leave do not leave the settled table by one call")
			continue
		}
		list := f.list(1)
		if list == nil {
			list = f.args[1]
		}
		if ok, why := e.picksFrom(list, here, leaving); !ok {
			bad(f.Effect, "who", "not exactly the players who want to leave do: %s", why)
			continue
		}
		if _, cs, ok := e.selectOf(list); ok {
			for _, p := range cs {
				if p.val != nil && !p.q.same(p.val, p.f(e, "PlayerID")) {
					bad(f.Effect, "id", "the table is not told the ids of the players who leave (%s)", p.val)
				}
			}
		} else {
			bad(f.Effect, "list", "the list of leaving players is not understood (%s)", list)
		}
		loops := map[*LoopInfo]bool{}
		passes := 0
		var last *LoopInfo
		for _, g := range l {
			if g.kind != "callback" || g.name != "OnCompetitionPlayerCashOut" {
				continue
			}
			if len(g.loops) != 1 {
				bad(g.Effect, "loop", "a player is cashed out outside one pass over the leaving players")
				continue
			}
			li := g.loops[0]
			if li != last {
				passes++
				last = li
			}
			loops[li] = true
		}
		if passes != 1 {
			bad(f.Effect, "passes", "the leaving players are cashed out in %d passes", passes)
		}
		for li := range loops {
			c.payPass(r, li, list, func(p passCase) int { return e.orInMap(p, here, leaving) }, bad)
		}
		ev := 0
		for k, f := range l {
			if f.kind == "callback" && f.name == "OnCompetitionStateUpdated" && q.sameStr(f.args[0], c.k("CompetitionStateEvent_CashOutPlayers")) && len(evIdx(l[k:], "store:CompetitionState.Players")) == 0 {
				ev++
			}
		}
		if ev != 1 {
			bad(f.Effect, "event", "the cash-outs are announced %d times after the removal", ev)
		}
		final := r.comp(o.st, "State.Players")
		seq, cs, ok := e.filterOf(final)
		if !ok || !here(seq) || !exactly(cs, func(p passCase) int { return -e.orInMap(p, here, leaving) }) {
			bad(f.Effect, "players", "not exactly the players who left are removed (%s)", final)
		}
	}
	c.need(paid > 0 && none > 0, "hands with and without leaving players (%d, %d)", paid, none)
}

// payPass: the pass visits every leaving player and cashes each out once.
func (c *Ctx) payPass(r *Run, li *LoopInfo, list *Term, leaving func(p passCase) int, bad func(f *Effect, key, msg string, x ...any)) {
	e := r.e
	overIDs := li.seq == list
	if !overIDs && e.pathOf(li.seq) != pPlayers || !li.full || li.breaks > 0 {
		bad(nil, "pay-pass", "not all leaving players are cashed out (%s)", li.seq)
		return
	}
	for _, ct := range li.conts {
		x, et := e.elemOf(li, ct)
		if x == nil {
			bad(nil, "pay-elem", "the pass that cashes out is not understood")
			continue
		}
		q := e.q(ct.st.facts)
		id := x
		want := 1
		if !overIDs {
			id = e.at(ct.st, x, et, "PlayerID")
			want = leaving(passCase{li: li, ct: ct, x: x, et: et, q: q})
		}
		out := evs(ct.log, "callback:OnCompetitionPlayerCashOut")
		if len(out) == 0 && overIDs && q.keyMissing(list, id) {
			continue
		}
		switch {
		case len(out) > 1 || len(out) == 1 && want != 1 || len(out) == 0 && want != -1:
			bad(nil, "pay-each", "a leaving player is cashed out %d times", len(out))
		case len(out) == 1:
			p := out[0].args[1]
			if e.pathOf(p) != pPlayers+"[]" || !q.linked(e.at(ct.st, p, c.playerType(), "PlayerID"), id) {
				bad(out[0].Effect, "pay-who", "another player is cashed out (%s)", p)
			}
			if !q.same(out[0].args[0], r.comp(ct.st, "ID")) {
				bad(out[0].Effect, "pay-where", "the cash-out names another competition")
			}
		}
	}
}

// keyMissing: the path claims that an id of the list is not in a map that was
// filled together with the list, which cannot be.
func (q *FQ) keyMissing(list, id *Term) bool {
	e := q.e
	s := e.sums[list]
	if s == nil {
		return false
	}
	for t, v := range q.f.atoms {
		if v || t.op != OCall || t.name != "maphas" || !q.same(t.args[1], id) {
			continue
		}
		if m := e.sums[t.args[0]]; m != nil && e.keysOf(m, s, false) {
			return true
		}
	}
	return false
}

// keysOf: every element of the list is a key of the map that was filled
// together with it (and, if both, the other way round).
func (e *Engine) keysOf(m, s *Summary, both bool) bool {
	if m.loop != s.loop || both && (m.init == nil || m.init.op != OMapEmpty) {
		return false
	}
	for _, ct := range s.loop.conts {
		n, p := ct.next[s.sym], ct.next[m.sym]
		switch {
		case n == s.sym && (!both || p == m.sym):
		case n != nil && n.op == OAppend && p != nil && p.op == OMapPut && n.args[1] == p.args[1]:
		default:
			return false
		}
	}
	return true
}

// linked: the path says so through any chain of equalities.
func (q *FQ) linked(a, b *Term) bool {
	seen := map[*Term]bool{a: true}
	for todo := []*Term{a}; len(todo) > 0; {
		x := todo[0]
		todo = todo[1:]
		if x == b || q.same(x, b) {
			return true
		}
		for t, v := range q.f.atoms {
			if !v || t.op != OEq || len(t.args) != 2 {
				continue
			}
			for i, y := range t.args {
				if y == x && !seen[t.args[1-i]] {
					seen[t.args[1-i]] = true
					todo = append(todo, t.args[1-i])
				}
			}
		}
	}
	return false
}

// among is the three-valued "the id is one of the list".
func (e *Engine) among(p passCase, list, id *Term) int {
	if s := e.sums[list]; s != nil {
		for t, v := range p.q.f.atoms {
			if t.op == OCall && t.name == "maphas" && p.q.same(t.args[1], id) {
				if m := e.sums[t.args[0]]; m != nil && e.keysOf(m, s, true) {
					return tri(v)
				}
			}
		}
	}
	for t, v := range p.q.f.atoms {
		if t.op == OCall && t.name == "contains" && p.q.same(t.args[1], id) && p.q.same(t.args[0], list) {
			return tri(v)
		}
	}
	return 0
}

// orInMap: the predicate, or membership of the element's id in a map that holds
// exactly the ids of the elements that satisfy it.
func (e *Engine) orInMap(p passCase, from func(*Term) bool, pred func(p passCase) int) int {
	if v := pred(p); v != 0 {
		return v
	}
	id := p.f(e, "PlayerID")
	for t, v := range p.q.f.atoms {
		if t.op != OCall || len(t.args) != 2 || !p.q.same(t.args[1], id) {
			continue
		}
		if t.name == "maphas" && e.idMap(t.args[0], from, pred) || t.name == "contains" && e.idList(t.args[0], from, pred) {
			return tri(v)
		}
	}
	return 0
}

// idList: the list holds exactly the ids of the elements that satisfy pred.
func (e *Engine) idList(l *Term, from func(*Term) bool, pred func(p passCase) int) bool {
	if ok, _ := e.picksFrom(l, from, pred); !ok {
		return false
	}
	_, cs, ok := e.selectOf(l)
	for _, p := range cs {
		if p.val != nil && !p.q.same(p.val, p.f(e, "PlayerID")) {
			return false
		}
	}
	return ok
}

// idMap: the map holds exactly the ids of the elements that satisfy pred.
func (e *Engine) idMap(m *Term, from func(*Term) bool, pred func(p passCase) int) bool {
	s := e.sums[m]
	if s == nil {
		return false
	}
	li := s.loop
	if li.seq == nil || !li.full || li.breaks > 0 || !from(li.seq) || len(li.conts) == 0 || s.init == nil || s.init.op != OMapEmpty {
		return false
	}
	for _, ct := range li.conts {
		x, et := e.elemOf(li, ct)
		n := ct.next[s.sym]
		if x == nil || n == nil {
			return false
		}
		p := passCase{li: li, ct: ct, x: x, et: et, q: e.q(ct.st.facts)}
		switch {
		case n == s.sym:
			if pred(p) != -1 {
				return false
			}
		case n.op == OMapPut && n.args[0] == s.sym && p.q.same(n.args[1], p.f(e, "PlayerID")):
			if pred(p) != 1 {
				return false
			}
		default:
			return false
		}
	}
	return true
}
