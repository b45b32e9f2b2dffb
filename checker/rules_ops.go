package main

import (
	"go/types"
	"strings"
)

// ---- buy-in and re-buy ----

const pp = "PlayerID"

func (r *Run) foundIdx(q *FQ, key *Term) *Term {
	if q.absent(pPlayers, pp, key) {
		return nil
	}
	init := r.comp(r.st0, "State.Players")
	for _, i := range q.foundIn(init, pp, key) {
		return i
	}
	return nil
}

func (c *Ctx) buyIn() (*Run, *Term) {
	cfg := opCfg()
	cfg.NoAsync = true
	r := c.op(cfg, "PlayerBuyIn", nil)
	if r == nil {
		return nil, nil
	}
	return r, r.arg(0, "PlayerID")
}

func statusOpen(q *FQ) bool {
	return q.is("C.State.Status", nil, "registering", "delayed_buy_in")
}
func statusClosed(q *FQ) bool {
	return q.isnt("C.State.Status", nil, "registering", "delayed_buy_in")
}

func ruleC01(c *Ctx) {
	r, pid := c.buyIn()
	if r == nil {
		return
	}
	c.gate(r, r.muts(), "gate", "a positive amount of chips and an open registration (registering or delayed buy-in)", func(q *FQ, s *Site) bool {
		return q.ge("p1.RedeemChips", nil, 1) && statusOpen(q)
	})
	c.reasons(r, "refusal", false, map[string]reasonFn{
		"ErrCompetitionNoRedeemChips": func(q *FQ) bool { return q.le("p1.RedeemChips", nil, 0) },
		"ErrCompetitionBuyInRejected": func(q *FQ) bool {
			return q.absent(pPlayers, pp, pid) && (statusClosed(q) || q.mode("ct") && c.ctFull(r, q))
		},
		"ErrCompetitionReBuyRejected":    func(q *FQ) bool { return r.foundIdx(q, pid) != nil },
		"ErrCompetitionExceedReBuyLimit": func(q *FQ) bool { return r.foundIdx(q, pid) != nil },
		"ErrCompetitionTableNotFound":    func(q *FQ) bool { return q.mode("ct") && q.absent(pPlayers, pp, pid) },
	})
}

func (c *Ctx) ctFull(r *Run, q *FQ) bool {
	sum := r.e.tt.Add(r.comp(r.st0, "State.Statistic.PlayingPlayerCount"), r.comp(r.st0, "State.Statistic.ReBuyWaitingPlayerCount"))
	return q.geT(sum, r.table0(r.st0, "Meta.TableMaxSeatCount"))
}

func (c *Ctx) ctRoom(r *Run, q *FQ) bool {
	sum := r.e.tt.Add(r.comp(r.st0, "State.Statistic.PlayingPlayerCount"), r.comp(r.st0, "State.Statistic.ReBuyWaitingPlayerCount"))
	return q.lt(sum, r.table0(r.st0, "Meta.TableMaxSeatCount"))
}

func (r *Run) table0(st *State, path string) *Term {
	t, ty := r.elem(st, "State.Tables", r.e.tt.Int(0))
	return r.e.at(st, t, ty, path)
}

func ruleC02(c *Ctx) {
	r, pid := c.buyIn()
	if r == nil {
		return
	}
	rebuys := 0
	c.gate(r, r.muts(), "gate", "the returning player waiting for a re-buy without chips and below the re-buy limit", func(q *FQ, s *Site) bool {
		i := r.foundIdx(q, pid)
		if i == nil {
			return q.absent(pPlayers, pp, pid)
		}
		rebuys++
		if q.notMode("ct", "mtt") {
			return true
		}
		return q.is(pPlayers+"[].Status", i, "re_buy_waiting") &&
			q.holds(r.e.tt.Not(r.e.tt.Less(r.e.tt.Int(0), r.pf(r.st0, i, "Chips"), types.Typ[types.Int64]))) &&
			q.lt(r.pf(r.st0, i, "ReBuyTimes"), r.comp(r.st0, "Meta.ReBuySetting.MaxTime"))
	})
	c.need(rebuys > 0, "re-buy effects of PlayerBuyIn")
	c.count("re-buy sites", rebuys)
	c.reasons(r, "refusal", false, map[string]reasonFn{
		"ErrCompetitionNoRedeemChips": func(q *FQ) bool { return true },
		"ErrCompetitionBuyInRejected": func(q *FQ) bool { return q.absent(pPlayers, pp, pid) },
		"ErrCompetitionTableNotFound": func(q *FQ) bool { return q.absent(pPlayers, pp, pid) },
		"ErrCompetitionReBuyRejected": func(q *FQ) bool {
			i := r.foundIdx(q, pid)
			if i == nil {
				return false
			}
			return statusClosed(q) || q.mode("ct", "mtt") &&
				(q.isnt(pPlayers+"[].Status", i, "re_buy_waiting") || q.lt(r.e.tt.Int(0), r.pf(r.st0, i, "Chips")))
		},
		"ErrCompetitionExceedReBuyLimit": func(q *FQ) bool {
			i := r.foundIdx(q, pid)
			return i != nil && q.mode("ct", "mtt") && q.geT(r.pf(r.st0, i, "ReBuyTimes"), r.comp(r.st0, "Meta.ReBuySetting.MaxTime"))
		},
	})
}

func ruleC03(c *Ctx) {
	r, pid := c.buyIn()
	if r == nil {
		return
	}
	n := 0
	c.gate(r, r.muts(), "gate", "a CT table with a free place (playing + waiting for re-buy below the table's seats)", func(q *FQ, s *Site) bool {
		if r.foundIdx(q, pid) != nil || q.notMode("ct") {
			return true
		}
		n++
		return q.ge("len("+pTables+")", nil, 1) && c.ctRoom(r, q)
	})
	c.need(n > 0, "CT buy-in effects")
	c.count("CT buy-in sites", n)
	c.reasons(r, "refusal", false, map[string]reasonFn{
		"ErrCompetitionNoRedeemChips":    func(q *FQ) bool { return true },
		"ErrCompetitionReBuyRejected":    func(q *FQ) bool { return true },
		"ErrCompetitionExceedReBuyLimit": func(q *FQ) bool { return true },
		"ErrCompetitionBuyInRejected": func(q *FQ) bool {
			return q.absent(pPlayers, pp, pid) && (statusClosed(q) || q.mode("ct") && c.ctFull(r, q))
		},
		"ErrCompetitionTableNotFound": func(q *FQ) bool {
			return q.absent(pPlayers, pp, pid) && q.mode("ct") && q.le("len("+pTables+")", nil, 0)
		},
	})
}

// ---- value checks on final states ----

type vc struct {
	c   *Ctx
	r   *Run
	o   *Outcome
	q   *FQ
	key string
	d   string
}

func (v vc) bad(what string, got *Term, want string) {
	v.c.fail(v.key+":"+what, v.r.fn.Pos(), v.r.name, "%s: %s ends up as %s, expected %s (%s)", v.d, what, got, want, v.r.describe(v.o))
}
func (v vc) eq(what string, got, want *Term) {
	v.c.count("obligations", 1)
	if !v.q.same(got, want) {
		v.bad(what, got, want.String())
	}
}
func (v vc) eqInt(what string, got *Term, k int64) { v.eq(what, got, v.r.e.tt.Int(k)) }
func (v vc) eqStr(what string, got *Term, s string) {
	v.c.count("obligations", 1)
	if !v.q.sameStr(got, s) {
		v.bad(what, got, "\""+s+"\"")
	}
}
func (v vc) eqBool(what string, got *Term, b bool) {
	v.c.count("obligations", 1)
	if !v.q.sameBool(got, b) {
		if b {
			v.bad(what, got, "true")
		} else {
			v.bad(what, got, "false")
		}
	}
}
func (v vc) plus(what string, old, got, d *Term) { v.eq(what, got, v.r.e.tt.Add(old, d)) }

// newPlayer returns the record appended to the player list.
func (v vc) newPlayer() *Term {
	l := v.r.comp(v.o.st, "State.Players")
	old := v.r.comp(v.r.st0, "State.Players")
	base, el := v.r.e.listElems(v.o.st, l)
	if base != old || len(el) != 1 || el[0].op == OSpread {
		v.c.fail(v.key+":Players", v.r.fn.Pos(), v.r.name, "%s: the player list is not the old list plus one new record: %s", v.d, l)
		return nil
	}
	return el[0]
}

func (c *Ctx) tableIDFor(r *Run, q *FQ, v vc, what string, got *Term) {
	if q.mode("ct", "cash") {
		if q.ge("len("+pTables+")", nil, 1) {
			v.eq(what, got, r.table0(r.st0, "ID"))
		} else if q.le("len("+pTables+")", nil, 0) {
			v.eqStr(what, got, "")
		} else {
			v.bad(what, got, "the first table's id, chosen by whether there is a table")
		}
	} else {
		v.eqStr(what, got, "")
	}
}

func ruleC04(c *Ctx) {
	r, pid := c.buyIn()
	if r == nil {
		return
	}
	e := r.e
	chips, unit := r.arg(0, "RedeemChips"), r.arg(0, "Unit")
	pt := c.playerType()
	nb, nr := 0, 0
	for _, o := range r.outs {
		if !r.succeeded(o) {
			continue
		}
		q := e.q(o.st.facts)
		if q.notMode("ct", "mtt", "cash") {
			continue
		}
		v := vc{c, r, o, q, "buy-in", "accepted buy-in"}
		i := r.foundIdx(q, pid)
		var p *Term
		if i == nil {
			if p = v.newPlayer(); p == nil {
				continue
			}
			nb++
			f := func(n string) *Term { return e.at(o.st, p, pt, n) }
			v.eq("PlayerID", f("PlayerID"), pid)
			v.eq("Chips", f("Chips"), chips)
			v.eq("TotalRedeemChips", f("TotalRedeemChips"), chips)
			v.eqInt("ReBuyTimes", f("ReBuyTimes"), 0)
			v.eqInt("AddonTimes", f("AddonTimes"), 0)
			v.eq("TotalBuyInUnits", f("TotalBuyInUnits"), unit)
			v.eqInt("CurrentSeat", f("CurrentSeat"), unset)
			v.eqBool("IsReBuying", f("IsReBuying"), false)
			v.eqInt("ReBuyEndAt", f("ReBuyEndAt"), unset)
			v.eqInt("KnockoutAt", f("KnockoutAt"), unset)
			c.tableIDFor(r, q, v, "CurrentTableID", f("CurrentTableID"))
			if !isNow(f("JoinAt")) {
				v.bad("JoinAt", f("JoinAt"), "the current time")
			}
		} else {
			v.key, v.d = "re-buy", "accepted re-buy"
			nr++
			p, _ = r.elem(r.st0, "State.Players", i)
			f := func(n string) *Term { return e.at(o.st, p, pt, n) }
			g := func(n string) *Term { return e.at(r.st0, p, pt, n) }
			v.eq("Chips", f("Chips"), chips)
			v.plus("TotalRedeemChips", g("TotalRedeemChips"), f("TotalRedeemChips"), chips)
			v.plus("ReBuyTimes", g("ReBuyTimes"), f("ReBuyTimes"), e.tt.Int(1))
			v.eqBool("IsReBuying", f("IsReBuying"), false)
			v.eqInt("ReBuyEndAt", f("ReBuyEndAt"), unset)
			v.eqInt("ReBuyWaitingAt", f("ReBuyWaitingAt"), unset)
			for _, n := range []string{"PlayerID", "AddonTimes", "JoinAt"} {
				v.eq(n, f(n), g(n))
			}
			if q.mode("cash") {
				v.eq("TotalBuyInUnits", f("TotalBuyInUnits"), g("TotalBuyInUnits"))
			} else {
				v.plus("TotalBuyInUnits", g("TotalBuyInUnits"), f("TotalBuyInUnits"), unit)
			}
			v.eq("Players", r.comp(o.st, "State.Players"), r.comp(r.st0, "State.Players"))
			if q.mode("mtt") {
				v.eqStr("CurrentTableID", f("CurrentTableID"), "")
				v.eqInt("CurrentSeat", f("CurrentSeat"), unset)
			} else if q.ge("len("+pTables+")", nil, 1) {
				v.eq("CurrentTableID", f("CurrentTableID"), r.table0(r.st0, "ID"))
			}
		}
		st := e.at(o.st, p, pt, "Status")
		if q.mode("mtt") {
			v.eqStr("Status", st, "waiting_table_balancing")
		} else if q.mode("ct", "cash") {
			v.eqStr("Status", st, "playing")
		} else {
			v.bad("Status", st, "a status chosen by the mode")
		}
		tot0, tot := r.comp(r.st0, "State.Statistic.TotalBuyInCount"), r.comp(o.st, "State.Statistic.TotalBuyInCount")
		if q.mode("cash") {
			v.eq("TotalBuyInCount", tot, tot0)
		} else if q.mode("ct", "mtt") {
			v.plus("TotalBuyInCount", tot0, tot, unit)
		} else {
			v.bad("TotalBuyInCount", tot, "a total chosen by the mode")
		}
		v.eq("TotalAddonCount", r.comp(o.st, "State.Statistic.TotalAddonCount"), r.comp(r.st0, "State.Statistic.TotalAddonCount"))
		c.foreignWrites(r, o, p, "buy-in")
	}
	c.need(nb > 0 && nr > 0, "accepted buy-ins and re-buys")
	c.count("accepted buy-in paths", nb)
	c.count("accepted re-buy paths", nr)
}

func isNow(t *Term) bool {
	return t != nil && t.op == OSym && t.name == "now"
}

var moneyFields = map[string]bool{"Chips": true, "TotalRedeemChips": true, "ReBuyTimes": true, "AddonTimes": true, "TotalBuyInUnits": true, "Status": true, "PlayerID": true, "IsReBuying": true, "CurrentTableID": true, "CurrentSeat": true}

// foreignWrites: no other player's money, status or seat is written.
func (c *Ctx) foreignWrites(r *Run, o *Outcome, p *Term, key string) {
	for _, f := range evs(o.st.log, "store:CompetitionPlayer.*") {
		n := f.name[len("CompetitionPlayer."):]
		if !moneyFields[n] || f.addr == nil || f.addr.op != OField || f.addr.args[0] == p {
			continue
		}
		c.fail(key+":other-player:"+n, f.pos, r.name, "writes %s of a record other than the operation's player (%s)", n, f.addr)
	}
}

// ---- hand-over of chips to the table layer ----

func (c *Ctx) jpIs(v vc, what string, jp *Term, pid, chips *Term) {
	jt := jp.typ
	f := func(n string) *Term { return v.r.e.at(v.o.st, jp, jt, n) }
	v.eq(what+".PlayerID", f("PlayerID"), pid)
	v.eq(what+".RedeemChips", f("RedeemChips"), chips)
	v.eqInt(what+".Seat", f("Seat"), unset)
}

// waitField is the engine's queue of player ids that wait for the regulator.
func (c *Ctx) waitField() *types.Var {
	return fieldByType(c.engineType(), func(t types.Type) bool { return t.String() == "[]string" })
}

// startedFlags finds the engine's flags by what sets them: "competition
// started" is the flag StartCompetition raises, "regulator running" the one
// raised together with Regulator.SetStatus(Normal).
func (c *Ctx) boolsSetWith(method string, pats ...string) []string {
	cfg := opCfg()
	cfg.NoAsync = true
	r := c.op(cfg, method, nil)
	if r == nil {
		return nil
	}
	var out []string
	for _, o := range r.outs {
		if !r.succeeded(o) || len(pats) > 0 && len(evs(o.st.log, pats...)) == 0 {
			continue
		}
		for _, f := range evs(o.st.log, "store:"+c.engineType().Obj().Name()+".*") {
			if b, ok := f.val.boolVal(); ok && b && isBoolType(f.addr.fv.Type()) {
				out = append(out, f.addr.fv.Name())
			}
		}
	}
	return uniq(out)
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

func ruleC05(c *Ctx) {
	r, pid := c.buyIn()
	if r == nil {
		return
	}
	e := r.e
	chips := r.arg(0, "RedeemChips")
	wf := c.waitField()
	if !c.need(wf != nil, "the engine's queue of waiting players") {
		return
	}
	n := map[string]int{}
	for _, o := range r.outs {
		if !r.succeeded(o) {
			continue
		}
		q := e.q(o.st.facts)
		v := vc{c, r, o, q, "hand-over", "accepted buy-in"}
		res := evs(o.st.log, "invoke:TableManagerBackend.PlayerReserve")
		add := evs(o.st.log, "invoke:Regulator.AddPlayers")
		for _, f := range evs(o.st.log, "invoke:TableManagerBackend.PlayerRedeemChips", "invoke:TableManagerBackend.PlayerJoin", "invoke:TableManagerBackend.UpdateTablePlayers") {
			c.fail("hand-over:"+f.name, f.pos, r.name, "the buy-in also calls %s", f.name)
		}
		switch {
		case q.mode("ct", "cash"):
			n["reserve"]++
			c.count("obligations", 1)
			if len(res) != 1 || len(res[0].loops) > 0 {
				c.fail("hand-over:reserve-count", r.fn.Pos(), r.name, "an accepted CT/Cash buy-in reserves %d seats instead of one: %s", len(res), r.describe(o))
				continue
			}
			c.tableIDFor(r, q, v, "PlayerReserve table", res[0].args[0])
			c.jpIs(v, "PlayerReserve", res[0].args[1], pid, chips)
			if len(add) > 0 {
				c.fail("hand-over:regulator", add[0].pos, r.name, "a CT/Cash buy-in reaches the regulator")
			}
		case q.mode("mtt"):
			c.count("obligations", 1)
			if len(res) > 0 {
				c.fail("hand-over:mtt-reserve", res[0].pos, r.name, "an MTT buy-in reserves a seat directly")
			}
			times := 0
			for _, f := range add {
				if len(f.loops) > 0 {
					times += 2
				}
				if e.listHas(o.st, f.list(0), pid) {
					times++
				}
			}
			w := e.load(o.st, e.tt.Field(r.recv, wf), wf.Type())
			if e.listHas(o.st, w, pid) {
				times++
				n["queue"]++
			} else {
				n["regulator"]++
			}
			if times != 1 {
				c.fail("hand-over:mtt-count", r.fn.Pos(), r.name, "an accepted MTT buy-in is handed over %d times instead of once (to the regulator or to the waiting queue): %s", times, r.describe(o))
			}
		case q.notMode("ct", "cash", "mtt"):
		default:
			c.fail("hand-over:mode", r.fn.Pos(), r.name, "an accepted buy-in does not depend on the mode: %s", r.describe(o))
		}
	}
	c.need(n["reserve"] > 0 && n["queue"] > 0 && n["regulator"] > 0, "buy-in hand-overs (%v)", n)
	for k, x := range n {
		c.count("hand-over "+k, x)
	}
	// the running flag decides between queue and regulator
	flags := c.runningFlag(r)
	if !c.need(len(flags) == 1, "the flag that tells the regulator runs (%v)", flags) {
		return
	}
	ff := c.w.structField(c.engineType(), flags[0])
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		if !r.succeeded(o) || !q.mode("mtt") {
			continue
		}
		on := e.load(r.st0, e.tt.Field(r.recv, ff), ff.Type())
		w := e.load(o.st, e.tt.Field(r.recv, wf), wf.Type())
		c.count("obligations", 1)
		switch {
		case q.holds(on):
			if e.listHas(o.st, w, pid) {
				c.fail("hand-over:queued-while-running", r.fn.Pos(), r.name, "the regulator is running but the player is only queued: %s", r.describe(o))
			}
		case q.fails(on):
			for _, f := range evs(o.st.log, "invoke:Regulator.AddPlayers") {
				if !q.holds(e.load(o.st, e.tt.Field(r.recv, ff), ff.Type())) {
					c.fail("hand-over:early", f.pos, r.name, "a player reaches the regulator although it does not run")
				}
			}
		default:
			c.fail("hand-over:flag", r.fn.Pos(), r.name, "an MTT buy-in does not look at whether the regulator runs: %s", r.describe(o))
		}
	}
}

// runningFlag: the flag that is raised in runs that set the regulator to
// normal operation, and not in the others.
func (c *Ctx) runningFlag(r *Run) []string {
	set := map[string]int{}
	runs := 0
	eng := c.engineType().Obj().Name()
	for _, o := range r.outs {
		norm := false
		for _, f := range evs(o.st.log, "invoke:Regulator.SetStatus") {
			if c.isConst(f.args[0], "CompetitionStatus_Normal") {
				norm = true
			}
		}
		if norm {
			runs++
		}
		for _, f := range evs(o.st.log, "store:"+eng+".*") {
			if !isBoolType(f.addr.fv.Type()) {
				continue
			}
			if b, ok := f.val.boolVal(); ok && b {
				if norm {
					set[f.addr.fv.Name()]++
				} else {
					set[f.addr.fv.Name()] -= 1 << 20
				}
			}
		}
	}
	var l []string
	for n, k := range set {
		if k > 0 && runs > 0 {
			l = append(l, n)
		}
	}
	return l
}

// isConst compares a term with a constant of the regulator package.
func (c *Ctx) isConst(t *Term, name string) bool {
	for _, p := range c.w.root.Imports() {
		if p.Name() == "regulator" {
			if k, ok := p.Scope().Lookup(name).(*types.Const); ok && t != nil && t.op == OConst {
				return t.cv.ExactString() == k.Val().ExactString()
			}
		}
	}
	return false
}

// ---- add-on ----

func (c *Ctx) addon() (*Run, *Term) {
	r := c.op(opCfg(), "PlayerAddon", nil)
	if r == nil {
		return nil, nil
	}
	return r, r.arg(1, "PlayerID")
}

// level is the current blind level: "break", "normal" or "none" by the facts,
// and the term of its AllowAddon flag.
func (c *Ctx) level(r *Run, st *State, q *FQ, field string) *Term {
	idx := r.comp(st, "State.BlindState.CurrentLevelIndex")
	if q.lt(idx, r.e.tt.Int(0)) {
		bl := c.w.namedType(c.w.root, "BlindLevel")
		return r.e.at(st, r.e.tt.Zero(bl), bl, field)
	}
	if !q.geT(idx, r.e.tt.Int(0)) {
		return nil
	}
	l := r.comp(st, "Meta.Blind.Levels")
	fv := c.w.fieldVar(c.w.root, "Blind", "Levels")
	et := fv.Type().Underlying().(*types.Slice).Elem()
	ad := r.e.indexAddr(l, idx, et)
	bfv := c.w.fieldVar(c.w.root, "BlindLevel", field)
	return r.e.load(st, r.e.tt.Field(ad, bfv), bfv.Type())
}

func (c *Ctx) breaking(r *Run, st *State, q *FQ) int {
	l := c.level(r, st, q, "Level")
	if l == nil {
		return 0
	}
	return r.e.eval(q.f, r.e.tt.Eq(l, r.e.tt.Int(-1), types.Typ[types.Int]))
}

func ruleC06(c *Ctx) {
	r, pid := c.addon()
	if r == nil {
		return
	}
	tt := r.e.tt
	c.gate(r, r.muts(), "gate", "positive chips, a registered player, add-on allowed at the current level (during a break if break-only) and add-ons left", func(q *FQ, s *Site) bool {
		i := r.foundIdx(q, pid)
		if i == nil || !q.ge("p2.RedeemChips", nil, 1) {
			return false
		}
		allow := c.level(r, r.st0, q, "AllowAddon")
		if !q.sameBool(allow, true) {
			return false
		}
		bo := r.comp(r.st0, "Meta.AddonSetting.IsBreakOnly")
		if !q.fails(bo) && c.breaking(r, r.st0, q) != 1 {
			return false
		}
		return q.lt(r.pf(r.st0, i, "AddonTimes"), r.comp(r.st0, "Meta.AddonSetting.MaxTime"))
	})
	_ = tt
	c.reasons(r, "refusal", true, map[string]reasonFn{
		"ErrCompetitionNoRedeemChips": func(q *FQ) bool { return q.le("p2.RedeemChips", nil, 0) },
		"ErrCompetitionAddonRejected": func(q *FQ) bool {
			if q.absent(pPlayers, pp, pid) {
				return true
			}
			if q.holds(r.comp(r.st0, "Meta.AddonSetting.IsBreakOnly")) && c.breaking(r, r.st0, q) == -1 {
				return true
			}
			return q.sameBool(c.level(r, r.st0, q, "AllowAddon"), false)
		},
		"ErrCompetitionExceedAddonLimit": func(q *FQ) bool {
			i := r.foundIdx(q, pid)
			return i != nil && q.geT(r.pf(r.st0, i, "AddonTimes"), r.comp(r.st0, "Meta.AddonSetting.MaxTime"))
		},
	})
}

func ruleC07(c *Ctx) {
	r, pid := c.addon()
	if r == nil {
		return
	}
	e := r.e
	chips, unit := r.arg(1, "RedeemChips"), r.arg(1, "Unit")
	pt := c.playerType()
	n := 0
	for _, o := range r.outs {
		calls := evs(o.st.log, "invoke:TableManagerBackend.PlayerRedeemChips")
		if !r.succeeded(o) && len(calls) == 0 {
			continue
		}
		n++
		q := e.q(o.st.facts)
		v := vc{c, r, o, q, "add-on", "accepted add-on"}
		i := r.foundIdx(q, pid)
		if i == nil {
			c.fail("add-on:player", r.fn.Pos(), r.name, "an add-on succeeds without a registered player: %s", r.describe(o))
			continue
		}
		p, _ := r.elem(r.st0, "State.Players", i)
		f := func(n string) *Term { return e.at(o.st, p, pt, n) }
		g := func(n string) *Term { return e.at(r.st0, p, pt, n) }
		v.plus("Chips", g("Chips"), f("Chips"), chips)
		v.plus("TotalRedeemChips", g("TotalRedeemChips"), f("TotalRedeemChips"), chips)
		v.plus("AddonTimes", g("AddonTimes"), f("AddonTimes"), e.tt.Int(1))
		v.eq("CurrentTableID", f("CurrentTableID"), r.args[0])
		for _, n := range []string{"PlayerID", "ReBuyTimes", "TotalBuyInUnits", "Status"} {
			v.eq(n, f(n), g(n))
		}
		a0, a1 := r.comp(r.st0, "State.Statistic.TotalAddonCount"), r.comp(o.st, "State.Statistic.TotalAddonCount")
		if q.mode("ct", "mtt") {
			v.plus("TotalAddonCount", a0, a1, unit)
		} else if q.notMode("ct", "mtt") {
			v.eq("TotalAddonCount", a1, a0)
		} else {
			v.bad("TotalAddonCount", a1, "a total chosen by the mode")
		}
		v.eq("TotalBuyInCount", r.comp(o.st, "State.Statistic.TotalBuyInCount"), r.comp(r.st0, "State.Statistic.TotalBuyInCount"))
		v.eq("Players", r.comp(o.st, "State.Players"), r.comp(r.st0, "State.Players"))
		c.foreignWrites(r, o, p, "add-on")
		c.count("obligations", 1)
		if len(calls) != 1 || len(calls[0].loops) > 0 {
			c.fail("add-on:forward", r.fn.Pos(), r.name, "an accepted add-on redeems chips at the table %d times: %s", len(calls), r.describe(o))
			continue
		}
		v.eq("PlayerRedeemChips table", calls[0].args[0], r.args[0])
		c.jpIs(v, "PlayerRedeemChips", calls[0].args[1], pid, chips)
		if r.succeeded(o) {
			if calls[0].res != nil && !q.same(calls[0].res, e.tt.Nil()) {
				c.fail("add-on:error", calls[0].pos, r.name, "the add-on reports success although the table may have refused it")
			}
		} else if o.err() != calls[0].res {
			c.fail("add-on:error", calls[0].pos, r.name, "the add-on does not return the table's own error")
		}
	}
	c.need(n > 0, "accepted add-ons")
	c.count("accepted add-on paths", n)
}

// ---- refund ----

func ruleC08(c *Ctx) {
	r := c.op(opCfg(), "PlayerRefund", nil)
	if r == nil {
		return
	}
	e := r.e
	pid := r.args[0]
	started := func(q *FQ) int {
		v := 0
		for t, b := range q.f.atoms {
			if isInvokeRes(t, "Blind.IsStarted") {
				v = tri(b)
			}
		}
		return v
	}
	c.gate(r, r.muts(), "gate", "a registered player and blinds that have not started", func(q *FQ, s *Site) bool {
		return r.foundIdx(q, pid) != nil && started(q) == -1
	})
	c.reasons(r, "refusal", true, map[string]reasonFn{
		"ErrCompetitionRefundRejected": func(q *FQ) bool { return q.absent(pPlayers, pp, pid) || started(q) == 1 },
	})
	wf := c.waitField()
	n, left, wq := 0, 0, 0
	for _, o := range r.outs {
		if !r.succeeded(o) && len(evs(o.st.log, "store:CompetitionState.Players")) == 0 {
			continue
		}
		n++
		q := e.q(o.st.facts)
		v := vc{c, r, o, q, "refund", "accepted refund"}
		i := r.foundIdx(q, pid)
		if i == nil {
			continue
		}
		if !c.removedAt(r, o, i) {
			c.fail("refund:Players", r.fn.Pos(), r.name, "the player list afterwards is not the old list without exactly the refunded player: %s", r.comp(o.st, "State.Players"))
		}
		b0, b1 := r.comp(r.st0, "State.Statistic.TotalBuyInCount"), r.comp(o.st, "State.Statistic.TotalBuyInCount")
		if q.mode("ct", "mtt") {
			v.eq("TotalBuyInCount", b1, e.tt.Sub(b0, r.pf(r.st0, i, "TotalBuyInUnits")))
		} else if q.notMode("ct", "mtt") {
			v.eq("TotalBuyInCount", b1, b0)
		} else {
			v.bad("TotalBuyInCount", b1, "a total chosen by the mode")
		}
		// the waiting queue no longer holds the player
		if wf != nil {
			w := e.load(o.st, e.tt.Field(r.recv, wf), wf.Type())
			if c.filteredOut(r, o, w, pid, wf) {
				wq++
			} else {
				c.fail("refund:queue", r.fn.Pos(), r.name, "the refunded player may stay in the waiting queue: %s", w)
			}
		}
		lv := evs(o.st.log, "invoke:TableManagerBackend.PlayersLeave")
		tid := r.pf(r.st0, i, "CurrentTableID")
		need := q.mode("ct") && !q.sameStr(tid, "")
		if need {
			left++
			if len(lv) != 1 || len(lv[0].loops) > 0 {
				c.fail("refund:leave", r.fn.Pos(), r.name, "a refunded CT player seated at a table leaves it %d times: %s", len(lv), r.describe(o))
			} else {
				v.eq("PlayersLeave table", lv[0].args[0], tid)
				if !e.listIs(o.st, lv[0].list(1), pid) {
					c.fail("refund:leave-who", lv[0].pos, r.name, "PlayersLeave is not called with exactly the refunded player")
				}
			}
		} else if len(lv) > 0 && !q.mode("ct") {
			c.fail("refund:leave-mode", lv[0].pos, r.name, "a refund outside CT makes a player leave a table")
		}
		for _, f := range evs(o.st.log, "store:CompetitionPlayer.*") {
			if moneyFields[f.name[18:]] && f.addr.args[0] != e.noTerm(r.elem(r.st0, "State.Players", i)) {
				c.fail("refund:other-player", f.pos, r.name, "a refund writes another player's %s", f.name)
			}
		}
	}
	c.need(n > 0 && left > 0 && wq > 0, "accepted refunds, their table leave and queue removal")
	c.count("accepted refund paths", n)
}

func (e *Engine) noTerm(t *Term, _ types.Type) *Term { return t }

func isInvokeRes(t *Term, name string) bool {
	return t.op == OSym && (t.name == name || strings.HasPrefix(t.name, name+"#"))
}

// removedAt: the final player list is the initial one without index i.
func (c *Ctx) removedAt(r *Run, o *Outcome, i *Term) bool {
	return c.isListWithout(r, o, r.comp(o.st, "State.Players"), r.comp(r.st0, "State.Players"), i)
}
