package main

import (
	"strings"
)

// Frame rules: which entry points may change which parts of a competition.

// shared: the store reaches an object that existed before the operation.
func sharedStore(e *Engine, f *Effect) bool {
	return f.addr != nil && root(f.addr).op != OAlloc
}

// everyEntry analyses all operations with their timers and listeners.
func (c *Ctx) everyEntry(track []string, pats []string, fn func(op string, r *Run, s *Site)) int {
	n, asyncs := 0, 0
	for _, m := range allOps {
		cfg := siteCfg(append([]string{"CompetitionState.Status", "CompetitionMeta.Mode"}, track...), pats...)
		r := c.op(cfg, m, nil)
		if r == nil {
			continue
		}
		asyncs += len(r.e.asyncs)
		for _, s := range r.e.sites {
			n++
			fn(m, r, s)
		}
		c.count("obligations", len(r.outs)+len(r.e.asyncs))
	}
	c.need(asyncs > 0, "timers and listeners of the operations")
	return n
}

func storePats(names ...string) []string {
	var l []string
	for _, n := range names {
		l = append(l, "store:"+n)
	}
	return l
}

// ---- C52: the settings of a competition are fixed ----

var settingTypes = []string{"CompetitionMeta", "Blind", "BlindLevel", "ReBuySetting", "AddonSetting", "AdvanceSetting"}

func ruleC52(c *Ctx) {
	pats := storePats("Competition.ID", "Competition.Meta", "Competition.Meta*", "CompetitionState.OpenAt", "CompetitionState.DisableAt", "Competition.State", "competitionEngine.competition")
	for _, t := range settingTypes {
		pats = append(pats, "store:"+t+".*")
	}
	pats = append(pats, "copy:*", "sort:*", "mapput:*", "mapdel:*", "mapclear:*")
	places := 0
	c.everyEntry([]string{"AdvanceState.Status"}, pats, func(op string, r *Run, s *Site) {
		e, f := r.e, s.eff
		a := f.addr
		if a == nil && len(f.args) > 0 {
			a = f.args[0]
		}
		if a == nil || root(a).op == OAlloc {
			return
		}
		p := e.pathOf(a)
		if f.kind != "store" && !strings.HasPrefix(p, "C.Meta") {
			return
		}
		q := e.q(s.facts)
		if f.kind == "store" && f.old != nil && f.val != nil && q.same(f.old, f.val) {
			return
		}
		// making the competition
		if op == "CreateCompetition" && s.entry == r.name && f.name == "competitionEngine.competition" {
			return
		}
		places++
		if f.name == "AdvanceSetting.PlayerCount" {
			// the operator's number of players to advance, asked for once when the
			// buy-in of an MTT ends
			asked := f.val != nil && f.val.op == OSym && e.isResultOf(f.val, "OnAdvancePlayerCountUpdated")
			if asked && q.mode("mtt") && q.is("C.State.AdvanceState.Status", nil, c.k("CompetitionAdvanceStatus_NotStart")) {
				return
			}
			c.fail("settings:advance", f.pos, stackStr(f), "the number of players to advance is changed to %s, not once to what the operator answers when the buy-in of an MTT ends", f.val)
			return
		}
		c.fail("settings:"+f.name, f.pos, s.entry+": "+stackStr(f), "a setting of the competition is changed: %s at %s", f.name, p)
	})
	c.count("places", places)
}

// isResultOf: the value is what a listener returned.
func (e *Engine) isResultOf(t *Term, cb string) bool {
	for _, s := range e.sites {
		if s.eff.kind == "callback" && s.eff.name == cb && s.eff.res == t {
			return true
		}
	}
	return strings.Contains(t.name, cb)
}

// ---- C53: money moves only where it may ----

var moneyWriters = map[string][]string{
	"CompetitionPlayer.Chips":            {"PlayerBuyIn", "PlayerAddon", "UpdateTable"},
	"CompetitionPlayer.TotalRedeemChips": {"PlayerBuyIn", "PlayerAddon"},
	"CompetitionPlayer.ReBuyTimes":       {"PlayerBuyIn"},
	"CompetitionPlayer.AddonTimes":       {"PlayerAddon"},
	"CompetitionPlayer.TotalBuyInUnits":  {"PlayerBuyIn", "PlayerRefund"},
	"CompetitionPlayer.JoinAt":           nil,
	"Statistic.TotalBuyInCount":          {"PlayerBuyIn", "PlayerRefund"},
	"Statistic.TotalAddonCount":          {"PlayerAddon"},
}

func ruleC53(c *Ctx) {
	var pats []string
	for n := range moneyWriters {
		pats = append(pats, "store:"+n)
	}
	pats = append(pats, "store:CompetitionState.Statistic")
	seen := map[string]int{}
	c.everyEntry([]string{"TableState.Status"}, pats, func(op string, r *Run, s *Site) {
		e, f := r.e, s.eff
		if !sharedStore(e, f) {
			return
		}
		c.count("obligations", 1)
		q := e.q(s.facts)
		if f.old != nil && f.val != nil && q.same(f.old, f.val) {
			return
		}
		ok := false
		for _, w := range moneyWriters[f.name] {
			ok = ok || w == op && s.entry == r.name
		}
		switch {
		case !ok:
			c.fail("writer:"+f.name, f.pos, s.entry+": "+stackStr(f), "%s is changed by %s", f.name, s.entry)
		case op == "UpdateTable" && !q.is("p1.State.Status", nil, "table_game_settled"):
			c.fail("unsettled:"+f.name, f.pos, stackStr(f), "%s follows a table whose hand may not be settled: %s", f.name, r.describe(&Outcome{st: &State{facts: s.facts}}))
		case op == "UpdateTable" && !handNew(q):
			c.fail("again:"+f.name, f.pos, stackStr(f), "%s may follow a hand that was settled before", f.name)
		default:
			seen[f.name+" "+op]++
			if op != "UpdateTable" && !strings.HasPrefix(f.name, "Statistic.") {
				// only the player the operation is for
				key := r.args[0]
				switch op {
				case "PlayerBuyIn":
					key = r.arg(0, "PlayerID")
				case "PlayerAddon":
					key = r.arg(1, "PlayerID")
				}
				i := r.foundIdx(q, key)
				if i == nil || e.pathOf(f.addr) != pPlayers+"[]."+strings.TrimPrefix(f.name, "CompetitionPlayer.") || !q.same(e.idxOf(f.addr, pPlayers), i) {
					c.fail("whose:"+f.name, f.pos, stackStr(f), "%s of another player is changed by %s", f.name, op)
				}
			}
		}
	})
	for n, ops := range moneyWriters {
		for _, op := range ops {
			c.need(seen[n+" "+op] > 0, "%s of %s", n, op)
		}
	}
	c.count("places", len(seen))
}

// ---- C54: one record per player ----

func ruleC54(c *Ctx) {
	pats := []string{"store:CompetitionState.Players", "store:CompetitionState.Players[]", "store:CompetitionPlayer.PlayerID", "copy:*"}
	added, removed := 0, 0
	c.everyEntry([]string{"TableState.Status"}, pats, func(op string, r *Run, s *Site) {
		e, f := r.e, s.eff
		if f.kind == "copy" {
			if len(f.args) > 0 && e.pathOf(f.args[0]) == pPlayers {
				c.fail("copy", f.pos, stackStr(f), "records of players are overwritten in the list")
			}
			return
		}
		if !sharedStore(e, f) {
			return
		}
		c.count("obligations", 1)
		q := e.q(s.facts)
		if f.old != nil && q.same(f.old, f.val) {
			return
		}
		switch f.name {
		case "CompetitionPlayer.PlayerID":
			c.fail("renamed", f.pos, s.entry+": "+stackStr(f), "a player's record is given another id")
		case "CompetitionState.Players[]":
			c.fail("replaced", f.pos, s.entry+": "+stackStr(f), "a player's record in the list is replaced")
		default:
			ps := pieces(f.val)
			if len(ps) > 1 && ps[0] == f.old {
				if op != "PlayerBuyIn" || s.entry != r.name {
					c.fail("added", f.pos, s.entry+": "+stackStr(f), "a player is added by %s", s.entry)
				} else if !q.absent(pPlayers, pp, r.arg(0, "PlayerID")) || len(ps) != 2 || ps[1].op != OAlloc {
					c.fail("twice", f.pos, stackStr(f), "a record is added although the player may have one already: %s", f.val)
				} else {
					added++
				}
				return
			}
			if !c.sublist(e, s.facts, f.val, f.old) {
				c.fail("list", f.pos, s.entry+": "+stackStr(f), "the list of players becomes %s, not the list before without some players", f.val)
				return
			}
			switch {
			case op == "PlayerRefund" || op == "PlayerCashOut":
				removed++
			case op == "UpdateTable" && q.is("p1.State.Status", nil, "table_game_settled") && (s.entry != r.name || q.mode("cash")):
				removed++
			default:
				c.fail("removed", f.pos, s.entry+": "+stackStr(f), "players are removed by %s: %s", s.entry, r.describe(&Outcome{st: &State{facts: s.facts}}))
			}
		}
	})
	c.need(added > 0 && removed > 0, "players who are added and removed")
	// only the players who leave are removed
	c.part([]string{"leavers:players"}, c.cashOutHand)
	c.part([]string{"cash-out:players"}, c.cashOutOp)
	c.part([]string{"re-buy-over:players"}, func() { c.rebuyTimers("cash") })
	c.part([]string{"refund:Players"}, func() { ruleC08(c) })
	c.count("added", added)
	c.count("removed", removed)
}

// sublist: the value is a list with some of its elements taken out.
func (c *Ctx) sublist(e *Engine, f *Facts, v, old *Term) bool {
	if seq, _, ok := e.filterOf(v); ok && (seq == old || e.pathOf(seq) == e.pathOf(old)) {
		return true
	}
	ps := pieces(v)
	if len(ps) == 2 && ps[0].op == OSlice && ps[1].op == OSlice && ps[0].args[0] == old && ps[1].args[0] == old {
		q := e.q(f)
		lo, ok := ps[0].args[1].intVal()
		return ok && lo == 0 && ps[1].args[2] == e.lenOf(old) && q.geT(ps[1].args[1], ps[0].args[2])
	}
	return false
}
