package main

import "strings"

// ---- C55: what is done is announced ----

type told struct {
	op     string
	player int    // argument that names the player whose record is announced, -1: none
	event  string // state event
}

func ruleC55(c *Ctx) {
	for _, t := range []told{
		{"CreateCompetition", -1, ""},
		{"StartCompetition", -1, "CompetitionStateEvent_Started"},
		{"PlayerBuyIn", 0, "CompetitionStateEvent_CompetitionStatisticUpdated"},
		{"PlayerAddon", 1, "CompetitionStateEvent_CompetitionStatisticUpdated"},
		{"PlayerRefund", -1, "CompetitionStateEvent_CompetitionStatisticUpdated"},
		{"UpdateReserveTablePlayerState", 1, ""},
	} {
		c.toldOp(t)
	}
	for _, mode := range []string{"ct", "cash", "mtt"} {
		c.toldHand(mode)
	}
}

// changed: the store changes what an observer of the competition sees.
func changed(f *Effect) bool {
	if f.kind != "store" && f.kind != "mapput" && f.kind != "copy" && f.kind != "sort" {
		return false
	}
	for _, p := range []string{"CompetitionPlayer.", "Statistic.", "CompetitionState.", "CompetitionMeta.", "BlindState.", "AdvanceState."} {
		if strings.HasPrefix(f.name, p) {
			return true
		}
	}
	return f.name == "competitionEngine.competition"
}

func (c *Ctx) toldOp(t told) {
	cfg := opCfg()
	cfg.NoAsync = true
	r := c.op(cfg, t.op, nil)
	if r == nil {
		return
	}
	e := r.e
	ok := 0
	for _, o := range r.outs {
		if r.failed(o) || r.rejected(o) {
			continue
		}
		l := flat(o.st.log)
		last, own := -1, -1
		for i, f := range l {
			if changed(f.Effect) && sharedStore(e, f.Effect) {
				last = i
				if strings.HasPrefix(f.name, "CompetitionPlayer.") || strings.HasPrefix(f.name, "Statistic.") || f.name == "CompetitionState.Players" || f.name == "CompetitionState.StartAt" || f.name == "CompetitionState.EndAt" {
					own = i
				}
			}
		}
		q := e.q(o.st.facts)
		if t.op == "UpdateReserveTablePlayerState" && last < 0 {
			continue // not a player of the competition
		}
		ok++
		c.count("obligations", 1)
		bad := func(f *Effect, key, msg string, x ...any) {
			pos, fn := r.fn.Pos(), r.name
			if f != nil {
				pos, fn = f.pos, stackStr(f)
			}
			c.fail(t.op+":"+key, pos, fn, msg, x...)
		}
		key := t.key(r)
		comp, ev, pl := 0, 0, 0
		for i, f := range l {
			if f.kind != "callback" {
				continue
			}
			switch f.name {
			case "OnCompetitionUpdated":
				if i > last {
					comp++
				}
			case "OnCompetitionPlayerUpdated":
				if t.player < 0 || !q.linked(e.at(o.st, f.args[1], c.playerType(), "PlayerID"), key) {
					bad(f.Effect, "whom", "another player is announced (%s)", f.args[1])
				} else if i < own {
					bad(f.Effect, "early", "the player is announced before everything is final (%s follows)", l[own].name)
				} else if e.pathOf(f.args[1]) != pPlayers+"[]" && f.args[1].op != OAlloc {
					bad(f.Effect, "copy", "what is announced is not the player's record (%s)", f.args[1])
				} else {
					pl++
				}
			case "OnCompetitionStateUpdated":
				if t.event != "" && q.sameStr(f.args[0], c.k(t.event)) {
					ev++
					if i < own {
						bad(f.Effect, "event-early", "the event is announced before everything is final (%s follows)", l[own].name)
					}
				}
			}
		}
		if comp == 0 {
			bad(nil, "update", "the competition is not announced with its final state: %s", r.describe(o))
		}
		if t.player >= 0 && pl != 1 {
			bad(nil, "player", "the player is announced %d times instead of once: %s", pl, r.describe(o))
		}
		if t.event != "" && ev != 1 {
			bad(nil, "event", "%s is announced %d times instead of once: %s", c.k(t.event), ev, r.describe(o))
		}
	}
	c.need(ok > 0, "accepted paths of %s", t.op)
	c.count("accepted paths", ok)
}

func (t told) key(r *Run) *Term {
	if t.player < 0 {
		return nil
	}
	return r.arg(t.player, "PlayerID")
}

// toldHand: a settled hand is announced once, when everything has followed it.
func (c *Ctx) toldHand(mode string) {
	cfg := siteCfg([]string{"CompetitionState.Status"}, "ext:timebank.TimeBank.NewTask", "callback:OnCompetitionStateUpdated", "callback:OnCompetitionUpdated")
	cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool { return a.name == "timebank.TimeBank.NewTask" }
	r := c.updateTable(cfg, mode, "table_game_settled")
	if r == nil {
		return
	}
	e := r.e
	settled := c.k("CompetitionStateEvent_TableGameSettled")
	is := func(f *Effect, q *FQ) bool {
		return f.kind == "callback" && f.name == "OnCompetitionStateUpdated" && q.sameStr(f.args[0], settled)
	}
	tellers := map[*Term]bool{}
	for _, a := range r.asyncs("timebank.TimeBank.NewTask") {
		var all []*Outcome
		any := false
		for _, o := range a.outcomes {
			q := e.q(o.st.facts)
			all = append(all, o)
			for _, f := range flat(o.st.log) {
				any = any || is(f.Effect, q)
			}
		}
		if !any {
			continue
		}
		tellers[a.closure] = true
		for _, o := range all {
			q := e.q(o.st.facts)
			ev, upd := 0, 0
			for _, f := range flat(o.st.log) {
				switch {
				case is(f.Effect, q):
					ev++
				case f.kind == "callback" && f.name == "OnCompetitionUpdated":
					upd++
				}
			}
			c.count("obligations", 1)
			if q.fails(a.params[0]) && (ev != 1 || upd == 0) {
				c.fail("hand:task:"+mode, a.pos, a.label, "%s: the delayed announcement of a settled hand is made %d times, with %d updates", mode, ev, upd)
			}
		}
	}
	n, again := 0, 0
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		l := flat(o.st.log)
		ev, upd := 0, 0
		var at *Effect
		for _, f := range l {
			switch {
			case is(f.Effect, q):
				ev++
				at = f.Effect
				upd = 0
			case f.kind == "ext" && f.name == "timebank.TimeBank.NewTask" && len(f.args) == 3 && tellers[f.args[2]]:
				ev++
				at = f.Effect
				upd = 1
			case f.kind == "callback" && f.name == "OnCompetitionUpdated":
				upd++
			}
		}
		if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) || handSeen(q) {
			again++
			if ev > 0 {
				c.fail("hand:again:"+mode, at.pos, stackStr(at), "%s: a hand is announced as settled although nothing was settled: %s", mode, r.describe(o))
			}
			continue
		}
		if !handNew(q) {
			continue
		}
		n++
		c.count("obligations", 1)
		if ev != 1 || upd == 0 {
			pos, fn := r.fn.Pos(), r.name
			if at != nil {
				pos, fn = at.pos, stackStr(at)
			}
			c.fail("hand:"+mode, pos, fn, "%s: a settled hand is announced %d times (with the competition: %v): %s", mode, ev, upd > 0, r.describe(o))
		}
	}
	c.need(n > 0 && again > 0, "%s: hands settled for the first time and again", mode)
	c.count("hands", n)
}
