package main

// ---- C31: advancement ----

// advances: the table of the settled hand is to be stopped for good.
func (c *Ctx) advances(r *Run, q *FQ) int {
	e := r.e
	rule := r.comp(r.st0, "Meta.AdvanceSetting.Rule")
	level := 0
	if l := c.level(r, r.st0, q, "Level"); l != nil {
		level = not3(q.lessT(l, r.comp(r.st0, "Meta.AdvanceSetting.BlindLevel")))
	}
	few := 0
	n := r.comp(r.st0, "Meta.AdvanceSetting.PlayerCount")
	for _, t := range q.allTerms() {
		if few != 0 {
			break
		}
		v := q.lessT(t, n)
		if v == 0 {
			continue
		}
		seq, cs, ok := e.countOf(t)
		if ok && e.pathOf(seq) == pPlayers && exactly(cs, func(p passCase) int { return p.q.positive(p.f(e, "Chips")) }) {
			few = v
		}
	}
	byLevel := q.termIn(rule, c.k("CompetitionAdvanceRule_BlindLevel"))
	byCount := q.termIn(rule, c.k("CompetitionAdvanceRule_PlayerCount"))
	return or3(and3(byLevel, level), and3(byCount, few))
}

func ruleC31(c *Ctx) {
	cfg := siteCfg([]string{"CompetitionState.Status", "AdvanceState.Status", "AdvanceState.TotalTables", "AdvanceState.UpdatedTables", "AdvanceSetting.Rule", "AdvanceSetting.BlindLevel", "AdvanceSetting.PlayerCount", "BlindState.CurrentLevelIndex", "BlindLevel.Level", "sym:TableManagerBackend.PauseTable"},
		"invoke:TableManagerBackend.PauseTable", "invoke:Regulator.SyncState", "store:AdvanceState.*", "store:CompetitionState.AdvanceState", "store:CompetitionMeta.AdvanceSetting", "store:AdvanceSetting.*")
	cfg.NoAsync = true
	r := c.updateTable(cfg, "mtt", "table_game_settled")
	if r == nil {
		return
	}
	e := r.e
	updating := func(q *FQ) int {
		return q.termIn(r.comp(r.st0, "State.AdvanceState.Status"), c.k("CompetitionAdvanceStatus_Updating"))
	}
	for _, s := range r.sites("invoke:TableManagerBackend.PauseTable", "invoke:Regulator.SyncState") {
		q := e.q(s.facts)
		f := s.eff
		if f == nil {
			continue
		}
		c.count("obligations", 1)
		if !q.same(f.args[0], r.arg(0, "ID")) {
			c.fail("advance:table", f.pos, stackStr(f), "%s is called for another table than the settled one (%s)", f.name, f.args[0])
		}
		want := and3(updating(q), c.advances(r, q))
		if f.name == "TableManagerBackend.PauseTable" {
			if want != 1 {
				c.fail("advance:pause", f.pos, stackStr(f), "a table is stopped although the advancement may not run or its condition may not be met: %s", r.describe(&Outcome{st: &State{facts: s.facts}}))
			}
		} else if want != -1 {
			c.fail("advance:balance", f.pos, stackStr(f), "a table goes on and is rebalanced although the condition of the advancement may be met: %s", r.describe(&Outcome{st: &State{facts: s.facts}}))
		}
	}
	stopped, on, over := 0, 0, 0
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) || !handNew(q) {
			continue
		}
		c.count("obligations", 1)
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("advance:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("advance:"+key, r.fn.Pos(), r.name, msg, x...)
			}
		}
		l := flat(o.st.log)
		var ps, ss []Ev
		for _, f := range l {
			switch f.name {
			case "TableManagerBackend.PauseTable":
				ps = append(ps, f)
			case "Regulator.SyncState":
				ss = append(ss, f)
			}
			if len(f.loops) > 0 {
				bad(f.Effect, "loop", "%s happens repeatedly for one settled hand", f.name)
			}
			if f.kind == "store" && (f.name == "CompetitionMeta.AdvanceSetting" || len(f.name) > 15 && f.name[:15] == "AdvanceSetting.") {
				bad(f.Effect, "setting", "a settled hand changes the setting of the advancement (%s)", f.name)
			}
		}
		if len(ps)+len(ss) != 1 {
			bad(nil, "either", "a settled table is neither stopped once nor rebalanced once (%d, %d): %s", len(ps), len(ss), r.describe(o))
			continue
		}
		old := func(n string) *Term { return r.comp(r.st0, "State.AdvanceState."+n) }
		now := func(n string) *Term { return r.comp(o.st, "State.AdvanceState."+n) }
		tables := r.lenOf(o.st, "State.Tables")
		switch {
		case updating(q) == 1:
			if !q.same(now("TotalTables"), tables) {
				bad(nil, "total", "the number of tables of the advancement is %s", now("TotalTables"))
			}
		case !q.same(now("TotalTables"), old("TotalTables")):
			bad(nil, "total", "the number of tables of the advancement changes although it does not run")
		}
		if len(ps) == 1 && !q.isErr(ps[0].res) {
			if !q.isNil(ps[0].res) {
				bad(ps[0].Effect, "unexamined", "the result of stopping a table is not examined")
				continue
			}
			stopped++
			if !q.same(now("UpdatedTables"), e.tt.Add(old("UpdatedTables"), e.tt.Int(1))) {
				bad(ps[0].Effect, "count", "a stopped table is not counted once (%s)", now("UpdatedTables"))
			}
			base, el := e.listElems(o.st, now("UpdatedTableIDs"))
			if base != old("UpdatedTableIDs") || len(el) != 1 || !q.same(el[0], r.arg(0, "ID")) {
				bad(ps[0].Effect, "list", "a stopped table is not added to the stopped tables (%s)", now("UpdatedTableIDs"))
			}
			d := e.tt.Sub(tables, e.tt.Add(old("UpdatedTables"), e.tt.Int(1)))
			all := q.eqInt(d, 0)
			end := q.termIn(now("Status"), c.k("CompetitionAdvanceStatus_End"))
			if end == 1 {
				over++
			}
			if all == 0 || end != all || end == -1 && now("Status") != old("Status") && !q.same(now("Status"), old("Status")) {
				bad(ps[0].Effect, "end", "the advancement does not end exactly when every table is stopped: %s", r.describe(o))
			}
			continue
		}
		on++
		for _, n := range []string{"Status", "UpdatedTables", "UpdatedTableIDs"} {
			if now(n) != old(n) && !q.same(now(n), old(n)) {
				bad(nil, "kept:"+n, "no table is stopped, but %s of the advancement changes", n)
			}
		}
	}
	c.advanceInit()
	c.need(stopped > 0 && on > 0 && over > 0, "hands after which a table is stopped, goes on, or the advancement ends (%d, %d, %d)", stopped, on, over)
}

// advanceInit: the end of the buy-in sets the advancement of an MTT in motion.
func (c *Ctx) advanceInit() {
	for _, mode := range []string{"ct", "cash", "mtt"} {
		cfg := siteCfg([]string{"CompetitionState.Status", "BlindState.FinalBuyInLevelIndex", "BlindState.CurrentLevelIndex", "Status.CurrentLevelIndex", "AdvanceState.Status", "AdvanceSetting.Rule"},
			"store:CompetitionState.Status", "store:AdvanceState.*", "store:CompetitionState.AdvanceState", "store:AdvanceSetting.*", "store:CompetitionMeta.AdvanceSetting", "callback:OnAdvancePlayerCountUpdated")
		r, a := c.blindRunCfg(cfg, mode)
		if r == nil || a == nil {
			continue
		}
		e := r.e
		on := 0
		for _, o := range a.outcomes {
			q := e.q(o.st.facts)
			c.count("obligations", 1)
			bad := func(key, msg string, x ...any) {
				c.fail("advance-start:"+key+":"+mode, a.pos, a.label, mode+": "+msg, x...)
			}
			rule := r.comp(a.st0, "Meta.AdvanceSetting.Rule")
			byCount := q.termIn(rule, c.k("CompetitionAdvanceRule_PlayerCount"))
			known := or3(byCount, q.termIn(rule, c.k("CompetitionAdvanceRule_BlindLevel")))
			want := -1
			if mode == "mtt" && r.ended(a.st0, q) != 1 {
				want = and3(r.stopBuyIn(o.st, q), not3(q.termIn(r.comp(a.st0, "State.Status"), c.k("CompetitionStateStatus_StoppedBuyIn"))))
				want = and3(want, and3(known, q.termIn(r.comp(a.st0, "State.AdvanceState.Status"), c.k("CompetitionAdvanceStatus_NotStart"))))
			}
			old := func(n string) *Term { return r.comp(a.st0, n) }
			now := func(n string) *Term { return r.comp(o.st, n) }
			asked := evs(o.st.log, "callback:OnAdvancePlayerCountUpdated")
			var touched []string
			for _, n := range []string{"Meta.AdvanceSetting.Rule", "Meta.AdvanceSetting.BlindLevel", "Meta.AdvanceSetting.PlayerCount", "State.AdvanceState.Status", "State.AdvanceState.TotalTables", "State.AdvanceState.UpdatedTables", "State.AdvanceState.UpdatedTableIDs"} {
				if now(n) != old(n) && !q.same(now(n), old(n)) {
					touched = append(touched, n)
				}
			}
			if len(touched) == 0 && len(asked) == 0 {
				if want != -1 {
					bad("missed", "the buy-in ended but the advancement is not set in motion: %s", r.describe(o))
				}
				continue
			}
			if want != 1 {
				bad("gate", "the advancement changes (%v) although the buy-in may not end now, there is no rule or it runs: %s", touched, r.describe(o))
				continue
			}
			on++
			if !q.sameStr(now("State.AdvanceState.Status"), c.k("CompetitionAdvanceStatus_Updating")) {
				bad("status", "the advancement does not run after the buy-in ended (%s)", now("State.AdvanceState.Status"))
			}
			// the tables at that time: the list may still change when the competition closes
			if t := now("State.AdvanceState.TotalTables"); !q.same(t, r.lenOf(a.st0, "State.Tables")) && !q.same(t, r.lenOf(o.st, "State.Tables")) {
				bad("total", "the advancement starts with %s tables", t)
			}
			if !q.sameInt(now("State.AdvanceState.UpdatedTables"), 0) {
				bad("count", "the advancement starts with %s stopped tables", now("State.AdvanceState.UpdatedTables"))
			}
			for _, n := range []string{"Meta.AdvanceSetting.Rule", "Meta.AdvanceSetting.BlindLevel"} {
				if now(n) != old(n) && !q.same(now(n), old(n)) {
					bad("setting", "%s changes when the advancement starts", n)
				}
			}
			pc := now("Meta.AdvanceSetting.PlayerCount")
			switch {
			case byCount == 0:
				bad("rule", "the start of the advancement does not depend on its rule")
			case byCount == -1 && (len(asked) > 0 || !q.same(pc, old("Meta.AdvanceSetting.PlayerCount"))):
				bad("unasked", "the number of players to advance changes although the rule does not use it")
			case byCount == 1 && (len(asked) != 1 || len(asked[0].loops) > 0 || !q.same(pc, asked[0].res)):
				bad("asked", "the number of players to advance is not the answer of the one request for it (%s)", pc)
			case byCount == 1 && (!q.same(asked[0].args[0], old("ID")) || !q.same(asked[0].args[1], old("State.Statistic.TotalBuyInCount"))):
				bad("asked-for", "the number of players to advance is requested for %s", sprint(asked[0].args))
			}
		}
		c.need(on > 0 || mode != "mtt", "advancements that start (%s)", mode)
	}
}
