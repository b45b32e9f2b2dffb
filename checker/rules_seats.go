package main

import "strings"

// ---- C27: players the regulator seats ----

// joins: the list asks for a seat for each of the ids, in order, for a player
// with chips; drop says when one may be left out.
func (c *Ctx) joins(r *Run, q *FQ, list, ids *Term, drop func(p passCase, x *Term) bool) string {
	e := r.e
	seq, cs, ok := e.selectOfTo(list, q.f)
	if !ok || seq != ids {
		return "the players are not selected from those named (" + list.String() + ")"
	}
	for _, p := range cs {
		x := p.x
		c.count("obligations", 1)
		if p.took == 0 {
			if !drop(p.passCase, x) {
				return "a named player is left out"
			}
			continue
		}
		v := p.val
		f := func(n string) *Term { return e.at(p.ct.st, v, v.typ, n) }
		if !p.q.same(f("PlayerID"), x) {
			return "the seat is for " + f("PlayerID").String()
		}
		if !p.q.sameInt(f("Seat"), unset) {
			return "the seat is " + f("Seat").String()
		}
		ok := false
		for _, i := range p.q.found(pPlayers, pp, x) {
			el, et := r.elem(p.ct.st, "State.Players", i)
			ch := e.at(p.ct.st, el, et, "Chips")
			ok = ok || p.q.same(f("RedeemChips"), ch) && p.q.positive(ch) == 1
		}
		if !ok {
			return "the chips may not be the player's own or none (" + f("RedeemChips").String() + ")"
		}
	}
	return ""
}

func ruleC27(c *Ctx) {
	cfg := opCfg()
	cfg.NoGC = true
	cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool {
		return a.name == "regulator.WithRequestTableFn" || a.name == "regulator.WithAssignPlayersFn"
	}
	r := c.op(cfg, "CreateCompetition", nil)
	if r == nil {
		return
	}
	e := r.e
	for _, a := range r.asyncs("regulator.WithRequestTableFn") {
		c.requestedTable(r, a)
	}
	n := 0
	for _, a := range r.asyncs("regulator.WithAssignPlayersFn") {
		ids := a.params[1]
		for _, o := range a.outcomes {
			q := e.q(o.st.facts)
			bad := func(f *Effect, key, msg string, x ...any) {
				if f != nil {
					c.fail("seat:"+key, f.pos, stackStr(f), msg, x...)
				} else {
					c.fail("seat:"+key, a.pos, a.label, msg, x...)
				}
			}
			c.count("obligations", 1)
			var calls []Ev
			for _, f := range flat(o.st.log) {
				switch {
				case f.kind == "invoke" && f.name == "TableManagerBackend.UpdateTablePlayers":
					calls = append(calls, f)
				case mutation(f.Effect):
					bad(f.Effect, "other", "seating players leads to %s", f.name)
				}
			}
			if len(calls) == 0 {
				if !q.isErr(o.err()) || !c.unseatable(r, q, ids, true) {
					bad(nil, "none", "players the regulator assigned are not seated although all are known and have chips, or nothing is reported: %s", r.describe(o))
				}
				continue
			}
			n++
			f := calls[0]
			if len(calls) != 1 || len(f.loops) > 0 || !q.same(f.args[0], a.params[0]) {
				bad(f.Effect, "call", "assigned players are not seated at the table by one call")
				continue
			}
			if why := c.joins(r, q, f.args[1], ids, func(p passCase, x *Term) bool { return false }); why != "" {
				bad(f.Effect, "who", "not exactly the assigned players are seated: %s", why)
			}
			if l := f.args[2]; !emptyList(l) && q.eqInt(e.lenOf(l), 0) != 1 {
				bad(f.Effect, "leave", "players leave when others are assigned (%s)", l)
			}
			if err := e.resErr(f.Effect); o.err() != err && !(q.isNil(err) && q.isNil(o.err())) && !(q.isErr(err) && q.isErr(o.err())) {
				bad(f.Effect, "error", "the table's answer is not passed on to the regulator")
			}
		}
	}
	c.need(n > 0, "players the regulator assigns to a table")
}

// unseatable: one of the named players is known to have no chips, or (unknown)
// not to be registered.
func (c *Ctx) unseatable(r *Run, q *FQ, ids *Term, unknown bool) bool {
	e := r.e
	for _, t := range q.allTerms() {
		if e.pathOf(t) == pPlayers+"[].Chips" && q.positive(t) == -1 {
			return true
		}
	}
	if !unknown {
		return false
	}
	for t, v := range q.f.atoms {
		li := e.exhLoop[t]
		if !v || li == nil {
			continue
		}
		for _, ct := range li.conts {
			for at := range ct.st.facts.atoms {
				if at.op != OEq {
					continue
				}
				for _, k := range at.args {
					if x := e.rootIndex(k); x != nil && x.args[0] == ids && q.absent(pPlayers, pp, k) {
						return true
					}
				}
			}
		}
	}
	return false
}

// rootIndex is the list element t is read from.
func (e *Engine) rootIndex(t *Term) *Term {
	for ; t != nil; t = t.args[0] {
		if t.op == OIndex {
			return t
		}
		if len(t.args) == 0 {
			return nil
		}
	}
	return nil
}

// requestedTable: a table the regulator asks for.
func (c *Ctx) requestedTable(r *Run, a *Async) {
	e := r.e
	ids := a.params[0]
	n, refused := 0, 0
	for _, o := range a.outcomes {
		q := e.q(o.st.facts)
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("new-table:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("new-table:"+key, a.pos, a.label, msg, x...)
			}
		}
		c.count("obligations", 1)
		l := flat(o.st.log)
		var calls []Ev
		for _, f := range l {
			if f.kind == "invoke" && strings.HasPrefix(f.name, "TableManagerBackend.") {
				calls = append(calls, f)
			}
		}
		old, now := r.comp(a.st0, "State.Tables"), r.comp(o.st, "State.Tables")
		if len(calls) == 0 {
			refused++
			if !q.isErr(o.err()) || !c.unseatable(r, q, ids, false) {
				bad(nil, "none", "no table is created although all players have chips, or nothing is reported: %s", r.describe(o))
			}
			for _, f := range l {
				if mutation(f.Effect) {
					bad(f.Effect, "refused", "no table is created but the competition changes (%s)", f.name)
				}
			}
			continue
		}
		f := calls[0]
		if len(calls) != 1 || len(f.loops) > 0 || f.name != "TableManagerBackend.CreateTable" || f.res == nil || f.res.op != OTuple {
			bad(f.Effect, "call", "a table the regulator asks for is not created by one call: %s", r.describe(o))
			continue
		}
		s := f.args[1]
		at := func(p string) *Term { return e.at(o.st, s, s.typ, p) }
		if why := c.joins(r, q, at("JoinPlayers"), ids, func(p passCase, x *Term) bool { return p.q.absent(pPlayers, pp, x) }); why != "" {
			bad(f.Effect, "who", "not exactly the requested players sit at the new table: %s", why)
		}
		if why := r.tableSetting(o.st, q, f.Effect, at("TableID"), nil); why != "" {
			bad(f.Effect, "setting", "the new table is not set up as the competition: %s", why)
		}
		if id := at("TableID"); !strings.Contains(id.String(), "uuid") {
			bad(f.Effect, "id", "the new table may not have an id of its own (%s)", id)
		}
		idx := r.comp(a.st0, "State.BlindState.CurrentLevelIndex")
		vals := []*Term{at("Blind.Level"), at("Blind.Ante"), at("Blind.Dealer"), at("Blind.SB"), at("Blind.BB")}
		if why := r.blindData(o.st, q, idx, vals); why != "" {
			bad(f.Effect, "blind", "the new table does not start with the current blind: %s", why)
		}
		err := e.resErr(f.Effect)
		if q.isErr(err) {
			if !q.isErr(o.err()) {
				bad(f.Effect, "error", "the regulator is not told that the table was not created")
			}
			for _, g := range l {
				if mutation(g.Effect) && g.Effect != f.Effect {
					bad(g.Effect, "failed", "no table was created but the competition changes (%s)", g.name)
				}
			}
			continue
		}
		n++
		if !q.isNil(err) || !q.isNil(o.err()) {
			bad(f.Effect, "unexamined", "the result of creating the table is not examined, or success not reported")
			continue
		}
		tb := f.res.args[0]
		if !q.same(o.ret[0], e.at(o.st, tb, tb.typ, "ID")) {
			bad(f.Effect, "returned", "the regulator is told another table's id (%s)", o.ret[0])
		}
		base, el := e.listElems(o.st, now)
		if base != old || len(el) != 1 || !q.same(el[0], tb) {
			bad(f.Effect, "kept", "the new table is not added to the competition's tables (%s)", now)
		}
		told, upd, set := 0, 0, false
		for _, g := range l {
			switch {
			case g.kind == "store" && g.name == "CompetitionState.Tables":
				set = true
			case g.kind == "store" && (strings.HasPrefix(g.name, "CompetitionPlayer.") || strings.HasPrefix(g.name, "CompetitionState.") || strings.HasPrefix(g.name, "Statistic.")):
				bad(g.Effect, "other", "creating a table changes %s", g.name)
			case g.kind == "callback" && g.name == "OnCompetitionStateUpdated" && set && q.sameStr(g.args[0], c.k("CompetitionStateEvent_TableUpdated")):
				told++
			case g.kind == "callback" && g.name == "OnCompetitionUpdated" && set:
				upd++
			}
		}
		if told != 1 || upd == 0 {
			bad(f.Effect, "event", "the new table is not announced once after it was added (%d, %d)", told, upd)
		}
	}
	c.need(n > 0 && refused > 0, "tables the regulator asks for (%d, %d)", n, refused)
}
