package main

import (
	"go/types"
)

// ---- C45: creating a competition ----

func ruleC45(c *Ctx) {
	cfg := opCfg()
	cfg.NoGC = true
	cfg.NoAsync = true
	r := c.op(cfg, "CreateCompetition", nil)
	if r == nil {
		return
	}
	e := r.e
	set := func(p string) *Term { return r.arg0(r.st0, 0, p) }
	maxSeats := set("Meta.TableMaxSeatCount")
	tooMany := func(q *FQ) bool {
		// some listed table has more players than seats
		for t := range q.f.iv {
			for _, l := range q.e.lensIn(t) {
				if e.pathOf(l.args[0]) == e.pathOf(set("TableSettings"))+"[].JoinPlayers" && q.lessT(maxSeats, l) == 1 {
					return true
				}
			}
		}
		return false
	}
	noneTooMany := func(q *FQ) bool {
		return q.allPass(set("TableSettings"), func(p passCase) int {
			return not3(p.q.lessT(maxSeats, e.lenOf(p.f(e, "JoinPlayers"))))
		})
	}
	late := func(q *FQ, p string) int { return q.passedNow(set(p)) }
	c.reasons(r, "refusal", true, map[string]reasonFn{"ErrCompetitionInvalidCreateSetting": func(q *FQ) bool {
		return and3(not3(q.eqInt(set("StartAt"), unset)), late(q, "StartAt")) == 1 || late(q, "DisableAt") == 1 || tooMany(q)
	}})
	c.quietRejections(r, "refusal-effect")
	c.gate(r, r.muts(), "gate", "a setting whose times have not passed and whose tables have enough seats", func(q *FQ, s *Site) bool {
		return or3(q.eqInt(set("StartAt"), unset), not3(late(q, "StartAt"))) == 1 && late(q, "DisableAt") == -1 && noneTooMany(q)
	})
	done := map[string]int{}
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		l := flat(o.st.log)
		v := vc{c, r, o, q, "created", "created"}
		bad := func(key, msg string, x ...any) { c.fail("created:"+key, r.fn.Pos(), r.name, msg, x...) }
		if f := evs(o.st.log, "invoke:Blind.ApplyOptions"); len(f) > 0 {
			if len(f) != 1 || len(f[0].loops) > 0 {
				bad("blind", "the blind clock is set up %d times", len(f))
			} else if why := r.blindOptions(o, f[0].Effect); why != "" {
				bad("blind", "the blind clock is not set up as the competition's blind: %s", why)
			}
		}
		mode := ""
		for _, m := range []string{"ct", "cash", "mtt"} {
			if q.termIn(set("Meta.Mode"), m) == 1 {
				mode = m
			}
		}
		// tables
		tables := r.comp(o.st, "State.Tables")
		calls := evs(o.st.log, "invoke:TableManagerBackend.*")
		if r.succeeded(o) {
			c.count("obligations", 1)
			done[mode]++
			if o.ret[0].op != OAlloc || !q.same(o.ret[0], r.theComp(o.st)) {
				bad("returned", "what is returned is not the fresh competition of the engine")
				continue
			}
			v.eq("ID", r.comp(o.st, "ID"), set("CompetitionID"))
			ms := c.w.fieldVar(c.w.root, "CompetitionSetting", "Meta").Type().Underlying().(*types.Struct)
			for i := 0; i < ms.NumFields(); i++ {
				n := ms.Field(i).Name()
				if _, isStruct := ms.Field(i).Type().Underlying().(*types.Struct); isStruct {
					sub := ms.Field(i).Type().Underlying().(*types.Struct)
					for j := 0; j < sub.NumFields(); j++ {
						v.eq("Meta."+n+"."+sub.Field(j).Name(), r.comp(o.st, "Meta."+n+"."+sub.Field(j).Name()), set("Meta."+n+"."+sub.Field(j).Name()))
					}
					continue
				}
				v.eq("Meta."+n, r.comp(o.st, "Meta."+n), set("Meta."+n))
			}
			v.eq("DisableAt", r.comp(o.st, "State.DisableAt"), set("DisableAt"))
			v.eq("StartAt", r.comp(o.st, "State.StartAt"), set("StartAt"))
			if at := r.comp(o.st, "State.OpenAt"); !isNow(at) {
				v.bad("OpenAt", at, "now")
			}
			v.eqInt("EndAt", r.comp(o.st, "State.EndAt"), unset)
			v.eqInt("the number of players", e.lenOf(r.comp(o.st, "State.Players")), 0)
			v.eqInt("the number of rankings", e.lenOf(r.comp(o.st, "State.Rankings")), 0)
			if s := r.comp(o.st, "State.Status"); !q.sameStr(s, c.k("CompetitionStateStatus_Registering")) {
				v.bad("Status", s, "registering")
			}
			v.eq("BlindState.FinalBuyInLevelIndex", r.comp(o.st, "State.BlindState.FinalBuyInLevelIndex"), set("Meta.Blind.FinalBuyInLevelIndex"))
			v.eqInt("BlindState.CurrentLevelIndex", r.comp(o.st, "State.BlindState.CurrentLevelIndex"), unset)
			if s := r.comp(o.st, "State.AdvanceState.Status"); !q.sameStr(s, c.k("CompetitionAdvanceStatus_NotStart")) {
				v.bad("AdvanceState.Status", s, "not started")
			}
			v.eqInt("Statistic.TotalBuyInCount", r.comp(o.st, "State.Statistic.TotalBuyInCount"), 0)
			for _, m := range []string{"OnBlindStateUpdated", "OnErrorUpdated"} {
				if n := len(evs(o.st.log, "invoke:Blind."+m)); n != 1 {
					bad("listen:"+m, "%d listeners are given to the blind clock's %s", n, m)
				}
			}
			told := 0
			for _, f := range l {
				if f.kind == "callback" && f.name == "OnCompetitionUpdated" && len(f.loops) == 0 && f.args[0] == o.ret[0] {
					told++
				}
			}
			if told == 0 {
				bad("told", "the created competition is not reported")
			}
		}
		switch mode {
		case "ct", "cash":
			c.createdTables(r, o, bad, tables, set("TableSettings"))
		default:
			if len(calls) > 0 {
				bad("tables-"+mode, "a table is created outside CT and Cash: %s", calls[0].name)
			}
		}
	}
	c.need(done["ct"] > 0 && done["cash"] > 0 && done["mtt"] > 0, "created competitions of all modes")
}

// theComp is the engine's competition.
func (r *Run) theComp(st *State) *Term {
	fv := fieldByType(r.c.engineType(), isCompPtr)
	return r.e.load(st, r.e.tt.Field(r.recv, fv), fv.Type())
}

// lensIn lists the len terms in t.
func (e *Engine) lensIn(t *Term) (r []*Term) {
	if t.op == OLen {
		r = append(r, t)
	}
	for _, a := range t.args {
		r = append(r, e.lensIn(a)...)
	}
	return
}

// allPass: some completed full pass over the list is known to have met only
// elements the predicate accepts.
func (q *FQ) allPass(list *Term, pred func(p passCase) int) bool {
	e := q.e
	for t, v := range q.f.atoms {
		li := e.exhLoop[t]
		if !v || li == nil || !li.full || li.seq != list || len(li.conts) == 0 {
			continue
		}
		ok := true
		for n, ct := range li.conts {
			if q.f.atoms[e.neverAtom(li, n)] {
				continue
			}
			x, et := e.elemOf(li, ct)
			if x == nil || pred(passCase{li: li, ct: ct, x: x, et: et, q: e.q(ct.st.facts)}) != 1 {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// blindOptions compares the options given to the blind clock with the setting.
func (r *Run) blindOptions(o *Outcome, f *Effect) string {
	e := r.e
	q := e.q(o.st.facts)
	opt := f.args[0]
	pt := types.NewPointer(r.c.w.namedType(r.c.w.blind, "BlindOptions"))
	set := func(p string) *Term { return r.arg0(r.st0, 0, p) }
	for _, n := range []string{"ID", "InitialLevel", "FinalBuyInLevelIndex"} {
		if v := e.at(o.st, opt, pt, n); !q.same(v, set("Meta.Blind."+n)) {
			return n + " is " + v.String()
		}
	}
	lv := e.at(o.st, opt, pt, "Levels")
	seq, cs, ok := e.selectOf(lv)
	if !ok || seq != set("Meta.Blind.Levels") {
		return "its levels are not the blind's levels one by one"
	}
	short := r.c.k("CompetitionRule_ShortDeck")
	for _, p := range cs {
		if p.took != 1 {
			return "a level is left out"
		}
		at := func(path string) *Term { return e.at(p.ct.st, p.val, r.c.levelType(), path) }
		bb := p.f(e, "BB")
		for to, from := range map[string]string{"Level": "Level", "Ante": "Ante", "Blind.SB": "SB", "Blind.BB": "BB", "Duration": "Duration"} {
			if v := at(to); !p.q.same(v, p.f(e, from)) {
				return to + " of a level is " + v.String()
			}
		}
		d := at("Blind.Dealer")
		switch p.q.termIn(set("Meta.Rule"), short) {
		case 1:
			if want := e.mulDistribute(bb, e.tt.Sub(set("Meta.Blind.DealerBlindTime"), e.tt.Int(1)), types.Typ[types.Int64]); !p.q.same(d, want) {
				return "the dealer's blind of a short deck level is " + d.String()
			}
		case -1:
			if !p.q.sameInt(d, 0) {
				return "the dealer's blind of a level is " + d.String()
			}
		default:
			return "the dealer's blind does not depend on the rule"
		}
	}
	return ""
}

// createdTables: one full pass creates one table per setting, keeps it, and
// stops at the first failure.
func (c *Ctx) createdTables(r *Run, o *Outcome, bad func(key, msg string, x ...any), tables, settings *Term) {
	e := r.e
	passes := 0
	for _, f := range o.st.log.effects() {
		if f.kind != "loop" {
			if f.kind == "invoke" && f.name == "TableManagerBackend.CreateTable" {
				// the table that failed
				if r.succeeded(o) || !e.q(o.st.facts).isErr(e.resErr(f)) {
					bad("table-outside", "a table is created outside the pass over the settings")
				}
			}
			continue
		}
		li := f.loop
		some := false
		for _, ct := range li.conts {
			some = some || len(evs(ct.log, "invoke:TableManagerBackend.*")) > 0
		}
		if !some {
			continue
		}
		passes++
		if !li.full || li.seq != settings {
			bad("tables", "not exactly the listed tables are created")
			continue
		}
		for _, ct := range li.conts {
			x, et := e.elemOf(li, ct)
			q := e.q(ct.st.facts)
			c.count("obligations", 1)
			tb := evs(ct.log, "invoke:TableManagerBackend.*")
			if len(tb) != 1 || tb[0].name != "TableManagerBackend.CreateTable" || len(tb[0].loops) > 0 {
				bad("table-calls", "a listed table is not created by exactly one call")
				continue
			}
			if why := r.tableSetting(ct.st, q, tb[0].Effect, e.at(ct.st, x, et, "TableID"), e.at(ct.st, x, et, "JoinPlayers")); why != "" {
				bad("table-setting", "a table is not created as listed: %s", why)
			}
			if why := r.blindUnset(ct.st, q, tb[0].args[1]); why != "" {
				bad("table-blind", "a table starts with a blind before the blinds run: %s", why)
			}
			if !q.isNil(e.resErr(tb[0].Effect)) {
				bad("table-error", "the creation goes on although a table may have failed")
			}
		}
	}
	if passes > 1 || r.succeeded(o) && passes == 0 {
		bad("tables", "the listed tables are created in %d passes", passes)
	}
	// what was created is what the competition holds
	if !r.succeeded(o) {
		return
	}
	seq, cs, ok := e.selectOfTo(tables, o.st.facts)
	ok = ok && seq == settings
	for _, p := range cs {
		tb := evs(p.ct.log, "invoke:TableManagerBackend.CreateTable")
		ok = ok && p.took == 1 && len(tb) == 1 && tb[0].res.op == OTuple && p.q.same(p.val, tb[0].res.args[0])
	}
	if !ok {
		bad("table-kept", "the competition's tables are not exactly the created ones")
	}
}

// resErr is the error of a call's results.
func (e *Engine) resErr(f *Effect) *Term {
	if f.res != nil && f.res.op == OTuple {
		return f.res.args[len(f.res.args)-1]
	}
	return f.res
}

// tableSetting compares the arguments of CreateTable with the competition.
func (r *Run) tableSetting(st *State, q *FQ, f *Effect, id, players *Term) string {
	e := r.e
	to := r.c.w.fieldByNamed(r.c.engineType(), "pokertable", "TableEngineOptions")
	if to == nil || !q.same(f.args[0], e.load(st, e.tt.Field(r.recv, to), to.Type())) {
		return "not with the engine's table options"
	}
	s := f.args[1]
	at := func(p string) *Term { return e.at(st, s, s.typ, p) }
	if v := at("TableID"); !q.same(v, id) {
		return "its id is " + v.String()
	}
	if players != nil && !q.same(at("JoinPlayers"), players) {
		return "its players are " + at("JoinPlayers").String()
	}
	for to, from := range map[string]string{"CompetitionID": "ID", "Rule": "Meta.Rule", "Mode": "Meta.Mode", "MaxDuration": "Meta.MaxDuration", "TableMaxSeatCount": "Meta.TableMaxSeatCount",
		"TableMinPlayerCount": "Meta.TableMinPlayerCount", "MinChipUnit": "Meta.MinChipUnit", "ActionTime": "Meta.ActionTime"} {
		if v := at("Meta." + to); !q.same(v, r.comp(st, from)) {
			return to + " is " + v.String()
		}
	}
	return ""
}

func (r *Run) blindUnset(st *State, q *FQ, s *Term) string {
	for n, k := range map[string]int64{"Level": 0, "Ante": unset, "Dealer": unset, "SB": unset, "BB": unset} {
		if v := r.e.at(st, s, s.typ, "Blind."+n); !q.sameInt(v, k) {
			return n + " is " + v.String()
		}
	}
	return ""
}

// fieldByNamed is the field of t that points to the named type.
func (w *World) fieldByNamed(t *types.Named, pkg, name string) *types.Var {
	return fieldByType(t, func(x types.Type) bool { return typeIs(x, pkg, name, true) })
}
