package main

import (
	"go/types"
)

// ---- C24: the blind level reaches the competition and its tables ----

// blindData: the five values are those of the competition's blind level with
// the given index: level, ante, dealer, small and big blind.
func (r *Run) blindData(st *State, q *FQ, idx *Term, vals []*Term) string {
	e := r.e
	c := r.c
	if len(vals) != 5 {
		return "not five values"
	}
	neg := q.lessT(idx, e.tt.Int(0))
	lv := r.comp(st, "Meta.Blind.Levels")
	bt := c.w.fieldVar(c.w.root, "Blind", "Levels").Type().Underlying().(*types.Slice).Elem()
	x := e.indexAddr(lv, idx, bt)
	at := func(n string) *Term {
		if neg == 1 {
			return e.tt.Int(0)
		}
		v := e.load(st, e.tt.Field(x, c.w.fieldVar(c.w.root, "BlindLevel", n)), c.w.fieldVar(c.w.root, "BlindLevel", n).Type())
		return v
	}
	if neg == 0 {
		return "the level index may be unset"
	}
	for i, n := range map[int]string{0: "Level", 1: "Ante", 3: "SB", 4: "BB"} {
		if !q.same(vals[i], at(n)) {
			return n + " is " + vals[i].String()
		}
	}
	d := r.comp(st, "Meta.Blind.DealerBlindTime")
	prod := e.mulDistribute(at("Ante"), e.tt.Sub(d, e.tt.Int(1)), types.Typ[types.Int64])
	switch q.positive(d) {
	case 1:
		if !q.same(vals[2], prod) {
			return "dealer is " + vals[2].String()
		}
	case -1:
		if !q.sameInt(vals[2], 0) {
			return "dealer is " + vals[2].String()
		}
	default:
		if !(neg == 1 && q.sameInt(vals[2], 0)) {
			return "dealer is " + vals[2].String()
		}
	}
	return ""
}

func ruleC24(c *Ctx) {
	r, a := c.blindRun("", []string{"BlindState.FinalBuyInLevelIndex", "BlindState.CurrentLevelIndex", "Status.CurrentLevelIndex", "Blind.DealerBlindTime"},
		"store:BlindState.CurrentLevelIndex", "store:BlindState.FinalBuyInLevelIndex", "store:BlindState.EndAts*", "invoke:TableManagerBackend.UpdateBlind", "callback:OnCompetitionStateUpdated", "callback:OnCompetitionUpdated")
	if r == nil || a == nil {
		return
	}
	e := r.e
	bad := func(f *Effect, key, msg string, x ...any) {
		if f != nil {
			c.fail("level:"+key, f.pos, stackStr(f), msg, x...)
		} else {
			c.fail("level:"+key, a.pos, a.label, msg, x...)
		}
	}
	bs := a.params[0]
	want := e.at(a.st0, bs, bs.typ, "Status.CurrentLevelIndex")
	lists := map[*LoopInfo]bool{}
	n := 0
	for _, o := range a.outcomes {
		q := e.q(o.st.facts)
		if r.ended(a.st0, q) == 1 {
			continue
		}
		n++
		c.count("obligations", 1)
		if got := r.comp(o.st, "State.BlindState.CurrentLevelIndex"); !q.same(got, want) {
			bad(nil, "index", "the competition's blind level is %s after an update to %s", got, want)
		}
		l := flat(o.st.log)
		first := -1
		set := -1
		passes := 0
		var last *LoopInfo
		for i, f := range l {
			switch {
			case f.name == "BlindState.CurrentLevelIndex":
				if set < 0 {
					set = i
				}
			case f.kind == "store":
				bad(f.Effect, "other", "%s changes when the level changes", f.name)
			case f.name == "TableManagerBackend.UpdateBlind":
				if first < 0 {
					first = i
				}
				if len(f.loops) == 0 {
					bad(f.Effect, "loop", "the blind is not updated by a pass over the tables")
					continue
				}
				if li := f.loops[len(f.loops)-1]; li != last {
					last = li
					passes++
					lists[li] = true
				}
			}
		}
		if set < 0 || first >= 0 && first < set {
			bad(nil, "order", "the tables' blind is updated before the competition's level")
		}
		if passes != 1 {
			bad(nil, "passes", "a level change updates the tables' blind %d times instead of once", passes)
		}
		ev := 0
		for i, f := range l {
			if i > set && f.kind == "callback" && f.name == "OnCompetitionStateUpdated" && len(f.loops) == 0 {
				if s, ok := f.args[0].strVal(); ok && s == c.k("CompetitionStateEvent_BlindUpdated") {
					ev |= 1
				}
			}
			if i > set && f.kind == "callback" && f.name == "OnCompetitionUpdated" && len(f.loops) == 0 {
				ev |= 2
			}
		}
		if ev != 3 {
			bad(nil, "event", "a level change is not announced (BlindUpdated and competition event): %s", r.describe(o))
		}
	}
	for li := range lists {
		if !li.full || li.breaks > 0 || e.pathOf(li.seq) != pTables {
			c.fail("level:partial", a.pos, a.label, "the blind is not updated on every table of the competition")
			continue
		}
		for _, ct := range li.conts {
			c.count("obligations", 1)
			x, et := e.elemOf(li, ct)
			q := e.q(ct.st.facts)
			ub := evs(ct.log, "invoke:TableManagerBackend.UpdateBlind")
			if len(ub) != 1 || len(ub[0].loops) > 0 {
				c.fail("level:count", a.pos, a.label, "a level change updates a table's blind %d times instead of once", len(ub))
				continue
			}
			f := ub[0]
			if !q.same(f.args[0], e.at(ct.st, x, et, "ID")) {
				bad(f.Effect, "table", "the blind of table %s is updated instead of the visited one", f.args[0])
			}
			if why := r.blindData(ct.st, q, want, f.args[1:]); why != "" {
				bad(f.Effect, "values", "a table's blind is not that of the new level: %s", why)
			}
		}
	}
	c.need(n > 0 && len(lists) > 0, "level changes")
	c.count("level changes", n)
	// activation
	for _, m := range []string{"ct", "cash", "mtt"} {
		cfg := opCfg()
		cfg.NoAsync = true
		cfg.MaxStates = 60000
		var x *Run
		if m == "mtt" {
			x, _ = c.buyIn()
		} else {
			x = c.updateTable(cfg, m, "table_created")
		}
		if x != nil {
			c.activation(x)
		}
	}
}

func (c *Ctx) activation(r *Run) {
	e := r.e
	stopped, delayed := c.k("CompetitionStateStatus_StoppedBuyIn"), c.k("CompetitionStateStatus_DelayedBuyIn")
	n := 0
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		l := flat(o.st.log)
		is := evIdx(l, "invoke:Blind.Start")
		if len(is) == 0 || l[is[0]].res == nil || l[is[0]].res.op != OTuple || !q.same(l[is[0]].res.args[1], e.tt.Nil()) {
			continue
		}
		n++
		c.count("obligations", 1)
		b := l[is[0]]
		bad := func(key, msg string, x ...any) { c.fail("activate:"+key, b.pos, stackStr(b.Effect), msg, x...) }
		bs := b.res.args[0]
		bt := b.inst.(interface{ Type() types.Type }).Type().(*types.Tuple).At(0).Type()
		for _, x := range [][2]string{{"State.BlindState.CurrentLevelIndex", "Status.CurrentLevelIndex"}, {"State.BlindState.FinalBuyInLevelIndex", "Status.FinalBuyInLevelIndex"}} {
			if got := r.comp(o.st, x[0]); !q.same(got, e.at(o.st, bs, bt, x[1])) {
				bad(x[1], "after the blind clock starts %s is %s", x[0], got)
			}
		}
		src := e.at(o.st, bs, bt, "Status.LevelEndAts")
		dst := r.comp(r.st0, "State.BlindState.EndAts")
		ok := false
		for _, f := range l[is[0]:] {
			if f.kind == "copy" && f.args[0] == dst && f.args[1] == src && len(f.loops) == 0 {
				ok = true
			}
			if f.kind == "store" && f.addr != nil && f.addr.op == OIndex && f.addr.args[0] == dst && f.cont != nil {
				li := f.loops[len(f.loops)-1]
				w := e.indexAddr(src, f.addr.args[1], types.Typ[types.Int64])
				ok = ok || li.full && li.breaks == 0 && len(li.conts) == 1 && li.idx == f.addr.args[1] && (li.seq == dst || li.seq == src) && f.val != nil && (f.val == w || f.val.op == OInit && f.val.args[0] == w)
			}
		}
		if now := r.comp(o.st, "State.BlindState.EndAts"); now != dst {
			base, el := e.listElems(o.st, now)
			ok = now == src || base == nil && len(el) == 1 && el[0].op == OSpread && el[0].args[0] == src
		}
		if !ok {
			bad("ends", "the end times of the levels are not taken over from the blind clock")
		}
		fin := r.comp(r.st0, "Meta.Blind.FinalBuyInLevelIndex")
		got := r.comp(o.st, "State.Status")
		switch q.eqInt(fin, unset) {
		case 1:
			if !q.sameStr(got, stopped) {
				bad("status", "without re-buy levels the started competition is %s", got)
			}
		case -1:
			if !q.sameStr(got, delayed) && !(q.lessT(fin, e.tt.Int(c.kInt("NoStopBuyInIndex"))) == 1 && q.sameStr(got, stopped)) {
				bad("status", "the started competition is %s instead of open for late buy-in", got)
			}
		default:
			bad("status", "the status after the start does not depend on the last buy-in level")
		}
		ev := false
		for _, f := range l[is[0]:] {
			if f.kind == "callback" && f.name == "OnCompetitionStateUpdated" {
				if s, ok := f.args[0].strVal(); ok && s == c.k("CompetitionStateEvent_BlindActivated") {
					ev = true
				}
			}
		}
		if !ev {
			bad("event", "the start of the blind clock is not announced")
		}
	}
	c.need(n > 0, "starts of the blind clock in %s", r.name)
	c.count("blind starts", n)
}

// ---- C18: the derived readings ----

func (c *Ctx) getter(typ, method string, setup setupFn) *Run {
	return c.run(c.newEngine(opCfg()), c.w.namedType(c.w.root, typ), method, setup)
}

func ruleC18(c *Ctx) {
	each := func(r *Run, f func(o *Outcome, q *FQ, bad func(msg string, x ...any))) {
		if r == nil {
			return
		}
		if !c.need(len(r.outs) > 0, "results of %s", r.name) {
			return
		}
		for _, o := range r.outs {
			c.count("obligations", 1)
			f(o, r.e.q(o.st.facts), func(msg string, x ...any) {
				c.fail("reading:"+r.fn.Name(), r.fn.Pos(), r.name, msg, x...)
			})
		}
	}
	// buy-in over
	if r := c.getter("BlindState", "IsStopBuyIn", nil); r != nil {
		fin, cur := r.e.at(r.st0, r.recv, r.recv.typ, "FinalBuyInLevelIndex"), r.e.at(r.st0, r.recv, r.recv.typ, "CurrentLevelIndex")
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			if !q.iff(o.ret[0], func(q *FQ) int {
				no, un := q.eqInt(fin, c.kInt("NoStopBuyInIndex")), q.eqInt(fin, unset)
				return or3(un, and3(not3(no), q.lessT(fin, cur)))
			}) {
				bad("the buy-in counts as over (%s) although the level index and the last buy-in level say otherwise: %s", o.ret[0], r.describe(o))
			}
		})
	}
	// current level
	lvl := func(r *Run, st *State, n string) *Term {
		bt := c.w.fieldVar(c.w.root, "Blind", "Levels").Type().Underlying().(*types.Slice).Elem()
		fv := c.w.fieldVar(c.w.root, "BlindLevel", n)
		return r.e.load(st, r.e.tt.Field(r.e.indexAddr(r.comp(st, "Meta.Blind.Levels"), r.comp(st, "State.BlindState.CurrentLevelIndex"), bt), fv), fv.Type())
	}
	if r := c.getter("Competition", "CurrentBlindLevel", nil); r != nil {
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			neg := q.lessT(r.comp(r.st0, "State.BlindState.CurrentLevelIndex"), r.e.tt.Int(0))
			for _, n := range []string{"Level", "Ante", "SB", "BB", "AllowAddon", "Duration"} {
				got := r.e.at(o.st, o.ret[0], c.w.namedType(c.w.root, "BlindLevel"), n)
				if n == "AllowAddon" {
					if neg == 1 && !q.sameBool(got, false) || neg != 1 && got != lvl(r, o.st, n) {
						bad("%s of the current level is %s", n, got)
					}
					continue
				}
				if neg == 1 && !q.sameInt(got, 0) || neg == -1 && !q.same(got, lvl(r, o.st, n)) || neg == 0 {
					bad("%s of the current level is %s", n, got)
				}
			}
		})
	}
	if r := c.getter("Competition", "CurrentBlindData", nil); r != nil {
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			if why := r.blindData(o.st, q, r.comp(r.st0, "State.BlindState.CurrentLevelIndex"), o.ret); why != "" {
				bad("the blind data is not that of the current level: %s", why)
			}
		})
	}
	if r := c.getter("Competition", "IsBreaking", nil); r != nil {
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			if !q.iff(o.ret[0], func(q *FQ) int {
				neg := q.lessT(r.comp(r.st0, "State.BlindState.CurrentLevelIndex"), r.e.tt.Int(0))
				return and3(not3(neg), q.eqInt(lvl(r, o.st, "Level"), -1))
			}) {
				bad("the break reading %s does not follow the current level: %s", o.ret[0], r.describe(o))
			}
		})
	}
	if r := c.getter("Competition", "IsModeCTorMTT", nil); r != nil {
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			if !q.iff(o.ret[0], func(q *FQ) int { return q.termIn(r.comp(r.st0, "Meta.Mode"), "ct", "mtt") }) {
				bad("CT-or-MTT is %s: %s", o.ret[0], r.describe(o))
			}
		})
	}
	// counts
	if r := c.getter("Competition", "PlayingPlayerCount", nil); r != nil {
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			if !r.chipHolders(o.ret[0]) {
				bad("it is not the number of players with chips: %s", o.ret[0])
			}
		})
	}
	if r := c.getter("Competition", "GetPlayerCountByStatus", nil); r != nil {
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			seq, cs, ok := r.e.countOf(o.ret[0])
			if !ok || r.e.pathOf(seq) != pPlayers || !exactly(cs, func(p passCase) int {
				return r.e.eqVal(p.q.f, p.f(r.e, "Status"), r.args[0])
			}) {
				bad("it is not the number of players with that status: %s", o.ret[0])
			}
		})
	}
	if r := c.getter("Competition", "GetPlayerIndexMap", nil); r != nil {
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			m := o.ret[0]
			if !r.e.indexMapOf(m, pPlayers, "PlayerID") && !r.e.indexMapOf(r.e.load(o.st, r.e.tt.MapC(m, m.typ), m.typ), pPlayers, "PlayerID") {
				bad("it does not map every player's id to the index: %s", m)
			}
		})
	}
	if r := c.getter("Competition", "IsTableExist", nil); r != nil {
		each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
			switch {
			case q.sameBool(o.ret[0], true):
				if len(q.found(pTables, "ID", r.args[0])) == 0 {
					bad("a table is reported that was not found")
				}
			case q.sameBool(o.ret[0], false):
				if !q.absent(pTables, "ID", r.args[0]) {
					bad("a table is reported missing although not all tables were looked at")
				}
			default:
				bad("the result cannot be decided: %s", o.ret[0])
			}
		})
	}
	for _, m := range [][2]string{{"FindTableIdx", pTables}, {"FindPlayerIdx", pPlayers}} {
		if r := c.getter("Competition", m[0], nil); r != nil {
			each(r, func(o *Outcome, q *FQ, bad func(string, ...any)) {
				if o.ret[0].op == OConst {
					ok := q.sameInt(o.ret[0], unset)
					n := 0
					for _, f := range evs(o.st.log, "callback:p1") {
						if f.cont == nil {
							ok = false
							continue
						}
						n++
						li := f.loops[len(f.loops)-1]
						ok = ok && li.full && r.e.pathOf(li.seq) == m[1]
						for _, ct := range li.conts {
							x, _ := r.e.elemOf(li, ct)
							no := false
							for _, g := range evs(ct.log, "callback:p1") {
								no = no || g.args[0] == x && r.e.q(ct.st.facts).fails(g.res)
							}
							ok = ok && no
						}
					}
					if !ok || n == 0 {
						bad("nothing is reported although an entry may match: %s", r.describe(o))
					}
					return
				}
				ok := false
				for _, f := range evs(o.st.log, "callback:p1") {
					ok = f.cont == nil && q.holds(f.res) && r.e.pathOf(f.args[0]) == m[1]+"[]" && q.same(r.e.idxOf(f.args[0], m[1]), o.ret[0])
				}
				if !ok {
					bad("an index is reported whose entry may not match: %s", o.ret[0])
				}
			})
		}
	}
}
