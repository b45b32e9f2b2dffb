package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C09: refusals change nothing ----

var refusingOps = []string{"PlayerBuyIn", "PlayerAddon", "PlayerRefund", "PlayerCashOut", "PlayerQuit", "StartCompetition", "CreateCompetition", "UpdateCompetitionBlindInitialLevel", "AutoGameOpenEnd"}

func ruleC09(c *Ctx) {
	for _, m := range refusingOps {
		cfg := opCfg()
		cfg.NoAsync = true
		r := c.op(cfg, m, nil)
		if r == nil {
			continue
		}
		c.quietRejections(r, "refusal")
		if m != "UpdateCompetitionBlindInitialLevel" {
			continue
		}
		open := c.k("CompetitionStateStatus_Registering")
		c.gate(r, r.muts(), "initial-level", "a competition that is still registering", func(q *FQ, s *Site) bool {
			return q.is("C.State.Status", nil, open)
		})
		n := 0
		for _, o := range r.outs {
			q := r.e.q(o.st.facts)
			up := evs(o.st.log, "invoke:Blind.UpdateInitialLevel")
			if q.isnt("C.State.Status", nil, open) {
				if x := r.errTerm("ErrCompetitionUpdateBlindInitialLevelRejected"); o.err() != x {
					c.fail("initial-level:error", r.fn.Pos(), r.name, "not refused after registration: %s", r.describe(o))
				}
				continue
			}
			n++
			c.count("obligations", 1)
			if len(up) != 1 || up[0].args[0] != r.args[0] || o.err() != up[0].res {
				c.fail("initial-level:forward", r.fn.Pos(), r.name, "while registering the level is not passed on to the blind exactly once with its answer returned")
			}
		}
		c.need(n > 0, "accepted initial level updates")
	}
}

// ---- C10: ended competitions stay ended ----

var corePats = []string{"store:CompetitionState.Status", "store:CompetitionState.Rankings", "store:CompetitionState.EndAt", "store:CompetitionState.StartAt", "store:CompetitionRank.*",
	"invoke:TableManagerBackend.SetUpTableGame", "invoke:TableManagerBackend.StartTableGame", "invoke:TableManagerBackend.UpdateBlind", "invoke:Blind.Start"}

func ruleC10(c *Ctx) {
	ends := c.ends()
	// no operation
	for _, m := range []string{"StartCompetition", "CloseCompetition", "UpdateTable", "AutoGameOpenEnd", "PlayerBuyIn", "UpdateCompetitionBlindInitialLevel"} {
		cfg := siteCfg([]string{"CompetitionState.Status"}, "*:*")
		cfg.NoAsync = true
		r := c.op(cfg, m, func(r *Run, st *State) { r.assumeIn(st, "State.Status", true, ends...) })
		if r == nil {
			continue
		}
		c.count("obligations", 1)
		for _, s := range r.e.sites {
			if mutation(s.eff) {
				c.fail("ended:"+s.eff.kind+":"+s.eff.name, s.eff.pos, r.name, "%s %s happens on a competition that has ended", s.eff.kind, s.eff.name)
			}
		}
	}
	for _, m := range []string{"PlayerAddon", "PlayerRefund", "PlayerCashOut", "PlayerQuit", "UpdateReserveTablePlayerState", "ReleaseTables"} {
		cfg := siteCfg([]string{"CompetitionState.Status"}, corePats...)
		cfg.NoAsync = true
		r := c.op(cfg, m, func(r *Run, st *State) { r.assumeIn(st, "State.Status", true, ends...) })
		if r == nil {
			continue
		}
		c.count("obligations", 1)
		for _, s := range r.e.sites {
			c.fail("ended:"+s.eff.kind+":"+s.eff.name, s.eff.pos, r.name, "%s %s happens on a competition that has ended", s.eff.kind, s.eff.name)
		}
	}
	// timers and listeners
	n := 0
	for _, m := range []string{"CreateCompetition", "StartCompetition", "UpdateTable", "PlayerBuyIn", "CloseCompetition"} {
		cfg := siteCfg([]string{"CompetitionState.Status", "CompetitionMeta.Mode"}, corePats...)
		var run *Run
		cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool {
			return run.assumeIn(st, "State.Status", true, ends...)
		}
		r := c.op(cfg, m, func(r *Run, st *State) { run = r })
		if r == nil {
			continue
		}
		for _, a := range r.e.asyncs {
			c.count("obligations", 1)
			n++
			for _, s := range r.e.sites {
				if s.entry == a.label {
					c.fail("ended:later:"+s.eff.kind+":"+s.eff.name, s.eff.pos, strings.Join(s.stack, " → "), "%s %s happens in a timer or listener (%s) after the competition has ended", s.eff.kind, s.eff.name, a.label)
				}
			}
		}
	}
	c.need(n >= 6, "timers and listeners (%d)", n)
	c.count("timers and listeners", n)
}

// ---- C11: starting once ----

// raisedFlag finds the engine flag that is down on entry and up afterwards on
// every accepting path, and is never lowered anywhere.
func (c *Ctx) raisedFlag(r *Run) *types.Var {
	eng := c.engineType()
	s := eng.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		fv := s.Field(i)
		if !isBoolType(fv.Type()) {
			continue
		}
		ad := r.e.tt.Field(r.recv, fv)
		ok, n := true, 0
		for _, o := range r.outs {
			if !r.succeeded(o) {
				continue
			}
			n++
			q := r.e.q(o.st.facts)
			if !q.fails(r.e.load(r.st0, ad, fv.Type())) || !q.sameBool(r.e.load(o.st, ad, fv.Type()), true) {
				ok = false
			}
		}
		if ok && n > 0 {
			return fv
		}
	}
	return nil
}

// neverLowered: no store anywhere writes anything but true to the field.
func (c *Ctx) neverLowered(fv *types.Var, key string) {
	n := 0
	for _, fn := range c.w.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) != fv {
					continue
				}
				if al, ok := fa.X.(*ssa.Alloc); ok && al.Heap {
					continue // a literal under construction
				}
				n++
				c.count("flag writes", 1)
				k, ok := st.Val.(*ssa.Const)
				if !ok || k.Value == nil || !constant.BoolVal(k.Value) {
					c.fail(key, st.Pos(), fn.String(), "%s may be taken back, so the step it records could happen again", fv.Name())
				}
			}
		}
	}
	c.need(n > 0, "writes of %s", fv.Name())
}

func fieldOf(fa *ssa.FieldAddr) *types.Var {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return s.Field(fa.Field)
}

func (c *Ctx) startRun() (*Run, *types.Var) {
	r := c.op(opCfg(), "StartCompetition", nil)
	if r == nil {
		return nil, nil
	}
	f := c.raisedFlag(r)
	if !c.need(f != nil, "the flag that records that the competition was started") {
		return nil, nil
	}
	return r, f
}

func (r *Run) ended(st *State, q *FQ) int { return q.termIn(r.comp(st, "State.Status"), r.c.ends()...) }

func timerAt(a *Async) *Term {
	if len(a.args) > 1 && a.args[1] != nil && a.args[1].op == OCall && a.args[1].name == "time.Time" {
		return a.args[1].args[0]
	}
	return nil
}

func (r *Run) asyncs(name string) []*Async {
	var l []*Async
	for _, a := range r.e.asyncs {
		if strings.HasPrefix(a.name, name) {
			l = append(l, a)
		}
	}
	return l
}

var handStatuses = []string{"table_game_opened", "table_game_playing", "table_game_settled", "table_closed"}

func ruleC11(c *Ctx) {
	r, flag := c.startRun()
	if r == nil {
		return
	}
	e := r.e
	fa := e.tt.Field(r.recv, flag)
	down := e.load(r.st0, fa, flag.Type())
	c.neverLowered(flag, "once:lowered")
	c.gate(r, r.muts(), "once", "a competition that was not started before and has not ended", func(q *FQ, s *Site) bool {
		return q.fails(down) && r.ended(r.st0, q) == -1
	})
	c.reasons(r, "refusal", true, map[string]reasonFn{
		"ErrCompetitionStartRejected": func(q *FQ) bool { return q.holds(down) || r.ended(r.st0, q) == 1 },
	})
	ct, mtt := 0, 0
	for _, o := range r.outs {
		if r.failed(o) && !r.envErr(o) {
			continue
		}
		q := e.q(o.st.facts)
		v := vc{c, r, o, q, "start", "started"}
		at := r.comp(o.st, "State.StartAt")
		if !isNow(at) {
			v.bad("StartAt", at, "the current time")
		}
		if len(o.ret) > 0 {
			v.eq("returned start time", o.ret[0], at)
		}
		end := r.comp(o.st, "State.EndAt")
		tm := evs(o.st.log, "ext:timebank.*")
		switch {
		case q.mode("ct"):
			ct++
			want := e.tt.Add(at, r.comp(r.st0, "Meta.MaxDuration"))
			v.eq("EndAt", end, want)
			n := 0
			for _, f := range tm {
				if len(f.args) > 1 && f.args[1].op == OCall && f.args[1].name == "time.Time" && q.same(f.args[1].args[0], want) {
					n++
				} else if f.name != "timebank.NewTimeBank" {
					c.fail("start:timer", f.pos, r.name, "a timer of a started CT competition is not set to start time + duration: %s", sprint(f.args))
				}
			}
			c.count("obligations", 1)
			if n != 1 {
				c.fail("start:timers", r.fn.Pos(), r.name, "a started CT competition has %d end timers instead of one: %s", n, r.describe(o))
			}
		case q.mode("mtt"):
			mtt++
			v.eqInt("EndAt", end, unset)
		case q.notMode("ct", "mtt"):
			v.eq("EndAt", end, r.comp(r.st0, "State.EndAt"))
		default:
			v.bad("EndAt", end, "an end time chosen by the mode")
		}
	}
	c.need(ct > 0 && mtt > 0, "CT and MTT starts")
	// the end timer
	n := 0
	for _, a := range r.asyncs("timebank.") {
		for _, o := range a.outcomes {
			n++
			q := e.q(o.st.facts)
			c.count("obligations", 1)
			cl := evs(o.st.log, "*:*")
			closes := 0
			st := r.table0(a.st0, "State.Status")
			some := r.lenOf(a.st0, "State.Tables")
			cancelled := a.params[0]
			may := q.fails(cancelled) && r.ended(a.st0, q) == -1 && q.e.ivOf(q.f, some).lo >= 1 && q.termIn(st, handStatuses...) == -1
			mustNot := q.holds(cancelled) || r.ended(a.st0, q) == 1 || q.e.ivOf(q.f, some).hi <= 0 || q.termIn(st, handStatuses...) == 1
			for _, f := range cl {
				if !mutation(f.Effect) || f.kind == "callback" && f.name == "OnCompetitionErrorUpdated" {
					continue
				}
				if f.name != "TableManagerBackend.CloseTable" {
					c.fail("end-timer:"+f.kind+":"+f.name, f.pos, r.name, "the end timer does more than closing the table: %s", f.name)
					continue
				}
				closes++
				if !may {
					c.fail("end-timer:gate", f.pos, r.name, "the end timer closes the table although it may be cancelled, the competition ended, the table gone or in a hand")
				}
				if !q.same(f.args[0], r.table0(a.st0, "ID")) {
					c.fail("end-timer:table", f.pos, r.name, "the end timer closes %s instead of the competition's table", f.args[0])
				}
			}
			if closes > 1 || closes == 0 && !mustNot {
				c.fail("end-timer:closes", a.pos, r.name, "when the end time is reached between hands the table is closed %d times instead of once", closes)
			}
		}
	}
	c.need(n > 0, "the end timer")
	c.count("end timer paths", n)
}

func (r *Run) lenOf(st *State, path string) *Term { return r.e.lenOf(r.comp(st, path)) }

// ---- C12: automatic start ----

// updateTable analyses a table update in the given mode and table status.
func (c *Ctx) updateTable(cfg *Config, mode, status string) *Run {
	return c.op(cfg, "UpdateTable", func(r *Run, st *State) {
		if mode != "" {
			r.assumeStr(st, "Meta.Mode", mode)
		}
		if status != "" {
			if !r.e.assume(st.facts, r.e.tt.Eq(r.arg0(st, 0, "State.Status"), r.e.tt.Str(status), types.Typ[types.String]), true) {
				r.e.abort("contradictory setup")
			}
		}
	})
}

func readyPlayer(e *Engine) func(p passCase) int {
	return func(p passCase) int {
		in := e.eval(p.q.f, p.f(e, "IsIn"))
		pos := e.eval(p.q.f, e.tt.Less(e.tt.Int(0), p.f(e, "Bankroll"), types.Typ[types.Int64]))
		return and3(in, pos)
	}
}

func and3(a, b int) int {
	if a == -1 || b == -1 {
		return -1
	}
	if a == 1 && b == 1 {
		return 1
	}
	return 0
}
func or3(a, b int) int { return -and3(-a, -b) }

// readyEnough: the number of ready players of all tables against the minimum:
// 1 enough, -1 too few, 0 not established.
func (r *Run) readyEnough(q *FQ) int {
	min := r.comp(r.st0, "Meta.MinPlayerCount")
	for _, t := range q.summaries() {
		if r.e.nestedLeft(t, min, pTables, pTables+"[].State.PlayerStates", readyPlayer(r.e)) {
			if v := q.positive(t); v != 0 {
				return -v
			}
		}
		if !r.e.nestedCount(t, pTables, pTables+"[].State.PlayerStates", readyPlayer(r.e)) {
			continue
		}
		if q.geT(t, min) {
			return 1
		}
		if q.lt(t, min) {
			return -1
		}
	}
	return 0
}

func evIdx(l []Ev, pats ...string) []int {
	var r []int
	for i, f := range l {
		if selects(pats, f.Effect) {
			r = append(r, i)
		}
	}
	return r
}

func ruleC12(c *Ctx) {
	reg := c.k("CompetitionStateStatus_Registering")
	for _, mode := range []string{"ct", "cash", "mtt"} {
		cfg := opCfg()
		cfg.NoAsync = true
		cfg.MaxStates = 60000
		r := c.updateTable(cfg, mode, "table_created")
		if r == nil {
			continue
		}
		e := r.e
		startAt := r.comp(r.st0, "State.StartAt")
		started := 0
		for _, o := range r.outs {
			q := e.q(o.st.facts)
			l := flat(o.st.log)
			c.count("obligations", 1)
			status := q.termIn(r.comp(r.st0, "State.Status"), reg)
			ready := r.readyEnough(q)
			time := 1
			if mode == "ct" {
				time = 0
				now := false
				for _, t := range q.terms("now", nil) {
					if q.geT(t, startAt) {
						now = true
					} else if q.lt(t, startAt) && q.lt(e.tt.Int(0), startAt) {
						time = -1
					}
				}
				if now || q.geT(e.tt.Int(0), startAt) {
					time = 1
				}
			}
			st := evIdx(l, "store:CompetitionState.StartAt")
			acts := evIdx(l, "store:CompetitionState.StartAt", "store:CompetitionState.Status", "invoke:Blind.Start", "invoke:TableManagerBackend.*")
			if len(acts) > 0 && !(mode != "mtt" && status == 1 && ready == 1 && time == 1) {
				f := l[acts[0]]
				c.fail("auto-start:gate:"+mode+":"+f.name, f.pos, r.name, "%s %s happens on a created table although the competition is not known to be registering with enough ready players at its start time: %s", f.kind, f.name, r.describe(o))
				continue
			}
			if mode == "mtt" {
				continue
			}
			if len(st) == 0 {
				known := status == -1 || ready == -1 || time == -1
				// another reason not to start: no table, ended, or start refused
				other := r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID"))
				refused := false
				for _, f := range evs(o.st.log, "callback:OnCompetitionErrorUpdated") {
					if len(f.args) > 0 && f.args[len(f.args)-1] == r.errTerm("ErrCompetitionStartRejected") {
						refused = true
					}
				}
				if !known && !other && !refused {
					c.fail("auto-start:missed:"+mode, r.fn.Pos(), r.name, "a registering competition with enough ready players at its start time is not started: %s", r.describe(o))
				}
				continue
			}
			started++
			bs, ub, sg := evIdx(l, "invoke:Blind.Start"), evIdx(l, "invoke:TableManagerBackend.UpdateBlind"), evIdx(l, "invoke:TableManagerBackend.StartTableGame")
			er := evIdx(l, "callback:OnCompetitionErrorUpdated")
			switch {
			case len(st) > 1 || len(bs) > 1 || len(sg) > 1 || len(ub) > 1:
				c.fail("auto-start:twice:"+mode, r.fn.Pos(), r.name, "the start runs a step more than once: %s", r.describe(o))
			case len(bs) == 0:
				// the start itself failed at its timer
				if len(sg)+len(ub) > 0 || len(er) == 0 {
					c.fail("auto-start:no-blind:"+mode, r.fn.Pos(), r.name, "the competition starts but the blind clock is not started, or the failure is not reported: %s", r.describe(o))
				}
			case bs[0] < st[0]:
				c.fail("auto-start:order:"+mode, l[bs[0]].pos, r.name, "the blind clock starts before the competition")
			default:
				b := l[bs[0]]
				be := b.res
				if be != nil && be.op == OTuple {
					be = be.args[1]
				}
				if q.same(be, e.tt.Nil()) {
					tid := r.arg(0, "ID")
					if len(ub) != 1 || len(sg) != 1 || !(bs[0] < ub[0] && ub[0] < sg[0]) {
						c.fail("auto-start:sequence:"+mode, b.pos, r.name, "after the blind clock started, the table's blind is not updated and its first game not opened, once each and in this order: %s", r.describe(o))
					} else if !q.same(l[ub[0]].args[0], tid) || !q.same(l[sg[0]].args[0], tid) {
						c.fail("auto-start:table:"+mode, l[sg[0]].pos, r.name, "the game is not opened on the created table (%s)", l[sg[0]].args[0])
					}
				} else if len(sg)+len(ub) > 0 || len(er) == 0 {
					c.fail("auto-start:after-error:"+mode, b.pos, r.name, "the blind clock failed to start, but the game is opened or the error is not reported: %s", r.describe(o))
				}
			}
		}
		if mode != "mtt" {
			c.need(started > 0, "automatic starts in mode %s", mode)
			c.count("automatic starts "+mode, started)
		}
	}
	c.createTimers()
}

func (c *Ctx) createTimers() {
	r := c.op(opCfg(), "CreateCompetition", nil)
	if r == nil {
		return
	}
	e := r.e
	reg := c.k("CompetitionStateStatus_Registering")
	startAt, disableAt := r.arg(0, "StartAt"), r.arg(0, "DisableAt")
	n, off := 0, 0
	for _, o := range r.outs {
		if !r.succeeded(o) {
			continue
		}
		q := e.q(o.st.facts)
		ns, nd := 0, 0
		for _, f := range evs(o.st.log, "ext:timebank.TimeBank.*") {
			at := f.args[1]
			if at.op == OCall && at.name == "time.Time" {
				at = at.args[0]
			}
			switch at {
			case startAt:
				ns++
				if !q.lt(e.tt.Int(0), startAt) {
					c.fail("create:start-timer", f.pos, r.name, "a start timer is set without a start time")
				}
			case disableAt:
				nd++
			default:
				c.fail("create:timer", f.pos, r.name, "a timer is set at %s", at)
			}
		}
		c.count("obligations", 1)
		if nd != 1 {
			c.fail("create:disable-timer", r.fn.Pos(), r.name, "a created competition has %d timers at its disable time instead of one", nd)
		}
		if ns > 1 || ns == 0 && !q.geT(e.tt.Int(0), startAt) {
			c.fail("create:start-timers", r.fn.Pos(), r.name, "a created competition with a start time has %d start timers instead of one", ns)
		}
	}
	for _, a := range r.asyncs("timebank.") {
		at := timerAt(a)
		if at == nil {
			continue
		}
		for _, o := range a.outcomes {
			q := e.q(o.st.facts)
			cancelled := a.params[0]
			open := q.termIn(r.comp(a.st0, "State.Status"), reg)
			l := evs(o.st.log, "store:CompetitionState.*", "invoke:*")
			var first *Effect
			for _, f := range l {
				if mutation(f.Effect) {
					first = f.Effect
					break
				}
			}
			c.count("obligations", 1)
			switch at {
			case startAt:
				n++
				st := evs(o.st.log, "store:CompetitionState.StartAt")
				if first != nil && !(q.fails(cancelled) && open == 1) {
					c.fail("start-timer:gate", first.pos, a.label, "the start timer acts (%s) although the competition is not registering or the timer was cancelled", first.name)
				}
				if len(st) == 0 && q.fails(cancelled) && open != -1 && !r.startRefused(q, a.st0) {
					c.fail("start-timer:missed", a.pos, a.label, "a competition that is still registering at its start time is not started")
				}
			case disableAt:
				off++
				few := -q.e.eval(q.f, e.tt.Less(r.lenOf(a.st0, "State.Players"), r.comp(a.st0, "Meta.MinPlayerCount"), types.Typ[types.Int]))
				may := q.fails(cancelled) && open == 1 && few == -1
				cl := evs(o.st.log, "store:CompetitionState.Status")
				if first != nil && !may {
					c.fail("disable-timer:gate", first.pos, a.label, "the disable timer acts (%s) although the competition is not registering or has enough players", first.name)
				}
				if may {
					if len(cl) != 1 || !q.sameStr(cl[0].val, c.k("CompetitionStateStatus_AutoEnd")) {
						c.fail("disable-timer:missed", a.pos, a.label, "a competition with too few players is not ended automatically at its disable time")
					}
				} else if len(cl) == 0 && q.fails(cancelled) && open != -1 && few != 1 {
					c.fail("disable-timer:undecided", a.pos, a.label, "the disable timer ignores the number of players")
				}
			}
		}
	}
	c.need(n > 0 && off > 0, "start and disable timers")
}

// startRefused: the engine was started before.
func (r *Run) startRefused(q *FQ, st *State) bool {
	eng := r.c.engineType().Underlying().(*types.Struct)
	for i := 0; i < eng.NumFields(); i++ {
		fv := eng.Field(i)
		if isBoolType(fv.Type()) && q.holds(r.e.load(st, r.e.tt.Field(r.recv, fv), fv.Type())) {
			return true
		}
	}
	return false
}
