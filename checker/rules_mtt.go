package main

import (
	"go/types"
)

// ---- C30: when the regulator is set in motion ----

func ruleC30(c *Ctx) {
	sr, flag := c.startRun()
	if sr == nil {
		return
	}
	br, pid := c.buyIn()
	wf := c.waitField()
	if br == nil || !c.need(wf != nil, "the engine's queue of waiting players") {
		return
	}
	for _, r := range []*Run{sr, br} {
		e := r.e
		fl := c.runningFlag(r)
		if !c.need(len(fl) == 1, "the flag that tells the regulator runs (%v)", fl) {
			return
		}
		ff := c.w.structField(c.engineType(), fl[0])
		c.neverLowered(ff, "running:lowered")
		run0 := e.load(r.st0, e.tt.Field(r.recv, ff), ff.Type())
		n := 0
		for _, o := range r.outs {
			if !r.succeeded(o) {
				continue
			}
			q := e.q(o.st.facts)
			ss := evs(o.st.log, "invoke:Regulator.SetStatus")
			add := evs(o.st.log, "invoke:Regulator.AddPlayers")
			bs := evs(o.st.log, "invoke:Blind.Start")
			c.count("obligations", 1)
			if !q.mode("mtt") {
				if !q.notMode("mtt") && len(ss)+len(bs) > 0 {
					c.fail("activate:mode", r.fn.Pos(), r.name, "the regulator or the blind clock is set in motion without looking at the mode")
				}
				for _, f := range append(append(ss, add...), bs...) {
					c.fail("activate:other-mode:"+f.name, f.pos, r.name, "%s is called outside MTT", f.name)
				}
				continue
			}
			started := e.load(o.st, e.tt.Field(r.recv, flag), flag.Type())
			running := e.load(o.st, e.tt.Field(r.recv, ff), ff.Type())
			enough := e.tt.Less(r.lenOf(o.st, "State.Players"), r.comp(o.st, "Meta.MinPlayerCount"), types.Typ[types.Int])
			w0 := e.load(r.st0, e.tt.Field(r.recv, wf), wf.Type())
			w1 := e.load(o.st, e.tt.Field(r.recv, wf), wf.Type())
			may := q.fails(run0) && q.sameBool(started, true) && q.fails(enough)
			mustNot := q.holds(run0) || q.sameBool(started, false) || q.holds(enough)
			if len(ss) == 0 {
				if !mustNot {
					c.fail("activate:missed", r.fn.Pos(), r.name, "the competition started and has its minimum number of players, but the regulator is not set in motion: %s", r.describe(o))
				}
				for _, f := range bs {
					c.fail("activate:blind-without", f.pos, r.name, "the blind clock of an MTT starts without the regulator")
				}
				if q.sameBool(running, true) && !q.holds(run0) {
					c.fail("activate:flag", r.fn.Pos(), r.name, "the regulator counts as running although it was not set in motion")
				}
				continue
			}
			n++
			if !may {
				c.fail("activate:gate", ss[0].pos, r.name, "the regulator is set in motion although it may already run, the competition is not started or has fewer players than its minimum: %s", r.describe(o))
			}
			if len(ss) != 1 || len(ss[0].loops) > 0 || !c.isConst(ss[0].args[0], "CompetitionStatus_Normal") {
				c.fail("activate:status", ss[0].pos, r.name, "the regulator is not set to normal operation exactly once: %s", r.describe(o))
			}
			if !q.sameBool(running, true) {
				c.fail("activate:flag", ss[0].pos, r.name, "the regulator is set in motion but does not count as running afterwards")
			}
			// blind clock: started here unless it runs already
			is := evs(o.st.log, "invoke:Blind.IsStarted")
			switch {
			case len(is) == 0:
				c.fail("activate:blind-unseen", ss[0].pos, r.name, "the regulator is set in motion without looking at whether the blind clock runs")
			case q.holds(is[0].res):
				if len(bs) > 0 {
					c.fail("activate:blind-again", bs[0].pos, r.name, "the blind clock is started although it runs")
				}
			case !q.fails(is[0].res) || len(bs) != 1:
				c.fail("activate:blind", ss[0].pos, r.name, "the blind clock does not run and is started %d times instead of once", len(bs))
			}
			// everybody who waited is handed to the regulator, and nobody else
			var list *Term
			if len(add) == 1 && len(add[0].loops) == 0 {
				list = add[0].list(0)
			}
			base, el := (*Term)(nil), []*Term(nil)
			if list != nil {
				base, el = e.listElems(o.st, list)
			}
			want := []*Term{}
			if r == br {
				want = append(want, pid)
			}
			ok := list != nil && base == w0 && len(el) == len(want)
			for i := range want {
				ok = ok && q.same(el[i], want[i])
			}
			if !ok {
				c.fail("activate:queue", ss[0].pos, r.name, "setting the regulator in motion does not hand it exactly the players that were waiting (%s)", list)
			}
			if !emptyList(w1) && !q.sameInt(e.lenOf(w1), 0) {
				c.fail("activate:queue-kept", ss[0].pos, r.name, "the queue is not emptied when its players are handed to the regulator (%s)", w1)
			}
		}
		c.need(n > 0, "activations in %s", r.name)
		c.count("activations "+r.name, n)
	}
	c.createRegulator()
}

// createRegulator: a created MTT has a regulator configured from the settings.
func (c *Ctx) createRegulator() {
	cfg := opCfg()
	cfg.NoAsync = true
	r := c.op(cfg, "CreateCompetition", nil)
	if r == nil {
		return
	}
	e := r.e
	rf := fieldByType(c.engineType(), func(t types.Type) bool { return typeIs(t, "regulator", "Regulator", false) })
	if !c.need(rf != nil, "the engine's regulator") {
		return
	}
	had := e.load(r.st0, e.tt.Field(r.recv, rf), rf.Type())
	n := 0
	for _, o := range r.outs {
		if !r.succeeded(o) {
			continue
		}
		q := e.q(o.st.facts)
		nr := evs(o.st.log, "ext:regulator.NewRegulator")
		c.count("obligations", 1)
		if !q.is("p1.Meta.Mode", nil, "mtt") {
			for _, f := range nr {
				c.fail("regulator:mode", f.pos, r.name, "a regulator is created outside MTT")
			}
			if !q.isnt("p1.Meta.Mode", nil, "mtt") {
				c.fail("regulator:any-mode", r.fn.Pos(), r.name, "creating a competition does not look at the mode: %s", r.describe(o))
			}
			continue
		}
		if len(nr) == 0 {
			if !q.same(had, e.tt.Nil()) && e.inSet(q.f, had, []*Term{e.tt.Nil()}) == -1 {
				continue
			}
			c.fail("regulator:none", r.fn.Pos(), r.name, "a created MTT has no regulator")
			continue
		}
		n++
		if len(nr) != 1 || len(nr[0].loops) > 0 {
			c.fail("regulator:many", nr[0].pos, r.name, "a created MTT gets several regulators")
		}
		for _, x := range [][2]string{{"MinInitialPlayers", "Meta.RegulatorMinInitialPlayerCount"}, {"MaxPlayersPerTable", "Meta.TableMaxSeatCount"}} {
			l := evs(o.st.log, "ext:regulator."+x[0])
			if len(l) != 1 || !q.same(l[0].args[0], r.arg(0, x[1])) {
				c.fail("regulator:"+x[0], nr[0].pos, r.name, "the regulator of a created MTT is not configured with %s = %s", x[0], x[1])
			}
		}
		for _, x := range []string{"WithRequestTableFn", "WithAssignPlayersFn"} {
			if len(evs(o.st.log, "ext:regulator."+x)) != 1 {
				c.fail("regulator:"+x, nr[0].pos, r.name, "the regulator of a created MTT has no %s handler", x)
			}
		}
		for _, f := range evs(o.st.log, "invoke:Regulator.SetStatus") {
			if !c.isConst(f.args[0], "CompetitionStatus_Pending") {
				c.fail("regulator:status", f.pos, r.name, "a created MTT's regulator is already set in motion")
			}
		}
	}
	c.need(n > 0, "created MTT regulators")
}
