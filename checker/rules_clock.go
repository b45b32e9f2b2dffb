package main

import (
	"go/types"
)

// ---- C23: the blind clock ----

type clock struct {
	*Run
	state, options *types.Var
	bt             types.Type
}

func (c *Ctx) clockRun(t *types.Named, method string, cfg *Config) *clock {
	sf := fieldByType(t, func(x types.Type) bool { return typeIs(x, "pokerblind", "BlindState", true) })
	of := fieldByType(t, func(x types.Type) bool { return typeIs(x, "pokerblind", "BlindOptions", true) })
	if !c.need(sf != nil && of != nil, "the state and options of the blind clock") {
		return nil
	}
	r := c.run(c.newEngine(cfg), t, method, nil)
	if r == nil {
		return nil
	}
	return &clock{r, sf, of, sf.Type()}
}

func (k *clock) ptr(st *State) *Term { return k.e.load(st, k.e.tt.Field(k.recv, k.state), k.bt) }
func (k *clock) bs(st *State, path string) *Term {
	return k.e.at(st, k.ptr(st), k.bt, path)
}

// firstIdx is the index of the first element the loop visits.
func (e *Engine) firstIdx(li *LoopInfo) *Term {
	if li.idx == nil {
		return nil
	}
	for t := range e.tt.toLin(li.idx).m {
		if s := e.sums[t]; s != nil && s.loop == li {
			return e.tt.Add(s.init, e.tt.Sub(li.idx, t))
		}
	}
	return nil
}

func ruleC23(c *Ctx) {
	bt := c.implOf(c.w.blind, "Blind")
	if !c.need(bt != nil, "the blind clock") {
		return
	}
	all := func() *Config { return &Config{TrackAll: true, LogGo: true, NoGC: true} }
	// End
	var over *types.Var
	if r := c.clockRun(bt, "End", all()); r != nil {
		for _, o := range r.outs {
			l := flat(o.st.log)
			for _, f := range l {
				if f.kind == "store" && f.addr.op == OField && f.addr.args[0] == r.recv && len(f.loops) == 0 {
					if b, ok := f.val.boolVal(); ok && b {
						over = f.addr.fv
						continue
					}
				}
				if mutation(f.Effect) {
					c.fail("end:"+f.name, f.pos, r.name, "stopping the clock does more than marking it stopped: %s", f.name)
				}
			}
		}
		if !c.need(over != nil, "the mark that the clock was stopped") {
			return
		}
		for _, o := range r.outs {
			c.count("obligations", 1)
			if !r.e.q(o.st.facts).holds(r.e.load(o.st, r.e.tt.Field(r.recv, over), over.Type())) {
				c.fail("end:mark", r.fn.Pos(), r.name, "a path through stopping the clock does not mark it stopped")
			}
		}
	}
	// IsStarted, GetState
	if r := c.clockRun(bt, "IsStarted", all()); r != nil {
		for _, o := range r.outs {
			q := r.e.q(o.st.facts)
			c.count("obligations", 1)
			if !q.iff(o.ret[0], func(q *FQ) int {
				switch {
				case q.isNil(r.ptr(r.st0)):
					return -1
				case q.isErr(r.ptr(r.st0)):
					return not3(q.eqInt(r.bs(r.st0, "StartedAt"), unset))
				}
				return 0
			}) {
				c.fail("started", r.fn.Pos(), r.name, "the clock reads as started although it may not be, or the other way around: %s", r.describe(o))
			}
		}
	}
	if r := c.clockRun(bt, "GetState", all()); r != nil {
		for _, o := range r.outs {
			c.count("obligations", 1)
			if o.ret[0] != r.ptr(r.st0) || len(flat(o.st.log)) > 0 {
				c.fail("state", r.fn.Pos(), r.name, "the clock's state is not what is returned")
			}
		}
	}
	// UpdateInitialLevel
	if r := c.clockRun(bt, "UpdateInitialLevel", all()); r != nil {
		c.reasons(r.Run, "initial-refusal", false, map[string]reasonFn{"ErrBlindNoState": func(q *FQ) bool { return q.isNil(r.ptr(r.st0)) }})
		c.quietRejections(r.Run, "initial-refusal-effect")
		n := 0
		for _, o := range r.outs {
			if !r.succeeded(o) {
				continue
			}
			n++
			c.count("obligations", 1)
			l := flat(o.st.log)
			if len(l) != 1 || l[0].name != "pokerblind.Meta.InitialLevel" || !r.e.q(o.st.facts).same(r.bs(o.st, "Meta.InitialLevel"), r.args[0]) || !r.e.q(o.st.facts).isErr(r.ptr(r.st0)) {
				c.fail("initial", r.fn.Pos(), r.name, "setting the initial level does not set exactly it: %s", r.describe(o))
			}
		}
		c.need(n > 0, "a set initial level")
	}
	c.clockOptions(bt, all())
	c.clockStart(bt, all(), over)
}

func (c *Ctx) clockOptions(bt *types.Named, cfg *Config) {
	cfg.LocalStores = true
	r := c.clockRun(bt, "ApplyOptions", cfg)
	if r == nil {
		return
	}
	e := r.e
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		c.count("obligations", 1)
		opt := func(p string) *Term { return e.at(r.st0, r.args[0], r.args[0].typ, p) }
		p := r.ptr(o.st)
		if p.op != OAlloc || o.ret[0] != p {
			c.fail("options:fresh", r.fn.Pos(), r.name, "new options do not start with a fresh state that is also returned")
			continue
		}
		if got := e.load(o.st, e.tt.Field(r.recv, r.options), r.options.Type()); got != r.args[0] {
			c.fail("options:kept", r.fn.Pos(), r.name, "the options are not remembered")
		}
		for f, from := range map[string]string{"BlindID": "ID", "Meta.InitialLevel": "InitialLevel", "Meta.FinalBuyInLevelIndex": "FinalBuyInLevelIndex", "Meta.Levels": "Levels", "Status.FinalBuyInLevelIndex": "FinalBuyInLevelIndex"} {
			if v := r.bs(o.st, f); !q.same(v, opt(from)) {
				c.fail("options:"+f, r.fn.Pos(), r.name, "%s of the new state is %s instead of the options' %s", f, v, from)
			}
		}
		for _, f := range []string{"StartedAt", "Status.CurrentLevelIndex"} {
			if v := r.bs(o.st, f); !q.sameInt(v, unset) {
				c.fail("options:"+f, r.fn.Pos(), r.name, "%s of the new state is %s instead of unset", f, v)
			}
		}
		if !r.unsetPerLevel(o, r.bs(o.st, "Status.LevelEndAts"), opt("Levels")) {
			c.fail("options:end-ats", r.fn.Pos(), r.name, "the new state does not have one unset end time per level")
		}
	}
}

// unsetPerLevel: the list holds -1 once per element of levels.
func (k *clock) unsetPerLevel(o *Outcome, v, levels *Term) bool {
	e := k.e
	if seq, cs, ok := e.selectOf(v); ok {
		if seq != levels {
			return false
		}
		for _, p := range cs {
			if p.took != 1 || !p.q.sameInt(p.val, unset) {
				return false
			}
		}
		return true
	}
	// made at full length and filled by a pass
	if !e.q(o.st.facts).same(e.lenOf(v), e.lenOf(levels)) {
		return false
	}
	for _, f := range o.st.log.effects() {
		if f.kind != "loop" || f.loop.seq == nil || !e.q(o.st.facts).same(e.lenOf(f.loop.seq), e.lenOf(levels)) || !f.loop.full || f.loop.breaks > 0 {
			continue
		}
		ok := len(f.loop.conts) > 0
		for _, ct := range f.loop.conts {
			x := e.load(ct.st, e.indexAddr(v, f.loop.idx, types.Typ[types.Int64]), types.Typ[types.Int64])
			ok = ok && e.q(ct.st.facts).sameInt(x, unset)
		}
		if ok {
			return true
		}
	}
	return false
}

func (c *Ctx) clockStart(bt *types.Named, cfg *Config, over *types.Var) {
	r := c.clockRun(bt, "Start", cfg)
	if r == nil {
		return
	}
	e := r.e
	lists := []*Term{r.bs(r.st0, "Meta.Levels")}
	running := func(q *FQ) bool {
		return q.isErr(r.ptr(r.st0)) && q.eqInt(r.bs(r.st0, "StartedAt"), unset) == -1
	}
	options := e.load(r.st0, e.tt.Field(r.recv, r.options), r.options.Type())
	c.reasons(r.Run, "refusal", false, map[string]reasonFn{
		"ErrBlindAlreadyStarted": running,
		"ErrBlindNoOptions":      func(q *FQ) bool { return q.isNil(options) || q.isNil(r.ptr(r.st0)) },
		"ErrBlindInitialLevelNotFound": func(q *FQ) bool {
			return q.noneWith(lists[0], "Level", r.bs(r.st0, "Meta.InitialLevel"))
		},
	})
	c.quietRejections(r.Run, "refusal-effect")
	timers := 0
	moved := map[*Async]bool{}
	for _, o := range r.outs {
		if !r.succeeded(o) {
			continue
		}
		q := e.q(o.st.facts)
		c.count("obligations", 1)
		bad := func(key, msg string, x ...any) { c.fail("start:"+key, r.fn.Pos(), r.name, msg, x...) }
		if q.eqInt(r.bs(r.st0, "StartedAt"), unset) != 1 || !q.isErr(r.ptr(r.st0)) || !q.isErr(options) {
			bad("gate", "a clock is started that may be running or without options: %s", r.describe(o))
		}
		if o.ret[0] != r.ptr(r.st0) || r.ptr(o.st) != r.ptr(r.st0) {
			bad("state", "the state of the started clock is not what is returned")
		}
		at := r.bs(o.st, "StartedAt")
		if !isNow(at) {
			bad("started-at", "the start time is %s instead of now", at)
		}
		if !q.fails(e.load(o.st, e.tt.Field(r.recv, over), over.Type())) {
			bad("mark", "a started clock may still be marked stopped")
		}
		cur := r.bs(o.st, "Status.CurrentLevelIndex")
		x := e.indexAddr(lists[0], cur, c.levelType())
		lv := e.load(o.st, e.tt.Field(x, c.w.fieldVar(c.w.blind, "BlindLevel", "Level")), types.Typ[types.Int])
		if !q.same(lv, r.bs(r.st0, "Meta.InitialLevel")) {
			bad("index", "the clock starts at level index %s, which is not known to be the initial level", cur)
		}
		passes := 0
		for _, f := range flat(o.st.log) {
			if len(f.loops) == 0 && f.kind == "store" && f.name == "pokerblind.Status.LevelEndAts[]" && !r.leftUnlimited(o, q, f.Effect) {
				bad("end-at", "an end time is set outside the pass over the levels")
			}
			if f.kind == "store" {
				switch f.name {
				case "pokerblind.BlindState.StartedAt", "pokerblind.Status.CurrentLevelIndex", "pokerblind.Status.LevelEndAts[]", "pokerblind.BlindState.UpdatedAt", "pokerblind.Status.LevelEndAts":
				default:
					if f.addr.op != OField || f.addr.fv != over {
						bad("other:"+f.name, "starting the clock changes %s", f.name)
					}
				}
			}
		}
		for _, f := range o.st.log.effects() {
			if f.kind != "loop" {
				continue
			}
			some := false
			for _, ct := range f.loop.conts {
				some = some || len(evs(ct.log, "store:pokerblind.Status.LevelEndAts[]")) > 0
			}
			if !some {
				continue
			}
			passes++
			timers += c.clockPass(r, o, f.loop, at, cur, moved)
		}
		if passes != 1 {
			bad("pass", "the end times are set in %d passes over the levels instead of one", passes)
		}
	}
	c.need(timers > 0, "timers of the clock")
	for _, a := range r.asyncs("timebank.") {
		c.clockTick(r, a, over)
	}
	c.need(len(r.asyncs("timebank.")) > 0, "the body of the clock's timers")
}

// leftUnlimited: the store belongs to the visit of a level of unlimited duration
// with which the pass over the levels was left.
func (r *clock) leftUnlimited(o *Outcome, q *FQ, f *Effect) bool {
	e := r.e
	if f.addr.op != OIndex {
		return false
	}
	i := f.addr.args[1]
	for _, g := range o.st.log.effects() {
		if g.kind == "loop" && len(g.loop.early) > 0 && g.loop.idx == i {
			x := e.indexAddr(r.bs(o.st, "Meta.Levels"), i, r.c.levelType())
			d := e.load(o.st, e.tt.Field(x, r.c.w.fieldVar(r.c.w.blind, "BlindLevel", "Duration")), types.Typ[types.Int])
			return q.eqInt(d, unset) == 1 && q.sameInt(e.load(o.st, f.addr, types.Typ[types.Int64]), unset)
		}
	}
	return false
}

func (c *Ctx) levelType() types.Type {
	return c.w.fieldVar(c.w.blind, "Meta", "Levels").Type().Underlying().(*types.Slice).Elem()
}

// clockPass examines the pass that sets the end times: it goes from the initial
// level to the last one or to one of unlimited duration.
func (c *Ctx) clockPass(r *clock, o *Outcome, li *LoopInfo, at, cur *Term, moved map[*Async]bool) int {
	e := r.e
	bad := func(key, msg string, x ...any) { c.fail("pass:"+key, li.pos, r.name, msg, x...) }
	first := e.firstIdx(li)
	if li.seq == nil || li.reverse || first == nil || !e.q(o.st.facts).same(e.lenOf(li.seq), e.lenOf(r.bs(r.st0, "Meta.Levels"))) || !e.q(o.st.facts).same(first, cur) {
		bad("range", "the pass does not visit the levels from the initial one on")
		return 0
	}
	fv := c.w.fieldVar(c.w.blind, "BlindLevel", "Duration")
	dur := func(st *State) *Term {
		x := e.indexAddr(r.bs(st, "Meta.Levels"), li.idx, c.levelType())
		return e.load(st, e.tt.Field(x, fv), types.Typ[types.Int])
	}
	endAt := func(st *State, i *Term) *Term {
		return e.load(st, e.indexAddr(r.bs(st, "Status.LevelEndAts"), i, types.Typ[types.Int64]), types.Typ[types.Int64])
	}
	timers := 0
	visit := func(st *State, log *LogNode, next func(s *Term) *Term) {
		q := e.q(st.facts)
		c.count("obligations", 1)
		d := dur(st)
		val := endAt(st, li.idx)
		// what the end of the previous level is
		var bases []*Term
		switch isFirst := q.eqInt(e.tt.Sub(li.idx, first), 0); isFirst {
		case 1:
			bases = append(bases, at)
		case -1:
			b := endAt(st, e.tt.Add(li.idx, e.tt.Int(-1)))
			bases = append(bases, b)
			// the same as read before this level's end time was written
			for t := range e.tt.toLin(val).m {
				if t.op == OInit && b.op == OInit && t.args[0] == b.args[0] {
					bases = append(bases, t)
				}
			}
		}
		for _, s := range e.sums {
			if s.loop == li && s.init == at && next != nil {
				if n := next(s.sym); n != nil && (q.same(n, val) || q.eqInt(d, unset) == 1) {
					bases = append(bases, s.sym)
				}
			}
		}
		ok := false
		for _, b := range bases {
			want := b
			switch {
			case q.eqInt(d, unset) == 1:
				want = e.tt.Int(unset)
			case q.positive(d) == 1:
				want = e.tt.Add(b, d)
			case q.eqInt(d, 0) != 1 && q.lessT(d, e.tt.Int(unset)) != 1 && q.positive(d) != -1:
				bad("duration", "an end time does not depend on the kind of duration")
			}
			ok = ok || q.same(val, want)
		}
		if !ok {
			bad("end-at", "a level's end time is %s: not the end of the level before it plus its duration", val)
		}
		// its timer
		n := 0
		for _, t := range r.timersIn(log) {
			n++
			if t.n != 1 || !q.same(t.at, val) {
				bad("timer", "a level's timer is set to %s instead of its end time, or %d timers are set at once", t.at, t.n)
			}
		}
		switch {
		case n > 1:
			bad("timers", "several timers are set for one level")
		case n == 1 && q.positive(d) != 1:
			bad("timer-none", "a timer is set for a level that may have no end")
		case n == 0 && q.positive(d) != -1:
			bad("timer-missing", "no timer is set for a level that may end")
		}
		timers += n
	}
	for _, ct := range li.conts {
		visit(ct.st, ct.log, func(s *Term) *Term { return ct.next[s] })
	}
	for _, st := range li.early {
		if q := e.q(st.facts); q.eqInt(dur(st), unset) != 1 {
			bad("left", "the pass over the levels is left early although the level may end")
		}
	}
	return timers
}

type clockTimer struct {
	at *Term
	n  int
}

// timersIn lists the timers set by the logged effects, also by goroutines they
// start.
func (r *clock) timersIn(l *LogNode) (ts []clockTimer) {
	for _, f := range flat(l) {
		switch {
		case f.kind == "ext" && f.name == "timebank.TimeBank.NewTaskWithDeadline" && len(f.args) == 3:
			n := 1
			if len(f.loops) > 0 {
				n = 2
			}
			ts = append(ts, clockTimer{timeOf(f.args[1]), n})
		case f.kind == "go":
			for _, a := range r.e.asyncs {
				if a.name != "go" || a.closure != f.val || !equalTerms(a.params, f.args) {
					continue
				}
				var at *Term
				n := -1
				for _, o := range a.outcomes {
					s := r.timersIn(o.st.log)
					if n >= 0 && (n != len(s) || n > 0 && s[0].at != at) {
						n = 2
						break
					}
					n = len(s)
					if n > 0 {
						at = s[0].at
					}
				}
				if n > 0 {
					ts = append(ts, clockTimer{at, n})
				}
			}
		}
	}
	return
}

func equalTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func timeOf(t *Term) *Term {
	if t != nil && t.op == OCall && t.name == "time.Time" {
		return t.args[0]
	}
	return t
}

// clockTick examines what a timer of the clock does.
func (c *Ctx) clockTick(r *clock, a *Async, over *types.Var) {
	e := r.e
	moves := 0
	for _, o := range a.outcomes {
		q := e.q(o.st.facts)
		c.count("obligations", 1)
		bad := func(key, msg string, x ...any) { c.fail("tick:"+key, a.pos, a.label, msg, x...) }
		stopped := e.load(a.st0, e.tt.Field(r.recv, over), over.Type())
		old := r.bs(a.st0, "Status.CurrentLevelIndex")
		last := q.lessT(e.tt.Add(old, e.tt.Int(1)), e.lenOf(r.bs(a.st0, "Meta.Levels")))
		l := flat(o.st.log)
		sets, tells, at := 0, 0, -1
		for i, f := range l {
			switch {
			case f.kind == "store" && f.name == "pokerblind.Status.CurrentLevelIndex":
				sets, at = sets+1, i
			case f.kind == "callback" && f.name == "OnBlindStateUpdated":
				tells++
				if at < 0 || len(f.loops) > 0 || f.args[0] != r.ptr(o.st) {
					bad("told", "the listener is told before the level has moved, or something else than the state")
				}
			case f.kind == "store" && f.name == "pokerblind.BlindState.UpdatedAt", !mutation(f.Effect):
			default:
				bad("other:"+f.name, "a timer of the clock has another effect: %s", f.name)
			}
		}
		if sets == 0 {
			if tells > 0 || !(q.holds(a.params[0]) || q.holds(stopped) || last == -1) {
				bad("stays", "a timer may leave the level as it is although it ended: %s", r.describe(o))
			}
			continue
		}
		moves++
		if !q.fails(a.params[0]) || !q.fails(stopped) || last != 1 {
			bad("gate", "a timer moves the level although it may be cancelled, the clock stopped, or no level is left: %s", r.describe(o))
		}
		if sets != 1 || !q.same(r.bs(o.st, "Status.CurrentLevelIndex"), e.tt.Add(old, e.tt.Int(1))) {
			bad("one", "a timer moves the level to %s instead of the next one", r.bs(o.st, "Status.CurrentLevelIndex"))
		}
		if tells != 1 {
			bad("tells", "the move to the next level is reported %d times", tells)
		}
	}
	c.need(moves > 0, "moves of the clock")
}
