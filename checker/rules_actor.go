package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"strings"
)

// ---- the players' side: views, automation and actions (package actor) ----

const (
	playingStatus = "table_game_playing"
	actAsPlayer   = "pokerface.GameState.AsPlayer"
)

// keptBy names the field a constructor or setter keeps its argument in.
func (c *Ctx) keptBy(r *Run) *types.Var {
	var fv *types.Var
	for _, o := range r.outs {
		var obj *Term
		obj = r.recv
		if obj == nil && len(o.ret) > 0 {
			obj = o.ret[0]
		}
		if obj == nil {
			return nil
		}
		t := obj.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if types.Identical(f.Type(), r.args[0].typ) && r.e.load(o.st, r.e.tt.Field(obj, f), f.Type()) == r.args[0] {
				fv = f
			}
		}
	}
	return fv
}

// lone: the only field of that type.
func lone(t *types.Named, ok func(types.Type) bool, not ...*types.Var) *types.Var {
	var fv *types.Var
	s, _ := t.Underlying().(*types.Struct)
next:
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		for _, n := range not {
			if f == n {
				continue next
			}
		}
		if !ok(f.Type()) {
			continue
		}
		if fv != nil {
			return nil
		}
		fv = f
	}
	return fv
}

func isBasic(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool { b, ok := t.(*types.Basic); return ok && b.Kind() == k }
}

// runner: a player or bot runner and the fields behind its exported surface.
type runner struct {
	c                                          *Ctx
	typ                                        *types.Named
	id, seen, status, count, threshold, subscr *types.Var
}

func (c *Ctx) runner(typ *types.Named, ctor string) *runner {
	if !c.need(typ != nil, "the runner type of %s", ctor) {
		return nil
	}
	x := &runner{c: c, typ: typ}
	fn := c.w.fn(c.w.actor, ctor)
	if !c.need(fn != nil, "%s", ctor) {
		return nil
	}
	quiet := func() *Config { return &Config{TrackAll: true, NoAsync: true, NoGC: true} }
	if r := c.runFn(c.newEngine(quiet()), fn, ctor, nil); r != nil {
		x.id = c.keptBy(r)
	}
	if !c.need(x.id != nil, "the player of a runner") {
		return nil
	}
	x.seen = lone(typ, isBasic(types.Int64))
	return x
}

func (c *Ctx) playerRunner() *runner {
	x := c.runner(c.w.namedType(c.w.actor, "PlayerRunner"), "NewPlayerRunner")
	if x == nil {
		return nil
	}
	set := func(m string) *types.Var {
		r := c.run(c.newEngine(&Config{TrackAll: true, NoAsync: true, NoGC: true}), x.typ, m, nil)
		if r == nil {
			return nil
		}
		return c.keptBy(r)
	}
	x.subscr, x.threshold = set("SetEventSubscribed"), set("SetSuspendThreshold")
	x.status = lone(x.typ, func(t types.Type) bool { return types.Identical(t, c.w.namedType(c.w.actor, "PlayerStatus")) })
	x.count = lone(x.typ, isBasic(types.Int), x.threshold)
	if !c.need(x.subscr != nil && x.threshold != nil && x.status != nil && x.count != nil && x.seen != nil, "the state of a player runner") {
		return nil
	}
	return x
}

// of reads a field of the runner.
func (x *runner) of(r *Run, st *State, f *types.Var) *Term {
	return r.e.load(st, r.e.tt.Field(r.recv, f), f.Type())
}

// said: what an outside function answered on this path; last is its last
// argument.
func (q *FQ) said(name, last string) (yes, no bool) {
	for t, v := range q.f.atoms {
		if strings.HasPrefix(t.name, name+"#") && len(t.args) > 0 && (last == "" || t.args[len(t.args)-1] == q.e.tt.Str(last)) {
			yes, no = yes || v, no || !v
		}
	}
	return
}

func (q *FQ) allowed(a string) bool {
	y, n := q.said("pokerface.GameState.HasAction", a)
	return y && !n
}
func (q *FQ) forbidden(a string) bool {
	y, n := q.said("pokerface.GameState.HasAction", a)
	return n && !y
}
func (q *FQ) sits(p string) bool {
	y, n := q.said("pokerface.GameState.HasPosition", p)
	return y && !n
}
func (q *FQ) sitsNot(p string) bool {
	y, n := q.said("pokerface.GameState.HasPosition", p)
	return n && !y
}

// offCopy strips a deep copy.
func offCopy(t *Term) *Term {
	for t != nil && t.op == OClone {
		t = t.args[0]
	}
	return t
}

// handIdx: the term is the player's place in the hand of the update.
func (x *runner) handIdx(r *Run, t *Term) bool {
	for _, n := range []string{"pokertable.Table.GamePlayerIndex#", "pokertable.Table.FindGamePlayerIdx#"} {
		if t != nil && strings.HasPrefix(t.name, n) && len(t.args) == 2 && t.args[1] == x.of(r, r.st0, x.id) {
			id := t.args[0]
			return strings.Contains(id.String(), r.args[0].String()+".ID")
		}
	}
	return false
}

// event: the hand asks for what the named pokerface event stands for.
func (r *Run) event(q *FQ, ev string) (yes, no bool) {
	p := r.c.w.imported("pokerface")
	if p == nil {
		return
	}
	k := itoa(int(r.c.kIntOf(p, ev)))
	for t, v := range q.f.atoms {
		if t.op != OEq && t.op != OBin {
			continue
		}
		s := t.String()
		if strings.Contains(s, "mapget(content(pokerface.GameEventSymbols), "+k+")") && strings.Contains(s, "CurrentEvent") {
			yes, no = yes || v, no || !v
		}
	}
	return
}

// ruleC36: what a player is shown.
func ruleC36(c *Ctx) {
	x := c.playerRunner()
	if x == nil {
		return
	}
	cfg := siteCfg(nil, "ext:"+actAsPlayer, "ext:pokerface.*", "snap:callback:OnTableStateUpdated", "invoke:Actions.*", "ext:timebank.TimeBank.*")
	cfg.TrackAll, cfg.NoAsync, cfg.NoGC = true, true, true
	r := c.run(c.newEngine(cfg), x.typ, "UpdateTableState", givenTable)
	if r == nil {
		return
	}
	e := r.e
	pt := r.fn.Params[1].Type()
	unencoded := func(q *FQ) bool {
		for t := range q.f.set {
			if strings.HasPrefix(t.name, "json.") && q.isErr(t) {
				return true
			}
		}
		return false
	}
	views := 0
	for _, s := range e.sites {
		f := s.eff
		q := e.q(s.facts)
		switch {
		case f.kind == "ext" && f.name == actAsPlayer:
			c.count("obligations", 1)
			if !unencoded(q) && (f.args[0] == offCopy(f.args[0])) {
				c.fail("view:own", f.pos, stackStr(f), "the hand of the update itself is masked, not a copy: %s", f.args[0])
			}
		case f.kind == "callback":
			views++
			c.count("obligations", 1)
			if !q.holds(x.of(r, r.st0, x.subscr)) {
				c.fail("view:unsubscribed", f.pos, stackStr(f), "a player that is not subscribed is shown the table")
			}
			v := f.args[0]
			if s.st == nil || v == r.args[0] || v.op != OAlloc {
				c.fail("view:shared", f.pos, stackStr(f), "the player is shown the table of the update itself")
				continue
			}
			gs := e.at(s.st, v, pt, "State.GameState")
			if !unencoded(q) {
				if !e.copyOf(s.st, v, r.args[0], pt) || e.shares(s.st, v, r.st0, r.args[0], pt, 3) {
					c.fail("view:shared", f.pos, stackStr(f), "the player is not shown a full separate copy of the table")
				}
			}
			masked := q.isNil(gs)
			for _, g := range flat(s.log) {
				if g.kind == "ext" && g.name == actAsPlayer && g.args[0] == gs && len(g.loops) == 0 {
					masked = true
					if !x.handIdx(r, g.args[1]) {
						c.fail("view:seat", g.pos, stackStr(g.Effect), "the hand is shown as another player sees it (%s)", g.args[1])
					}
				}
			}
			if !masked {
				c.fail("view:unmasked", f.pos, stackStr(f), "the player is shown a hand with everybody's cards")
			}
		}
	}
	for _, o := range r.outs {
		c.count("obligations", 1)
		q := e.q(o.st.facts)
		n, acted := 0, false
		for _, f := range flat(o.st.log) {
			if f.kind == "callback" {
				n++
				if len(f.loops) > 0 || acted {
					c.fail("view:order", f.pos, r.name, "the table is not shown once, before anything is done")
				}
			} else if f.kind == "invoke" || strings.HasPrefix(f.name, "timebank.") {
				acted = true
			}
		}
		if sub := x.of(r, r.st0, x.subscr); n > 1 || n == 0 && !q.fails(sub) {
			c.fail("view:count", r.fn.Pos(), r.name, "a subscribed player is shown an update %d times", n)
		}
	}
	c.need(views > 0, "views of a player")
	c.count("views", views)
}

// ruleC37: what happens without the player.
func ruleC37(c *Ctx) {
	x := c.playerRunner()
	if x == nil {
		return
	}
	cfg := siteCfg(nil, "invoke:Actions.*", "ext:timebank.TimeBank.*", "callback:*")
	cfg.TrackAll, cfg.NoGC = true, true
	r := c.run(c.newEngine(cfg), x.typ, "UpdateTableState", givenTable)
	if r == nil {
		return
	}
	e := r.e
	pt := r.fn.Params[1].Type()
	up := func(path string) *Term { return e.at(r.st0, r.args[0], pt, path) }
	status := x.of(r, r.st0, x.status)
	k := func(n string) *Term { return e.tt.Int(c.kIntOf(c.w.actor, n)) }
	act := func(f *Effect) bool {
		return f.kind == "invoke" && strings.HasPrefix(f.name, "Actions.") || f.kind == "ext" && strings.HasPrefix(f.name, "timebank.TimeBank.NewTask")
	}
	inTime := func(f *Effect) bool { return f.kind == "ext" }
	hand := e.at(r.st0, r.args[0], pt, "State.GameState")
	stamp := e.at(r.st0, hand, hand.typ, "UpdatedAt")
	// live: a new update of a hand that is played, in which the player is
	// asked for something
	live := func(q *FQ) string {
		if !q.sameStr(up("State.Status"), playingStatus) {
			return "no hand is played"
		}
		if q.lessT(x.of(r, r.st0, x.seen), stamp) != 1 {
			return "the update is not newer than the last one"
		}
		in := false
		for t := range q.f.iv {
			if x.handIdx(r, t) && q.e.eqVal(q.f, t, q.e.tt.Int(-1)) == -1 {
				in = true
			}
		}
		if !in {
			return "the player may not be in the hand"
		}
		return ""
	}
	// a table that plays has a hand; nothing is said about one that has none
	noHand := func(q *FQ) bool {
		for t := range q.f.set {
			if offCopy(t) == hand && q.isNil(t) {
				return true
			}
		}
		return false
	}
	asked := func(q *FQ) bool {
		for t, iv := range q.f.iv {
			if t.op == OLen && strings.Contains(t.String(), "AllowedActions") && iv.lo >= 1 {
				return true
			}
		}
		return false
	}
	// defaults: the action taken for a player that does not act
	defaults := func(q *FQ, f *Effect) string {
		switch f.name {
		case "Actions.Ready":
			if q.allowed("ready") {
				return ""
			}
		case "Actions.Check":
			if q.forbidden("ready") && q.allowed("check") {
				return ""
			}
		case "Actions.Fold":
			if q.forbidden("ready") && q.forbidden("check") && q.allowed("fold") {
				return ""
			}
		}
		return strings.TrimPrefix(f.name, "Actions.") + " is done for the player out of turn"
	}
	idle := func(q *FQ) bool { return q.forbidden("ready") && q.forbidden("check") && q.forbidden("fold") }
	acts, tasks := 0, 0
	for _, s := range e.sites {
		f := s.eff
		if !act(f) || s.entry != r.name {
			continue
		}
		q := e.q(s.facts)
		if noHand(q) {
			continue
		}
		acts++
		c.count("obligations", 1)
		bad := func(key, msg string, a ...any) { c.fail(key, f.pos, stackStr(f), msg, a...) }
		if m := live(q); m != "" {
			bad("auto:gate", "%s is done although %s", f.name, m)
			continue
		}
		if !asked(q) {
			bad("auto:asked", "%s is done although the player is asked for nothing", f.name)
		}
		ante, noAnte := r.event(q, "GameEvent_AnteRequested")
		blinds, noBlinds := r.event(q, "GameEvent_BlindsRequested")
		if f.name == "Actions.Pass" {
			if !q.allowed("pass") {
				bad("auto:pass", "the player passes without being allowed to")
			}
			continue
		}
		if !q.forbidden("pass") {
			bad("auto:nopass", "%s is done although the player can pass", f.name)
			continue
		}
		if f.name == "Actions.Pay" {
			var want *Term
			switch {
			case ante:
				want = e.at(r.st0, hand, hand.typ, "Meta.Ante")
			case blinds && q.sits("sb"):
				want = e.at(r.st0, hand, hand.typ, "Meta.Blind.SB")
			case blinds && q.sitsNot("sb") && q.sits("bb"):
				want = e.at(r.st0, hand, hand.typ, "Meta.Blind.BB")
			case blinds && q.sitsNot("sb") && q.sitsNot("bb"):
				want = e.at(r.st0, hand, hand.typ, "Meta.Blind.Dealer")
			}
			if want == nil || !q.same(offCopy(f.args[0]), want) {
				bad("auto:pay", "the player pays %s", f.args[0])
			}
			continue
		}
		if !noAnte || !noBlinds {
			bad("auto:due", "%s is done while antes or blinds are due", f.name)
			continue
		}
		if inTime(f) {
			tasks++
			if !q.differ(status, k("PlayerStatus_Suspend")) {
				bad("auto:wait", "a suspended player is waited for")
			}
			want := e.tt.Scale(up("Meta.ActionTime"), 1000000000)
			if f.name != "timebank.TimeBank.NewTask" || f.args[1] != want && !q.same(f.args[1], want) {
				bad("auto:time", "the player is not given the action time of the table: %s", f.args[1])
			}
			continue
		}
		if !q.same(status, k("PlayerStatus_Suspend")) {
			bad("auto:early", "%s is done without waiting for the player", f.name)
		}
		if m := defaults(q, f); m != "" {
			bad("auto:default", "%s", m)
		}
	}
	c.need(acts >= 7 && tasks > 0, "the automatic actions")
	for _, o := range r.outs {
		c.count("obligations", 1)
		q := e.q(o.st.facts)
		n := 0
		for _, f := range flat(o.st.log) {
			if act(f.Effect) {
				n++
			}
		}
		if n > 1 {
			c.fail("auto:twice", r.fn.Pos(), r.name, "one update leads to several actions")
		}
		if n > 0 {
			if !noHand(q) && !q.same(x.of(r, o.st, x.seen), stamp) {
				c.fail("auto:seen", r.fn.Pos(), r.name, "an update that was acted on is not remembered")
			}
			continue
		}
		_, gone := x.inTable(r, q)
		sus := q.same(status, k("PlayerStatus_Suspend"))
		out := false
		for t := range q.f.iv {
			out = out || x.handIdx(r, t) && q.sameInt(t, -1)
		}
		quiet := noHand(q) || q.differ(up("State.Status"), e.tt.Str(playingStatus)) || q.geT(x.of(r, r.st0, x.seen), stamp) || gone || out || sus && idle(q)
		for t := range q.f.iv {
			quiet = quiet || t.op == OLen && strings.Contains(t.String(), "AllowedActions") && q.sameInt(t, 0)
		}
		if !quiet {
			c.fail("auto:missed", r.fn.Pos(), r.name, "the player is asked to act and nothing happens")
		}
	}
	// the time is up
	late := 0
	for _, a := range r.asyncs("timebank.TimeBank.NewTask") {
		was, cnt := x.of(r, a.st0, x.status), x.of(r, a.st0, x.count)
		lim := x.of(r, a.st0, x.threshold)
		idleNow := e.tt.Int(c.kIntOf(c.w.actor, "PlayerStatus_Idle"))
		for _, o := range a.outcomes {
			c.count("obligations", 1)
			late++
			q := e.q(o.st.facts)
			bad := func(key, msg string, args ...any) { c.fail(key, a.pos, r.name, msg, args...) }
			var as []Ev
			auto := 0
			for _, f := range flat(o.st.log) {
				switch {
				case f.kind == "callback" && f.name == "OnAutoModeUpdated":
					auto++
					if !q.holds(f.args[1]) && f.args[1] != e.tt.Bool(true) {
						bad("late:mode", "the player is reported out of auto mode")
					}
				case act(f.Effect):
					as = append(as, f)
				}
			}
			if q.holds(a.params[0]) {
				if len(as) > 0 || auto > 0 || x.of(r, o.st, x.status) != was || x.of(r, o.st, x.count) != cnt {
					bad("late:cancelled", "something is done for a player that acted in time")
				}
				continue
			}
			if !q.fails(a.params[0]) {
				bad("late:undecided", "whether the player acted in time makes no difference")
				continue
			}
			// idle accounting
			want := e.tt.Add(cnt, e.tt.Int(1))
			if q.differ(was, idleNow) {
				want = e.tt.Int(0)
			} else if !q.same(was, idleNow) {
				bad("late:idle", "the number of missed turns does not depend on the player being idle")
				continue
			}
			if got := x.of(r, o.st, x.count); got != want && !q.same(got, want) {
				bad("late:count", "the number of missed turns becomes %s", got)
			}
			final, full := x.of(r, o.st, x.status), q.same(want, lim)
			if !full && !q.differ(want, lim) {
				bad("late:threshold", "the limit of missed turns is not considered")
			} else if full && !q.same(final, k("PlayerStatus_Suspend")) || !full && !q.same(final, idleNow) {
				bad("late:status", "the player becomes %s (limit reached: %v)", final, full)
			}
			sub := x.of(r, a.st0, x.subscr)
			if n := auto; full && (n > 1 || n == 0 && !q.fails(sub)) || !full && n > 0 {
				bad("late:report", "auto mode is reported %d times (limit reached: %v)", n, full)
			}
			if len(as) > 1 || len(as) == 0 && !idle(q) {
				bad("late:act", "%d actions are done for the player", len(as))
			} else if len(as) == 1 {
				if m := defaults(q, as[0].Effect); m != "" {
					bad("late:default", "%s", m)
				}
			}
		}
	}
	c.need(late > 0, "the end of the action time")
	c.count("automatic actions", acts)
	c.autoMode(x)
}

// inTable: whether the player sits at the table of the update.
func (x *runner) inTable(r *Run, q *FQ) (in, gone bool) {
	list := r.arg(0, "State.PlayerStates")
	id := x.of(r, r.st0, x.id)
	return len(q.foundIn(list, "PlayerID", id)) > 0, q.absentIn(list, q.e.pathOf(list), "PlayerID", id)
}

// autoMode: suspending and resuming by hand.
func (c *Ctx) autoMode(x *runner) {
	k := func(r *Run, n string) *Term { return r.e.tt.Int(c.kIntOf(c.w.actor, n)) }
	for _, m := range []string{"Suspend", "Resume"} {
		r := c.run(c.newEngine(&Config{TrackAll: true, NoAsync: true, NoGC: true}), x.typ, m, nil)
		if r == nil {
			continue
		}
		for _, o := range r.outs {
			c.count("obligations", 1)
			q := r.e.q(o.st.facts)
			was := x.of(r, r.st0, x.status)
			n, on := 0, m == "Suspend"
			for _, f := range flat(o.st.log) {
				if f.kind == "callback" && f.name == "OnAutoModeUpdated" {
					n++
					if f.args[1] != r.e.tt.Bool(on) {
						c.fail("mode:value", f.pos, r.name, "the wrong auto mode is reported")
					}
				}
			}
			want := "PlayerStatus_Running"
			if on {
				want = "PlayerStatus_Suspend"
			}
			if !q.same(x.of(r, o.st, x.status), k(r, want)) {
				c.fail("mode:status", r.fn.Pos(), r.name, "the player does not become %s", want)
			}
			if !on && q.differ(was, k(r, want)) && !q.sameInt(x.of(r, o.st, x.count), 0) {
				c.fail("mode:count", r.fn.Pos(), r.name, "missed turns are kept when the player is back")
			}
			due := on || q.differ(was, k(r, want))
			if n > 1 || due && n == 0 && !q.fails(x.of(r, r.st0, x.subscr)) || !due && n > 0 {
				c.fail("mode:report", r.fn.Pos(), r.name, "the change of the auto mode is reported %d times", n)
			}
		}
	}
}

// kIntOf is the value of an integer constant of a package.
func (c *Ctx) kIntOf(p *types.Package, name string) int64 {
	if o, ok := p.Scope().Lookup(name).(*types.Const); ok && o.Val().Kind() == constant.Int {
		v, _ := constant.Int64Val(o.Val())
		return v
	}
	c.need(false, "constant %s", name)
	return -99
}

// imported finds a package the actors use.
func (w *World) imported(name string) *types.Package {
	for _, p := range w.actor.Imports() {
		if p.Name() == name {
			return p
		}
	}
	return nil
}

// ruleC44: what a player does reaches the table once, as it was done.
func ruleC44(c *Ctx) {
	full := func() *Config { return &Config{TrackAll: true, NoAsync: true, NoGC: true} }
	ai := c.w.namedType(c.w.actor, "Actions")
	if !c.need(ai != nil, "actor.Actions") {
		return
	}
	names := ifaceMethods(ai)
	// the two layers that pass an action on
	layer := func(impl *types.Named, callee func(string) string, args func(r *Run) []*Term, n string) {
		r := c.run(c.newEngine(full()), impl, n, nil)
		if r == nil {
			return
		}
		for _, o := range r.outs {
			c.count("obligations", 1)
			q := r.e.q(o.st.facts)
			var out []Ev
			for _, f := range outward(o.st.log) {
				// asking the actor for its table
				if !(f.kind == "invoke" && strings.HasPrefix(f.name, "Actor.Get")) {
					out = append(out, f)
				}
			}
			if len(out) != 1 || out[0].kind != "invoke" || out[0].name != callee(n) || len(out[0].loops) > 0 {
				c.fail("pass:"+n, r.fn.Pos(), r.name, "the action is not passed on exactly once as %s", callee(n))
				continue
			}
			f := out[0]
			want := args(r)
			okArgs := len(f.args) == len(want)
			for i := 0; okArgs && i < len(want); i++ {
				okArgs = q.same(f.args[i], want[i])
			}
			if !okArgs {
				c.fail("args:"+n, f.pos, r.name, "the action is passed on with other values")
			}
			if len(o.ret) != 1 || !(o.ret[0] == f.res || q.same(o.ret[0], f.res) || o.ret[0].op == ONil && q.isNil(f.res)) {
				c.fail("result:"+n, f.pos, r.name, "the table's answer is not returned: %s", r.describe(o))
			}
		}
	}
	nf := c.w.fn(c.w.actor, "NewActions")
	if !c.need(nf != nil && len(nf.Params) == 2, "actor.NewActions") {
		return
	}
	var impl *types.Named
	// the player of the actions is the one they were made for
	var idf *types.Var
	if r := c.runFn(c.newEngine(full()), nf, "NewActions", nil); r != nil {
		for _, o := range r.outs {
			if len(o.ret) != 1 {
				continue
			}
			obj := o.ret[0]
			for obj.op != OAlloc && len(obj.args) > 0 {
				obj = obj.args[0]
			}
			if impl, _ = obj.typ.(*types.Named); impl == nil {
				continue
			}
			s, _ := impl.Underlying().(*types.Struct)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if r.e.load(o.st, r.e.tt.Field(obj, s.Field(i)), s.Field(i).Type()) == r.args[1] {
					idf = s.Field(i)
				}
			}
		}
	}
	if !c.need(idf != nil, "the player of the actions") {
		return
	}
	for _, n := range sortedKeys(names) {
		layer(impl, func(n string) string { return "Adapter." + n }, func(r *Run) []*Term {
			id := r.e.load(r.st0, r.e.tt.Field(r.recv, idf), idf.Type())
			return append([]*Term{id}, r.args...)
		}, n)
	}
	// the adapter of a native table engine
	ad := c.implOf(c.w.actor, "Adapter")
	if !c.need(ad != nil, "the table adapter") {
		return
	}
	for _, n := range sortedKeys(names) {
		layer(ad, func(n string) string { return "TableEngine.Player" + n }, func(r *Run) []*Term { return r.args }, n)
	}
	// the player's own actions
	x := c.playerRunner()
	if x == nil {
		return
	}
	for _, n := range sortedKeys(names) {
		r := c.run(c.newEngine(full()), x.typ, n, nil)
		if r == nil {
			continue
		}
		c.ownAction(x, r, n)
		if n == "Call" || n == "Allin" {
			// the table changes as it takes the action
			cfg := full()
			cfg.EnvHavoc = true
			if r := c.run(c.newEngine(cfg), x.typ, n, nil); r != nil {
				c.beforeAction(r, n)
			}
		}
	}
	c.count("actions", len(names))
}

// wagers: how an accepted action is reported.
var wagers = map[string]string{"Check": "WagerAction_Check", "Bet": "WagerAction_Bet", "Call": "WagerAction_Call", "Fold": "WagerAction_Fold", "Allin": "WagerAction_AllIn", "Raise": "WagerAction_Raise"}

// wagerName is the value of a wager action constant.
func (c *Ctx) wagerName(action string) string {
	p := c.w.imported("pokertable")
	if p != nil {
		if o, ok := p.Scope().Lookup(wagers[action]).(*types.Const); ok && o.Val().Kind() == constant.String {
			return constant.StringVal(o.Val())
		}
	}
	c.need(false, "constant %s", wagers[action])
	return "?"
}

// inHand: a value of the runner's last table, as the player sees it: path is
// the end of its description.
func inHand(t *Term, subs ...string) bool {
	s := spelt(t)
	for _, x := range subs {
		if !strings.Contains(s, x) {
			return false
		}
	}
	return true
}

// chipsOf: the chips that are reported with an accepted action.
func (c *Ctx) chipsOf(r *Run, q *FQ, n string, call *Effect, chips *Term) bool {
	switch n {
	case "Check", "Fold":
		return q.sameInt(chips, 0)
	case "Bet", "Raise":
		return len(call.args) == 1 && q.same(chips, call.args[0])
	case "Call":
		// what is missing to the current wager; unknown outside a hand
		return q.sameInt(chips, 0) && !inTheHand(q) || inHand(chips, ".Status.CurrentWager", "].Wager") || inHand(chips, ".Status.CurrentWager", "GetPlayer", ".Wager")
	case "Allin":
		return q.sameInt(chips, 0) && !inTheHand(q) || inHand(chips, ".StackSize")
	}
	return false
}

// inTheHand: the path found the player's place in a hand.
func inTheHand(q *FQ) bool {
	place, hand := false, false
	for t := range q.f.iv {
		if strings.HasPrefix(t.name, "pokertable.Table.FindGamePlayerIdx#") || strings.HasPrefix(t.name, "pokertable.Table.GamePlayerIndex#") {
			switch q.e.eval(q.f, q.e.tt.Less(t, q.e.tt.Int(0), types.Typ[types.Int64])) {
			case 1:
				return false
			case -1:
				place = true
			}
		}
	}
	for t := range q.f.set {
		s := spelt(t)
		switch {
		case q.isNil(t) && (strings.HasSuffix(s, ".State.GameState") || typeIs(t.typ, "pokertable", "Table", true)):
			return false
		case strings.HasSuffix(s, ".State.GameState") && q.isErr(t):
			hand = true
		}
	}
	// and the place is one of the hand
	for t, v := range q.f.iv {
		if t.op == OLin && strings.Contains(spelt(t), ".State.GameState.Players)") && v.lo <= 0 && v.hi >= 0 {
			return false
		}
	}
	return place && hand
}

func (c *Ctx) ownAction(x *runner, r *Run, n string) {
	for _, o := range r.outs {
		c.count("obligations", 1)
		q := r.e.q(o.st.facts)
		var calls, told, cancel []Ev
		for _, f := range flat(o.st.log) {
			switch {
			case f.kind == "invoke" && strings.HasPrefix(f.name, "Actions."):
				calls = append(calls, f)
			case f.kind == "callback" && f.name == "OnTableGameWagerActionUpdated":
				told = append(told, f)
			case f.kind == "ext" && f.name == "timebank.TimeBank.Cancel":
				cancel = append(cancel, f)
			}
		}
		if len(calls) != 1 || calls[0].name != "Actions."+n || len(calls[0].loops) > 0 {
			c.fail("own:"+n, r.fn.Pos(), r.name, "the action is not taken exactly once")
			continue
		}
		f := calls[0]
		same := len(f.args) == len(r.args)
		for i := 0; same && i < len(f.args); i++ {
			same = q.same(f.args[i], r.args[i])
		}
		if !same {
			c.fail("own-args:"+n, f.pos, r.name, "the action is taken with other chips")
		}
		switch {
		case q.isErr(f.res):
			if len(o.ret) != 1 || !q.same(o.ret[0], f.res) {
				c.fail("own-error:"+n, f.pos, r.name, "the table's refusal is not returned: %s", r.describe(o))
			}
			if len(told)+len(cancel) > 0 {
				c.fail("own-refused:"+n, f.pos, r.name, "a refused action is reported, or ends the waiting")
			}
			continue
		case !q.isNil(f.res):
			c.fail("own-error:"+n, f.pos, r.name, "the table's refusal makes no difference")
			continue
		}
		if len(o.ret) != 1 || !q.isNil(o.ret[0]) {
			c.fail("own-result:"+n, f.pos, r.name, "an accepted action fails: %s", r.describe(o))
		}
		if len(cancel) == 0 {
			c.fail("own-timer:"+n, f.pos, r.name, "the action timer goes on after the player acted")
		}
		if !q.sameInt(x.of(r, o.st, x.count), 0) && !(n == "Fold") {
			c.fail("own-count:"+n, f.pos, r.name, "missed turns are kept although the player acted")
		}
		if wagers[n] == "" {
			if len(told) > 0 {
				c.fail("own-report:"+n, f.pos, r.name, "the action is reported as a wager")
			}
			continue
		}
		if len(told) != 1 || len(told[0].loops) > 0 || len(told[0].args) != 6 {
			c.fail("own-report:"+n, f.pos, r.name, "the accepted action is reported %d times", len(told))
			continue
		}
		if !q.sameStr(told[0].args[4], c.wagerName(n)) {
			c.fail("own-name:"+n, told[0].pos, r.name, "the action is reported as %s", told[0].args[4])
		}
		if !c.chipsOf(r, q, n, f.Effect, told[0].args[5]) {
			c.fail("own-chips:"+n, told[0].pos, r.name, "the action is reported with %s", told[0].args[5])
		}
	}
}

// afterEnv marks memory read after something outside may have changed it.
var afterEnv = regexp.MustCompile(`@[1-9]`)

// beforeAction: what a call or an all-in costs is read before the table takes
// it; afterwards the hand shows what is left.
func (c *Ctx) beforeAction(r *Run, n string) {
	for _, o := range r.outs {
		for _, f := range flat(o.st.log) {
			if f.kind == "callback" && f.name == "OnTableGameWagerActionUpdated" && len(f.args) == 6 {
				c.count("obligations", 1)
				if afterEnv.MatchString(f.args[5].String()) {
					c.fail("own-chips:"+n, f.pos, r.name, "the reported chips are read after the table took the action: %s", f.args[5])
				}
			}
		}
	}
}

// ruleC49: what a bot does.
func ruleC49(c *Ctx) {
	fn := c.w.fn(c.w.actor, "NewBotRunner")
	if !c.need(fn != nil, "actor.NewBotRunner") {
		return
	}
	rt := fn.Signature.Results().At(0).Type()
	if p, ok := rt.Underlying().(*types.Pointer); ok {
		rt = p.Elem()
	}
	nt, _ := rt.(*types.Named)
	x := c.runner(nt, "NewBotRunner")
	if x == nil {
		return
	}
	game := lone(x.typ, isBasic(types.String), x.id)
	var human *types.Var
	if r := c.run(c.newEngine(&Config{TrackAll: true, NoAsync: true, NoGC: true}), x.typ, "Humanized", nil); r != nil {
		human = c.keptBy(r)
	}
	if !c.need(x.seen != nil && game != nil && human != nil, "the state of a bot runner") {
		return
	}
	cfg := siteCfg(nil, "invoke:Actions.*", "ext:timebank.TimeBank.*", "ext:rand.*", "callback:*")
	cfg.TrackAll, cfg.NoGC = true, true
	r := c.run(c.newEngine(cfg), x.typ, "UpdateTableState", givenTable)
	if r == nil {
		return
	}
	e := r.e
	pt := r.fn.Params[1].Type()
	up := func(path string) *Term { return e.at(r.st0, r.args[0], pt, path) }
	hand := up("State.GameState")
	ho := func(path string) *Term { return e.at(r.st0, hand, hand.typ, path) }
	list := up("State.PlayerStates")
	id := x.of(r, r.st0, x.id)
	isAct := func(f *Effect) bool { return f.kind == "invoke" && strings.HasPrefix(f.name, "Actions.") }
	isTask := func(f *Effect) bool { return f.kind == "ext" && strings.HasPrefix(f.name, "timebank.TimeBank.NewTask") }
	isJoin := func(f *Effect) bool { return f.kind == "callback" && f.name == "OnTableAutoJoinActionRequested" }
	isTold := func(f *Effect) bool { return f.kind == "callback" && f.name == "OnTableGameWagerActionUpdated" }
	pst := list.typ.Underlying().(*types.Slice).Elem()
	isIn := func(q *FQ) (yes, no bool) {
		for _, i := range q.foundIn(list, "PlayerID", id) {
			el := e.load(r.st0, e.tt.Index(list, i, pst), pst)
			v := e.at(r.st0, el, pst, "IsIn")
			yes, no = yes || q.holds(v), no || q.fails(v)
		}
		return
	}
	outOfHand := func(q *FQ, want bool) bool {
		for t := range q.f.iv {
			if x.handIdx(r, t) && (want && q.sameInt(t, -1) || !want && e.eqVal(q.f, t, e.tt.Int(-1)) == -1) {
				return true
			}
		}
		return false
	}
	asked := func(q *FQ, want bool) bool {
		for t, iv := range q.f.iv {
			if t.op == OLen && strings.Contains(t.String(), "AllowedActions") && (want && iv.lo >= 1 || !want && q.sameInt(t, 0)) {
				return true
			}
		}
		return false
	}
	sameGame := e.tt.Eq(ho("GameID"), x.of(r, r.st0, game), types.Typ[types.String])
	stale := func(q *FQ) int {
		return and3(q.e.eval(q.f, sameGame), not3(q.lessT(x.of(r, r.st0, x.seen), ho("UpdatedAt"))))
	}
	// choice: the bot's choice was one of its allowed actions
	choice := func(q *FQ, want string) bool {
		for t, s := range q.f.set {
			if t.op != OInit && t.op != OIndex && t.op != OCall || !strings.Contains(spelt(t), ".AllowedActions[") {
				continue
			}
			if q.sameStr(t, want) {
				return true
			}
			if want == "fold" {
				others := true
				for _, a := range []string{"bet", "raise", "call", "check", "allin"} {
					_, ok := s.excl[q.e.tt.Str(a)]
					others = others && ok
				}
				if others {
					return true
				}
			}
		}
		return false
	}
	// within: lo plus a random part, at most hi; or all of hi
	within := func(q *FQ, log []Ev, v *Term, lo, hi func(t *Term) bool) bool {
		if hi(v) {
			return true
		}
		for _, g := range log {
			if g.kind != "ext" || !strings.HasPrefix(g.name, "rand.Int") || len(g.args) == 0 || g.res == nil {
				continue
			}
			n := g.args[len(g.args)-1]
			low := e.tt.Sub(v, g.res)
			if lo(low) && hi(e.tt.Add(low, n)) && q.positive(n) == 1 {
				return true
			}
		}
		return false
	}
	stack := func(t *Term) bool { return t.op != OLin && strings.HasSuffix(spelt(t), ".InitialStackSize") }
	tail := func(subs ...string) func(t *Term) bool {
		return func(t *Term) bool {
			if t.op != OLin && len(subs) > 1 {
				return false
			}
			l := e.tt.toLin(t)
			if l.k != 0 || len(l.m) != len(subs) {
				return false
			}
			for _, s := range subs {
				ok := false
				for a, n := range l.m {
					ok = ok || n == 1 && strings.HasSuffix(spelt(a), s)
				}
				if !ok {
					return false
				}
			}
			return true
		}
	}
	ai := func(s *Site, q *FQ) {
		f := s.eff
		n := strings.TrimPrefix(f.name, "Actions.")
		want := strings.ToLower(n)
		bad := func(key, msg string, a ...any) { c.fail(key, f.pos, stackStr(f), msg, a...) }
		if wagers[n] == "" {
			bad("bot:act", "%s is done as a wager", n)
			return
		}
		if !choice(q, want) {
			bad("bot:choice", "%s is done without being the choice among the allowed actions", n)
		}
		log := flat(s.log)
		switch n {
		case "Bet":
			if !within(q, log, f.args[0], tail(".Status.MiniBet"), stack) {
				bad("bot:bet", "the bet is not between the minimum and the stack: %s", f.args[0])
			}
		case "Raise":
			if !within(q, log, f.args[0], tail(".Status.CurrentWager", ".Status.PreviousRaiseSize"), stack) {
				bad("bot:raise", "the raise is not between the minimum and the stack: %s", f.args[0])
			}
		}
	}
	// once: at most one action, reported iff accepted
	once := func(o *Outcome, late bool) int {
		q := e.q(o.st.facts)
		var acts, told []Ev
		for _, f := range flat(o.st.log) {
			switch {
			case isAct(f.Effect) || isTask(f.Effect) || isJoin(f.Effect):
				acts = append(acts, f)
			case isTold(f.Effect):
				told = append(told, f)
			}
		}
		if len(acts) > 1 || len(acts) == 1 && len(acts[0].loops) > 0 {
			c.fail("bot:twice", r.fn.Pos(), r.name, "the bot acts more than once")
			return len(acts)
		}
		if len(acts) == 0 {
			if len(told) > 0 {
				c.fail("bot:untrue", r.fn.Pos(), r.name, "an action that did not happen is reported")
			}
			return 0
		}
		f := acts[0]
		n := strings.TrimPrefix(f.name, "Actions.")
		wager := isAct(f.Effect) && wagers[n] != ""
		if !late && isAct(f.Effect) && !(len(o.ret) == 1 && (q.same(o.ret[0], f.res) || q.isNil(o.ret[0]) && q.isNil(f.res))) {
			c.fail("bot:result", f.pos, stackStr(f.Effect), "the table's answer to %s is not returned", n)
		}
		switch {
		case !wager || q.isErr(f.res):
			if len(told) > 0 {
				c.fail("bot:untrue", f.pos, stackStr(f.Effect), "%s is reported although it is not a wager the table accepted", n)
			}
		case !q.isNil(f.res):
			c.fail("bot:unreported", f.pos, stackStr(f.Effect), "%s: the report does not depend on the table accepting it", n)
		case len(told) != 1 || len(told[0].args) != 6:
			c.fail("bot:unreported", f.pos, stackStr(f.Effect), "%s was accepted and is reported %d times", n, len(told))
		default:
			if !q.sameStr(told[0].args[4], c.wagerName(n)) {
				c.fail("bot:name", told[0].pos, stackStr(told[0].Effect), "%s is reported as %s", n, told[0].args[4])
			}
			if !c.chipsOf(r, q, n, f.Effect, told[0].args[5]) {
				c.fail("bot:chips", told[0].pos, stackStr(told[0].Effect), "%s is reported with %s", n, told[0].args[5])
			}
		}
		return 1
	}
	n, tasks, joins := 0, 0, 0
	for _, s := range e.sites {
		f := s.eff
		if !isAct(f) && !isTask(f) && !isJoin(f) {
			continue
		}
		n++
		c.count("obligations", 1)
		q := e.q(s.facts)
		bad := func(key, msg string, a ...any) { c.fail(key, f.pos, stackStr(f), msg, a...) }
		if s.entry != r.name {
			// the thinking time is over
			if isAct(f) {
				ai(s, q)
			} else {
				bad("bot:late", "%s is done when the thinking time is over", f.name)
			}
			continue
		}
		yes, no := isIn(q)
		if isJoin(f) {
			joins++
			if !no {
				bad("bot:join", "the bot asks to join a table it did not find itself waiting at")
			}
			if len(f.args) != 3 || !q.same(f.args[0], up("Meta.CompetitionID")) || !q.same(f.args[1], up("ID")) || !q.same(f.args[2], id) {
				bad("bot:join-args", "the bot asks to join with other values")
			}
			continue
		}
		switch {
		case !yes || no:
			bad("bot:gate", "%s is done although the bot may not be at the table", f.name)
			continue
		case !q.isNil(hand) && stale(q) != -1:
			bad("bot:stale", "%s is done for an update that is not new", f.name)
			continue
		case !q.sameStr(up("State.Status"), playingStatus) || !outOfHand(q, false) || !asked(q, true):
			bad("bot:gate", "%s is done although the bot may not be asked for anything", f.name)
			continue
		}
		ante, noAnte := r.event(q, "GameEvent_AnteRequested")
		blinds, noBlinds := r.event(q, "GameEvent_BlindsRequested")
		switch f.name {
		case "Actions.Ready":
			if !q.allowed("ready") {
				bad("bot:ready", "the bot is ready without being asked")
			}
			continue
		case "Actions.Pass":
			if !q.forbidden("ready") || !q.allowed("pass") {
				bad("bot:pass", "the bot passes out of turn")
			}
			continue
		}
		if !q.forbidden("ready") || !q.forbidden("pass") {
			bad("bot:due", "%s is done although the bot is to get ready or to pass", f.name)
			continue
		}
		if f.name == "Actions.Pay" {
			var want *Term
			switch {
			case !q.allowed("pay"):
			case ante:
				want = ho("Meta.Ante")
			case blinds && q.sits("sb"):
				want = ho("Meta.Blind.SB")
			case blinds && q.sitsNot("sb") && q.sits("bb"):
				want = ho("Meta.Blind.BB")
			case blinds && q.sitsNot("sb") && q.sitsNot("bb"):
				want = ho("Meta.Blind.Dealer")
			}
			if want == nil || !q.same(f.args[0], want) {
				bad("bot:pay", "the bot pays %s", f.args[0])
			}
			continue
		}
		if !q.forbidden("pay") && !(noAnte && noBlinds) {
			bad("bot:due", "%s is done while antes or blinds are due", f.name)
			continue
		}
		if isTask(f) {
			tasks++
			ok := false
			for _, g := range flat(s.log) {
				if g.kind == "ext" && strings.HasPrefix(g.name, "rand.Int") && g.res != nil && q.same(g.args[len(g.args)-1], up("Meta.ActionTime")) && f.args[1] == e.tt.Scale(g.res, 1000000000) {
					ok = true
				}
			}
			if !ok || !q.holds(x.of(r, r.st0, human)) {
				bad("bot:think", "the bot does not think for a random part of the action time: %s", f.args[1])
			}
			continue
		}
		ai(s, q)
	}
	c.need(n >= 8 && tasks > 0 && joins > 0, "what a bot does")
	for _, o := range r.outs {
		c.count("obligations", 1)
		if once(o, false) > 0 {
			continue
		}
		q := e.q(o.st.facts)
		yes, _ := isIn(q)
		quiet := !yes && q.absentIn(list, e.pathOf(list), "PlayerID", id) || yes && (q.isNil(hand) || stale(q) == 1 || q.differ(up("State.Status"), e.tt.Str(playingStatus)) || outOfHand(q, true) || asked(q, false))
		for t := range q.f.set {
			quiet = quiet || strings.HasPrefix(t.name, "pokerface.GameState.GetPlayer#") && q.isNil(t)
		}
		if !quiet {
			c.fail("bot:missed", r.fn.Pos(), r.name, "the bot is asked to act and does nothing")
		}
	}
	for _, a := range r.asyncs("timebank.TimeBank.NewTask") {
		for _, o := range a.outcomes {
			c.count("obligations", 1)
			q := e.q(o.st.facts)
			k := once(o, true)
			if q.holds(a.params[0]) && k > 0 {
				c.fail("bot:cancelled", a.pos, r.name, "the bot acts after its thinking was cancelled")
			} else if !q.holds(a.params[0]) && !q.fails(a.params[0]) && k > 0 {
				c.fail("bot:cancelled", a.pos, r.name, "the bot acts whether or not its thinking was cancelled")
			} else if !q.holds(a.params[0]) && k != 1 && !asked(q, false) {
				c.fail("bot:missed", a.pos, r.name, "the bot does nothing after thinking")
			}
		}
	}
	c.count("sites", n)
}

var genMark = regexp.MustCompile(`@\d+(\.\d+)?`)

// givenTable: an update comes with a table.
func givenTable(r *Run, st *State) {
	r.e.assume(st.facts, r.e.tt.Eq(r.args[0], r.e.tt.Nil(), r.args[0].typ), false)
}

// spelt is the description of a value without the moment it was read at.
func spelt(t *Term) string { return genMark.ReplaceAllString(t.String(), "") }

// shares: memory that is reached from the copy is reached from the original,
// down to the given depth.
func (e *Engine) shares(st *State, v *Term, st0 *State, w *Term, pt types.Type, depth int) bool {
	if p, ok := pt.Underlying().(*types.Pointer); ok {
		pt = p.Elem()
	}
	s, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Struct); !ok && !pointerish(f.Type()) {
			continue
		}
		va, wa := e.tt.Field(v, f), e.tt.Field(w, f)
		if !pointerish(f.Type()) {
			if depth > 0 && e.shares(st, va, st0, wa, f.Type(), depth-1) {
				return true
			}
			continue
		}
		x, y := e.load(st, va, f.Type()), e.load(st0, wa, f.Type())
		if x == y && x.op != ONil && e.q(st.facts).isNil(x) == false {
			return true
		}
		if _, ok := f.Type().Underlying().(*types.Pointer); ok && depth > 0 && e.shares(st, x, st0, y, f.Type(), depth-1) {
			return true
		}
	}
	return false
}
