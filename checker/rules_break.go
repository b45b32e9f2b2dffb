package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C25: after a break every table plays on ----

// keysOf: the keys that lead from a container of the engine to this map.
// puts are the entries made on the way (for maps created on the path).
func keysOf(m *Term, puts []Ev, depth int) []*Term {
	if depth > 4 {
		return nil
	}
	switch {
	case m.op == OAlloc:
		for _, p := range puts {
			if len(p.args) > 1 && p.args[1] == m {
				return append(keysOf(p.addr, puts, depth+1), p.args[0])
			}
		}
	case m.op == OCall && m.name == "mapget":
		return append(keysOf(m.args[0], puts, depth+1), m.args[1])
	case m.op == OMapPut || m.op == OMapDel || m.op == OMapC || m.op == OInit:
		return keysOf(m.args[0], puts, depth+1)
	}
	return nil
}

// keyed: the keys name the pair: 2 both, 1 one of them only, 0 something else.
func keyed(q *FQ, keys []*Term, text, num *Term) int {
	a, b := false, false
	for _, k := range keys {
		switch {
		case q.same(k, text):
			a = true
		case q.same(k, num):
			b = true
		case tellsApart(k, text, num):
			a, b = true, true
		default:
			return 0
		}
	}
	switch {
	case a && b:
		return 2
	case a || b:
		return 1
	}
	return 0
}

// timedBefore: an entry for the pair was there before (1), was not (-1).
func timedBefore(q *FQ, puts []Ev, text, num *Term) int {
	for t, v := range q.f.atoms {
		if t.op != OCall || t.name != "maphas" {
			continue
		}
		switch keyed(q, append(keysOf(t.args[0], puts, 0), t.args[1]), text, num) {
		case 2:
			if v {
				return 1
			}
			return -1
		case 1:
			if !v {
				return -1
			}
		}
	}
	// no map of the table's breaks
	for _, t := range q.allTerms() {
		if t.op == OCall && t.name == "mapget" && keyed(q, keysOf(t, puts, 0), text, num) == 1 && q.isNil(t) {
			return -1
		}
	}
	return 0
}

// breakTimers: the timers set for the end of a level.
func breakTimers(e *Engine, l []Ev) []Ev {
	var r []Ev
	for _, f := range l {
		if f.kind == "ext" && strings.HasPrefix(f.name, "timebank.TimeBank.NewTask") && isBreakTimer(e, f.args) {
			r = append(r, f)
		}
	}
	return r
}

func isBreakTimer(e *Engine, args []*Term) bool {
	d := deadline(args)
	return d != nil && (e.leaves(d)["CompetitionBlindState.EndAts"] || e.leaves(d)["BlindState.EndAts"])
}

func breakCfg() *Config {
	cfg := siteCfg([]string{"CompetitionState.Status", "BlindState.CurrentLevelIndex", "BlindLevel.Level"}, "snap:ext:timebank.TimeBank.*", "mapput:*")
	cfg.TrackTerm = func(e *Engine, t *Term) bool {
		return t.op == OCall && (t.name == "maphas" || strings.HasPrefix(t.name, "sync.Map.Load"))
	}
	return cfg
}

// breakTask checks one stretch of a path that deals with one table.
func (r *Run) breakTask(q *FQ, st *State, l []Ev, id *Term, bad func(f *Effect, key, msg string, a ...any), describe func() string) (set int) {
	e := r.e
	idx := r.comp(st, "State.BlindState.CurrentLevelIndex")
	var puts []Ev
	for _, f := range l {
		if f.kind == "mapput" {
			puts = append(puts, f)
		}
	}
	before := timedBefore(q, puts, id, idx)
	breaking := r.breaking(st, q)
	ts := breakTimers(e, l)
	if len(ts) == 0 {
		if breaking != -1 && before != 1 {
			bad(nil, "none", "no timer resumes the table after the break: %s", describe())
		}
		return 0
	}
	f := ts[0].Effect
	if len(ts) > 1 {
		bad(f, "twice", "%d timers resume the table after a break", len(ts))
	}
	if breaking != 1 {
		bad(f, "no-break", "a timer to resume the table is set although there is no break")
	}
	if before != -1 {
		bad(f, "again", "another timer is set for the same table and break")
	}
	x := e.indexAddr(r.comp(st, "State.BlindState.EndAts"), idx, types.Typ[types.Int64])
	at := e.load(st, x, types.Typ[types.Int64])
	late := false
	for k := int64(1); k <= 60; k++ {
		late = late || q.same(deadline(f.args), e.tt.Add(at, e.tt.Int(k)))
	}
	if !late {
		bad(f, "at", "the table is not resumed shortly after the end of the level but at %s", deadline(f.args))
	}
	made := false
	for _, p := range puts {
		keys := append(keysOf(p.addr, puts, 0), p.args[0])
		made = made || keyed(q, keys, id, idx) == 2
		// a map made on the path
		if v := p.args[1]; v.op == OAlloc {
			for m := e.load(st, e.tt.MapC(v, v.typ), v.typ); m.op == OMapPut; m = m.args[0] {
				made = made || keyed(q, append(keys[:len(keys):len(keys)], m.args[1]), id, idx) == 2
			}
		}
	}
	for _, p := range puts {
		if fv := rootField(p.addr); fv != nil && made {
			if r.remembers != nil {
				r.remembers[fv] = true
			}
		}
	}
	if !made {
		bad(f, "forgotten", "it is not remembered that the table and break have their timer")
	}
	return 1
}

func ruleC25(c *Ctx) {
	remembers := map[*types.Var]bool{}
	// every settled hand
	for _, mode := range []string{"ct", "cash", "mtt"} {
		cfg := breakCfg()
		cfg.NoAsync = true
		r := c.updateTable(cfg, mode, "table_game_settled")
		if r == nil {
			continue
		}
		r.remembers = remembers
		n := 0
		for _, o := range r.outs {
			q := r.e.q(o.st.facts)
			c.count("obligations", 1)
			bad := func(f *Effect, key, msg string, x ...any) {
				if f != nil {
					c.fail("break:"+key+":"+mode, f.pos, stackStr(f), mode+": "+msg, x...)
				} else {
					c.fail("break:"+key+":"+mode, r.fn.Pos(), r.name, mode+": "+msg, x...)
				}
			}
			l := flat(o.st.log)
			if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) || handSeen(q) {
				for _, f := range breakTimers(r.e, l) {
					bad(f.Effect, "ended", "a table is to be resumed although it is unknown, the competition ended or the hand was settled before")
				}
				continue
			}
			n += r.breakTask(q, o.st, l, r.arg(0, "ID"), bad, func() string { return r.describe(o) })
		}
		c.need(n > 0, "break timers after a settled hand (%s)", mode)
	}
	c.breakListener()
	c.breakCreate()
	c.breakBody()
	c.breakMemory(remembers)
}

// rootField: the field of the engine in which this map is found.
func rootField(t *Term) *types.Var {
	for n := 0; t != nil && n < 12; n++ {
		if t.op == OField {
			return t.fv
		}
		if len(t.args) == 0 {
			return nil
		}
		t = t.args[0]
	}
	return nil
}

// breakMemory: what is remembered about the other tables is never thrown away.
func (c *Ctx) breakMemory(fields map[*types.Var]bool) {
	ofField := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fields[fieldOf(fa)]
	}
	for _, fn := range c.w.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !fields[fieldOf(fa)] {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					// made when first needed
					lazy := false
					for d := b.Idom(); d != nil; d = d.Idom() {
						i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
						if !ok {
							continue
						}
						if cmp, ok := i.Cond.(*ssa.BinOp); ok && (cmp.Op == token.EQL && d.Succs[0].Dominates(b) || cmp.Op == token.NEQ && d.Succs[1].Dominates(b)) {
							lazy = lazy || ofField(cmp.X) || ofField(cmp.Y)
						}
					}
					if !lazy {
						c.fail("break:memory", x.Pos(), fn.String(), "which tables have their timer after a break is forgotten for all tables")
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "clear" && ofField(x.Call.Args[0]) {
						c.fail("break:memory", x.Pos(), fn.String(), "which tables have their timer after a break is forgotten for all tables")
					}
				}
			}
		}
	}
}

// breakListener: a level change deals with every table.
func (c *Ctx) breakListener() {
	r, a := c.blindRunCfg(breakCfg(), "")
	if a == nil {
		return
	}
	e := r.e
	passes := map[*LoopInfo]bool{}
	bad := func(f *Effect, key, msg string, x ...any) {
		if f != nil {
			c.fail("break-level:"+key, f.pos, stackStr(f), msg, x...)
		} else {
			c.fail("break-level:"+key, a.pos, a.label, msg, x...)
		}
	}
	timers := 0
	for _, o := range a.outcomes {
		q := e.q(o.st.facts)
		if r.ended(a.st0, q) == 1 {
			continue
		}
		c.count("obligations", 1)
		any := false
		for _, f := range breakTimers(e, flat(o.st.log)) {
			if len(f.loops) == 0 {
				bad(f.Effect, "loop", "a table is to be resumed outside the pass over the tables")
				continue
			}
			any = true
			passes[f.loops[0]] = true
		}
		if !any && r.breaking(o.st, q) != -1 {
			// the pass over the tables, whose iterations are judged below
			known := false
			for _, f := range o.st.log.effects() {
				known = known || f.kind == "loop" && f.loop != nil && e.pathOf(f.loop.seq) == pTables
			}
			if !known && r.e.tablesLeft(q) {
				bad(nil, "none", "a break starts without timers for the tables: %s", r.describe(o))
			}
		}
	}
	for li := range passes {
		if !li.full || li.breaks > 0 || li.seq == nil || e.pathOf(li.seq) != pTables {
			bad(nil, "pass", "not every table gets a timer when a break starts")
			continue
		}
		for _, ct := range li.conts {
			x, et := e.elemOf(li, ct)
			l := flat(ct.log)
			timers += r.breakTask(e.q(ct.st.facts), ct.st, l, e.at(ct.st, x, et, "ID"), bad, func() string { return "iteration over the tables" })
		}
	}
	c.need(timers > 0, "break timers at a level change")
}

// tablesLeft: the path does not rule out that there are tables.
func (e *Engine) tablesLeft(q *FQ) bool {
	for _, t := range q.allTerms() {
		if t.op == OLen && e.pathOf(t.args[0]) == pTables && e.ivOf(q.f, t).hi <= 0 {
			return false
		}
	}
	return true
}

// breakCreate: a table the regulator asks for while the competition is in a
// break.
func (c *Ctx) breakCreate() {
	cfg := breakCfg()
	in := cfg.Interest
	cfg.Interest = func(f *Effect) bool {
		return in(f) || f.kind == "invoke" && f.name == "TableManagerBackend.CreateTable"
	}
	cfg.Track["TableState.Status"] = true
	cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool { return a.name == "regulator.WithRequestTableFn" }
	r := c.op(cfg, "CreateCompetition", nil)
	if r == nil {
		return
	}
	e := r.e
	n := 0
	for _, a := range r.asyncs("regulator.WithRequestTableFn") {
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("break-new:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("break-new:"+key, a.pos, a.label, msg, x...)
			}
		}
		for _, o := range a.outcomes {
			q := e.q(o.st.facts)
			l := flat(o.st.log)
			c.count("obligations", 1)
			var made *Effect
			for _, f := range l {
				if f.kind == "invoke" && f.name == "TableManagerBackend.CreateTable" {
					made = f.Effect
				}
			}
			if made == nil || !q.isNil(e.resErr(made)) {
				for _, f := range breakTimers(e, l) {
					bad(f.Effect, "failed", "a table is to be resumed that was not created")
				}
				continue
			}
			tb := made.res.args[0]
			paused := q.termIn(e.at(o.st, tb, tb.typ, "State.Status"), "table_pausing")
			if paused == -1 {
				for _, f := range breakTimers(e, l) {
					bad(f.Effect, "running", "a timer resumes a table that is not paused")
				}
				continue
			}
			if paused == 0 && r.breaking(o.st, q) == -1 {
				continue
			}
			n += r.breakTask(q, o.st, l, e.at(o.st, tb, tb.typ, "ID"), bad, func() string { return r.describe(o) })
		}
	}
	c.need(n > 0, "break timers of new tables")
}

// aliveAtLeast compares the number of players with chips at the table with the
// index with n.
func (q *FQ) aliveAtLeast(idx, n *Term) int {
	e := q.e
	var of func(t *Term) bool
	of = func(t *Term) bool {
		if t.op == OIndex && e.pathOf(t.args[0]) == pTables && q.same(t.args[1], idx) {
			return true
		}
		for _, a := range t.args {
			if of(a) {
				return true
			}
		}
		return false
	}
	for _, t := range q.allTerms() {
		is := t.op == OLen && t.args[0].op == OCall && strings.Contains(t.args[0].name, "AlivePlayers") && of(t.args[0])
		if !is {
			seq, cs, ok := e.countOf(t)
			is = ok && e.pathOf(seq) == pTables+"[].State.PlayerStates" && of(seq) && exactly(cs, func(p passCase) int { return p.q.positive(p.f(e, "Bankroll")) })
		}
		if is {
			if v := q.lessT(t, n); v != 0 {
				return -v
			}
		}
	}
	return 0
}

// breakBody: what the timer does.
func (c *Ctx) breakBody() {
	cfg := breakCfg()
	body := false
	outside := cfg.Interest
	inside := interest("invoke:TableManagerBackend.*", "callback:OnCompetitionErrorUpdated", "mapput:*", "store:Competition*.*", "store:BlindState.*")
	cfg.Interest = func(f *Effect) bool {
		if body {
			return inside(f)
		}
		return outside(f)
	}
	track := cfg.TrackTerm
	cfg.TrackTerm = func(e *Engine, t *Term) bool { return body || track(e, t) }
	cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool {
		if !isBreakTimer(e, a.args) {
			return false
		}
		body, cfg.NoGC = true, true
		return true
	}
	r := c.updateTable(cfg, "cash", "table_game_settled")
	if r == nil {
		return
	}
	e := r.e
	id := r.arg(0, "ID")
	was := r.comp(r.st0, "State.BlindState.CurrentLevelIndex")
	var next, first int
	for _, a := range r.asyncs("timebank.") {
		for _, o := range a.outcomes {
			q := e.q(o.st.facts)
			l := flat(o.st.log)
			c.count("obligations", 1)
			bad := func(f *Effect, key, msg string, x ...any) {
				if f != nil {
					c.fail("break-over:"+key, f.pos, stackStr(f), msg, x...)
				} else {
					c.fail("break-over:"+key, a.pos, a.label, msg, x...)
				}
			}
			at := func(p string) *Term { return r.comp(a.st0, p) }
			now := at("State.BlindState.CurrentLevelIndex")
			// what is asked for
			act, start := 1, 0
			if q.holds(a.params[0]) {
				act = -1
			}
			act = and3(act, not3(r.ended(a.st0, q)))
			other := r.breaking(a.st0, q)
			if q.same(now, was) {
				other = -1
			} else if q.differ(now, was) {
				other = and3(other, 1)
			} else {
				other = and3(other, 0)
			}
			act = and3(act, not3(other))
			for t, v := range q.f.atoms {
				if v && t.op == OCall && t.name == "mapget" && keyed(q, append(keysOf(t.args[0], nil, 0), t.args[1]), id, now) == 2 {
					act = -1
				}
			}
			var tb *Term
			var tt types.Type
			if q.absent(pTables, "ID", id) {
				act = -1
			} else {
				for _, i := range q.found(pTables, "ID", id) {
					x, xt := r.elem(a.st0, "State.Tables", i)
					if q.same(e.at(a.st0, x, xt, "ID"), id) {
						tb, tt = x, xt
						act = and3(act, q.aliveAtLeast(i, e.at(a.st0, tb, tt, "Meta.TableMinPlayerCount")))
						break
					}
				}
				if tb == nil {
					act = and3(act, 0)
				}
			}
			hand := func(list *Term) bool { return tb != nil && q.same(list, e.at(a.st0, tb, tt, "State.PlayerStates")) }
			if tb != nil && act != -1 {
				g := e.at(a.st0, tb, tt, "State.GameCount")
				switch {
				case q.positive(g) == 1:
				case q.eqInt(g, 0) == 1:
					start = 1
					act = and3(act, q.readyAtLeast(hand, at("Meta.TableMinPlayerCount")))
				case q.lessT(g, e.tt.Int(0)) == 1:
					act = -1
				default:
					act = and3(act, 0)
				}
			}
			n := 0
			for i, f := range l {
				if f.kind == "callback" {
					continue
				}
				if f.kind == "store" {
					bad(f.Effect, "store", "the competition's state is changed when a table is resumed (%s)", f.name)
					continue
				}
				if f.kind != "invoke" {
					continue
				}
				n++
				c.count("obligations", 1)
				want := "TableManagerBackend.SetUpTableGame"
				if start == 1 {
					want = "TableManagerBackend.StartTableGame"
					first++
				} else {
					next++
				}
				if f.name != want {
					bad(f.Effect, "how", "a table is resumed with %s instead of %s", f.name, want)
					continue
				}
				if n > 1 || len(f.loops) > 0 {
					bad(f.Effect, "twice", "a table is resumed more than once")
				}
				if act != 1 {
					bad(f.Effect, "gate", "a table is resumed although the timer was cancelled, the competition ended, another break runs, it was resumed before, is closed or lacks players: %s", r.describe(o))
				}
				if !q.same(f.args[0], id) {
					bad(f.Effect, "table", "%s is resumed instead of the table the timer is for", f.args[0])
				}
				if start != 1 && tb != nil {
					if !q.same(f.args[1], e.tt.Add(e.at(a.st0, tb, tt, "State.GameCount"), e.tt.Int(1))) {
						bad(f.Effect, "hand", "not the next hand is set up but %s", f.args[1])
					}
					if !e.readyMap(o.st, f.args[2], hand) {
						bad(f.Effect, "players", "the hand is not set up with exactly the ready players of the table")
					}
				}
				surfaced := false
				for _, g := range l[i:] {
					surfaced = surfaced || g.kind == "callback" && g.name == "OnCompetitionErrorUpdated" && q.same(g.args[1], f.res)
				}
				if !q.isNil(f.res) && !surfaced {
					bad(f.Effect, "error", "the failure to resume a table is not reported")
				}
			}
			if n == 0 && act != -1 {
				bad(nil, "missed", "a table with enough players is not resumed after the break: %s", r.describe(o))
			}
		}
	}
	c.need(next > 0 && first > 0, "tables resumed after a break")
}
