package main

import (
	"go/types"
	"strconv"
	"strings"
)

// ---- C28, C29: balancing the tables of an MTT after a settled hand ----

func (c *Ctx) balanceRun(pats ...string) *Run {
	cfg := siteCfg([]string{"CompetitionState.Status", "AdvanceState.Status", "sym:Regulator.SyncState#0", "sym:Regulator.SyncState#2", "sym:TableManagerBackend.UpdateTablePlayers#1"},
		append([]string{"invoke:TableManagerBackend.UpdateTablePlayers", "invoke:Regulator.SyncState", "invoke:TableManagerBackend.CloseTable"}, pats...)...)
	cfg.NoAsync = true
	cfg.TrackTerm = func(e *Engine, t *Term) bool {
		if t.op == OLen {
			t = t.args[0]
			if strings.Contains(t.String(), "UpdateTablePlayers") {
				return true
			}
		}
		if t.op == OLin {
			next := false
			for _, a := range t.args {
				if a.op != OLen {
					return false
				}
				s := e.sums[a.args[0]]
				next = next || e.pathOf(a.args[0]) == "p1.State.NextBBOrderPlayerIDs" || s != nil && s.loop.seq != nil && e.pathOf(s.loop.seq) == "p1.State.NextBBOrderPlayerIDs"
			}
			return next
		}
		s := e.sums[t]
		return s != nil && s.loop.seq != nil && (e.pathOf(s.loop.seq) == "p1.State.NextBBOrderPlayerIDs" || strings.Contains(s.loop.seq.String(), "SyncState"))
	}
	cfg.Cut = func(log *LogNode, f *Effect) bool {
		later := f.kind == "ext" && strings.HasPrefix(f.name, "timebank.") || f.kind == "store" && strings.HasPrefix(f.name, "Statistic.")
		return later && len(evs(log, "invoke:Regulator.SyncState")) > 0
	}
	return c.op(cfg, "UpdateTable", func(r *Run, st *State) {
		e := r.e
		r.assumeStr(st, "Meta.Mode", "mtt")
		ok := e.assume(st.facts, e.tt.Eq(r.arg0(st, 0, "State.Status"), e.tt.Str("table_game_settled"), types.Typ[types.String]), true) &&
			e.assume(st.facts, e.tt.Less(e.tt.Int(0), e.lenOf(r.arg0(st, 0, "State.PlayerStates")), types.Typ[types.Bool]), true)
		if !ok {
			e.abort("contradictory setup")
		}
	})
}

// chipless: the list holds the ids of exactly the table's players without chips.
func (r *Run) chipless(t *Term) bool {
	e := r.e
	src, st := e.selectionTo(t, func(*Term) bool { return false })
	if e.pathOf(src) != "p1.State.PlayerStates" {
		return false
	}
	ok, _ := e.picksFrom(t, func(l *Term) bool { return l == src }, func(p passCase) int {
		return not3(p.q.positive(p.f(e, "Bankroll")))
	})
	if !ok {
		return false
	}
	for _, cs := range st {
		for _, p := range cs {
			if p.took == 1 && p.li.seq == src && !(p.q.same(p.val, p.f(e, "PlayerID")) || p.q.same(p.val, p.x)) {
				return false
			}
		}
	}
	return len(st) > 0
}

// segsOf decomposes a list into the lists it was put together from.
func (e *Engine) segsOf(t *Term) (out []*Term, ok bool) {
	if t == nil {
		return nil, false
	}
	if emptyList(t) {
		return nil, true
	}
	switch {
	case t.op == OAppend:
		out, ok = e.segsOf(t.args[0])
		for _, x := range t.args[1:] {
			if x.op != OSpread {
				return nil, false
			}
			s, k := e.segsOf(x.args[0])
			out, ok = append(out, s...), ok && k
		}
		return out, ok
	case e.sums[t] != nil && !emptyList(e.sums[t].init):
		return nil, false
	}
	return []*Term{t}, true
}

// alone is the list without the empty ones it was appended to.
func (e *Engine) alone(t *Term) *Term {
	if t != nil && t.op == OAppend {
		if l, ok := e.segsOf(t); ok && len(l) == 1 {
			return l[0]
		}
	}
	return t
}

// firstOf: the list is the first n (or all) of order.
func (r *Run) firstOf(q *FQ, t, order, n *Term) string {
	e := r.e
	if e.pathOf(t) == "p1.State.NextBBOrderPlayerIDs" && q.lessT(n, e.lenOf(order)) == -1 {
		return ""
	}
	if t.op == OSlice {
		hi := t.args[2]
		if e.pathOf(t.args[0]) != "p1.State.NextBBOrderPlayerIDs" || !(t.args[1] == nil || q.sameInt(t.args[1], 0)) || hi == nil {
			return "the players who go are " + t.String()
		}
		l := e.lenOf(order)
		if q.same(hi, n) || q.same(hi, l) && q.lessT(n, l) == -1 {
			return ""
		}
		return "the number of players who go is " + hi.String()
	}
	s := e.sums[t]
	if s == nil || !emptyList(s.init) || e.pathOf(s.loop.seq) != "p1.State.NextBBOrderPlayerIDs" || s.loop.idx == nil || s.loop.reverse {
		return "the players who go are not taken from those next in line (" + t.String() + ")"
	}
	li := s.loop
	// every element is taken: the length of the list counts like the index
	every := true
	for _, ct := range li.conts {
		v := ct.next[s.sym]
		every = every && v != nil && v.op == OAppend && len(v.args) == 2 && v.args[0] == s.sym && v.args[1].op != OSpread
	}
	below := func(cq *FQ) int {
		v := cq.lessT(li.idx, n)
		if k := e.lenOf(s.sym); v == 0 && every {
			if v = cq.lessT(k, n); v == 0 && q.positive(n) == 1 {
				v = not3(cq.eqInt(e.tt.Sub(k, n), 0)) // counts up to n from below
			}
		}
		return v
	}
	for _, ct := range li.conts {
		x, _ := e.elemOf(li, ct)
		v := ct.next[s.sym]
		cq := e.q(ct.st.facts)
		inside := below(cq)
		switch {
		case v == s.sym && inside == -1:
		case v != nil && v.op == OAppend && len(v.args) == 2 && v.args[0] == s.sym && cq.same(v.args[1], x) && inside == 1:
		default:
			return "a player may go although enough do, or stay although one is asked for"
		}
	}
	if li.full && li.breaks == 0 {
		return ""
	}
	for _, f := range li.brk {
		if below(e.q(f)) != -1 {
			return "fewer players go than asked for"
		}
	}
	if len(li.brk) == 0 || !li.full && len(li.brk) == li.breaks && li.cond == nil {
		return "fewer players may go than asked for"
	}
	return ""
}

func ruleC28(c *Ctx) {
	r := c.balanceRun("invoke:Regulator.ReleasePlayers", "invoke:Regulator.AddPlayers", "invoke:Regulator.SetStatus", "callback:OnCompetitionErrorUpdated")
	if r == nil {
		return
	}
	e := r.e
	id := r.arg(0, "ID")
	order := r.arg(0, "State.NextBBOrderPlayerIDs")
	moved, still, closed, quiet := 0, 0, 0, 0
	for _, o := range append(r.e.cuts, r.outs...) {
		q := e.q(o.st.facts)
		l := flat(o.st.log)
		var sync, upd, cls []Ev
		at := map[string]int{}
		for i, f := range l {
			at[f.name] = i
			switch f.name {
			case "Regulator.SyncState":
				sync = append(sync, f)
			case "TableManagerBackend.UpdateTablePlayers":
				upd = append(upd, f)
			case "TableManagerBackend.CloseTable":
				cls = append(cls, f)
			}
		}
		if len(sync)+len(upd)+len(cls) == 0 {
			continue // C31 decides when a table is balanced
		}
		c.count("obligations", 1)
		bad := func(f *Effect, key, msg string, x ...any) {
			if f == nil && len(sync) > 0 {
				f = sync[0].Effect
			}
			if f != nil {
				c.fail("balance:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("balance:"+key, r.fn.Pos(), r.name, msg, x...)
			}
		}
		if len(sync) != 1 || len(sync[0].loops) > 0 || sync[0].res == nil || sync[0].res.op != OTuple {
			bad(nil, "sync", "the regulator is not asked once about the settled table (%d)", len(sync))
			continue
		}
		sy := sync[0]
		if !q.same(sy.args[0], id) {
			bad(sy.Effect, "table", "the regulator is asked about another table (%s)", sy.args[0])
		}
		if why := r.chiplessCount(sy.args[1]); why != "" {
			bad(sy.Effect, "gone", "the regulator is not told the number of the table's players without chips: %s", why)
		}
		n, names, err := sy.res.args[0], sy.res.args[1], sy.res.args[2]
		if q.isErr(err) {
			for _, f := range append(append([]Ev{}, upd...), cls...) {
				bad(f.Effect, "failed", "the regulator gave no answer but %s is called", f.name)
			}
			if len(evs(o.st.log, "callback:OnCompetitionErrorUpdated")) == 0 {
				bad(sy.Effect, "unreported", "a failure of the regulator is not reported")
			}
			continue
		}
		if !q.isNil(err) {
			bad(sy.Effect, "unexamined", "the regulator's answer is not examined")
			continue
		}
		count := e.lenOf(r.arg(0, "State.PlayerStates"))
		if len(upd) == 0 {
			quiet++
			if !r.nobodyGoes(q, n, order) {
				bad(nil, "left", "players must leave the table but none is moved: %s", r.describe(o))
			}
			if q.positive(sy.args[1]) != -1 {
				bad(nil, "chipless", "players without chips stay at the table: %s", r.describe(o))
			}
			if !r.nobodyJoins(q, names) {
				bad(nil, "joined", "players assigned by the regulator are not seated: %s", r.describe(o))
			}
		} else {
			f := upd[0]
			if len(upd) != 1 || len(f.loops) > 0 || at["TableManagerBackend.UpdateTablePlayers"] < at["Regulator.SyncState"] || f.res == nil || f.res.op != OTuple {
				bad(f.Effect, "call", "the players of a settled table are not moved by one call")
				continue
			}
			if !q.same(f.args[0], id) {
				bad(f.Effect, "other", "players of another table are moved (%s)", f.args[0])
			}
			switch {
			case q.isNil(e.resErr(f.Effect)):
				moved++
				m := f.res.args[0]
				count = e.lenOf(e.load(o.st, e.tt.MapC(m, m.typ), m.typ))
			case !q.isErr(e.resErr(f.Effect)):
				bad(f.Effect, "result", "the result of moving the players is not examined")
				continue
			}
		}
		empty := not3(q.positive(count))
		switch {
		case len(cls) == 0 && empty != -1:
			bad(nil, "open", "the table may be left without players but open: %s", r.describe(o))
		case len(cls) > 0 && empty != 1:
			bad(cls[0].Effect, "closed", "a table is closed although players may be left: %s", r.describe(o))
		case len(cls) > 1 || len(cls) == 1 && (len(cls[0].loops) > 0 || !q.same(cls[0].args[0], id)):
			bad(cls[0].Effect, "close-once", "the empty table is not closed by one call")
		case len(cls) == 1:
			closed++
		default:
			still++
		}
	}
	for _, s := range r.sites("invoke:TableManagerBackend.UpdateTablePlayers") {
		f := s.eff
		if f == nil {
			continue
		}
		q := e.q(s.facts)
		c.count("obligations", 1)
		bad := func(key, msg string, x ...any) {
			c.fail("balance:"+key, f.pos, stackStr(f), msg, x...)
		}
		var sy *Effect
		for _, g := range flat(s.log) {
			if g.name == "Regulator.SyncState" {
				sy = g.Effect
			}
		}
		if sy == nil || sy.res == nil || sy.res.op != OTuple {
			bad("unasked", "players are moved without asking the regulator")
			continue
		}
		n, names := sy.res.args[0], sy.res.args[1]
		if join := f.args[1]; !emptyList(join) {
			if why := c.joins(r, q, join, names, func(p passCase, x *Term) bool {
				if p.q.absent(pPlayers, pp, x) {
					return true
				}
				for _, i := range p.q.found(pPlayers, pp, x) {
					el, et := r.elem(p.ct.st, "State.Players", i)
					if p.q.positive(e.at(p.ct.st, el, et, "Chips")) == -1 {
						return true
					}
				}
				return false
			}); why != "" {
				bad("who", "not exactly the assigned players with chips join: %s", why)
			}
		} else if q.eqInt(e.lenOf(names), 0) != 1 {
			bad("who", "nobody joins although the regulator may have assigned players")
		}
		segs, ok := e.segsOf(f.args[2])
		if !ok {
			bad("leave", "it is not clear who leaves (%s)", f.args[2])
			continue
		}
		zero, go_ := 0, 0
		for _, t := range segs {
			if r.chipless(t) {
				zero++
				continue
			}
			go_++
			if why := r.firstOf(q, t, order, n); why != "" {
				bad("release", "not exactly the players asked for leave: %s", why)
			}
		}
		if zero > 1 || go_ > 1 {
			bad("twice", "players leave twice (%s)", f.args[2])
		}
		if zero == 0 && q.positive(sy.args[1]) != -1 {
			bad("leave", "players without chips may stay at the table (%s)", f.args[2])
		}
		if go_ == 0 && !r.nobodyGoes(q, n, order) {
			bad("leave", "players the regulator wants to move may stay at the table (%s)", f.args[2])
		}
	}
	c.need(moved > 0 && still > 0 && closed > 0 && quiet > 0, "tables balanced, kept, closed, left alone (%d, %d, %d, %d)", moved, still, closed, quiet)
}

// chiplessCount: the term is the number of the table's players without chips.
func (r *Run) chiplessCount(t *Term) string {
	e := r.e
	if t.op == OLen && r.chipless(t.args[0]) {
		return ""
	}
	src, cs, ok := e.countOf(t)
	if ok && e.pathOf(src) == "p1.State.PlayerStates" && exactly(cs, func(p passCase) int { return not3(p.q.positive(p.f(e, "Bankroll"))) }) {
		return ""
	}
	return t.String()
}

// nobodyGoes: nobody has to leave for another table.
func (r *Run) nobodyGoes(q *FQ, n, order *Term) bool {
	e := r.e
	if q.positive(n) == -1 || q.eqInt(e.lenOf(order), 0) == 1 {
		return true
	}
	for _, t := range q.summaries() {
		if q.eqInt(e.lenOf(t), 0) == 1 && r.firstOf(q, t, order, n) == "" {
			return true
		}
	}
	return false
}

// nobodyJoins: none of the named players can be seated.
func (r *Run) nobodyJoins(q *FQ, names *Term) bool {
	e := r.e
	if q.eqInt(e.lenOf(names), 0) == 1 {
		return true
	}
	for _, t := range q.summaries() {
		if seq, _, ok := e.selectOfTo(t, q.f); ok && seq == names && q.eqInt(e.lenOf(t), 0) == 1 && r.c.joins(r, q, t, names, func(passCase, *Term) bool { return true }) == "" {
			return true
		}
	}
	return false
}

// ---- C29: what becomes of the players moved ----

func ruleC29(c *Ctx) {
	r := c.balanceRun("invoke:Regulator.ReleasePlayers", "callback:OnCompetitionErrorUpdated", "callback:OnCompetitionPlayerUpdated",
		"store:CompetitionPlayer.CurrentTableID", "store:CompetitionPlayer.CurrentSeat", "store:CompetitionPlayer.Status")
	if r == nil {
		return
	}
	e := r.e
	id := r.arg(0, "ID")
	left, came, failed := 0, 0, 0
	type verdict struct{ kind, why string }
	memo := map[string]verdict{}
	for _, o := range append(r.e.cuts, r.outs...) {
		q := e.q(o.st.facts)
		l := flat(o.st.log)
		at, sync := -1, -1
		for i, f := range l {
			switch f.name {
			case "TableManagerBackend.UpdateTablePlayers":
				at = i
			case "Regulator.SyncState":
				sync = i
			}
		}
		if sync < 0 {
			continue
		}
		c.count("obligations", 1)
		bad := func(f *Effect, key, msg string, x ...any) {
			if f == nil {
				f = l[sync].Effect
			}
			c.fail("moved:"+key, f.pos, stackStr(f), msg, x...)
		}
		var moves []*LoopInfo
		seen := map[*LoopInfo]bool{}
		var released []Ev
		for i := sync + 1; i < len(l); i++ {
			f := l[i]
			switch {
			case f.name == "Regulator.ReleasePlayers":
				released = append(released, f)
				continue
			case !(f.kind == "store" || f.name == "OnCompetitionPlayerUpdated"):
				continue
			}
			if i < at || at < 0 {
				bad(f.Effect, "early", "%s happens before the players are moved at the table", f.name)
				continue
			}
			if len(f.loops) != 1 {
				bad(f.Effect, "single", "%s happens outside of a pass over the players moved", f.name)
				continue
			}
			if li := f.loops[0]; !seen[li] {
				seen[li] = true
				moves = append(moves, li)
			}
		}
		if at < 0 {
			if len(released) > 0 {
				bad(released[0].Effect, "release", "the regulator is told of players who left although nobody did")
			}
			continue
		}
		u := l[at]
		sy := l[sync]
		if u.res == nil || u.res.op != OTuple || sy.res == nil || sy.res.op != OTuple || len(u.loops) > 0 {
			bad(u.Effect, "call", "the players of a settled table are not moved by one call")
			continue
		}
		if q.isErr(u.res.args[1]) {
			failed++
			if len(moves)+len(released) > 0 {
				bad(u.Effect, "failed", "the table did not move the players, but their records or the regulator are changed")
			}
			told := false
			for _, f := range l[at:] {
				told = told || f.name == "OnCompetitionErrorUpdated"
			}
			if !told {
				bad(u.Effect, "unreported", "it is not reported that the players could not be moved")
			}
			continue
		}
		if !q.isNil(u.res.args[1]) {
			bad(u.Effect, "unexamined", "the result of moving the players is not examined")
			continue
		}
		names, seats := sy.res.args[1], u.res.args[0]
		segs, _ := e.segsOf(u.list(2))
		var gone *Term
		for _, t := range segs {
			if !r.chipless(t) {
				gone = t
			}
		}
		nl, nj := 0, 0
		for _, li := range moves {
			k := sprint([]*Term{gone, names, seats}) + "#" + itoa(li.id)
			v, ok := memo[k]
			if !ok {
				v.kind, v.why = r.movePass(li, id, gone, names, seats)
				memo[k] = v
			}
			if v.why != "" {
				c.fail("moved:pass:"+v.kind, u.pos, stackStr(u.Effect), "%s", v.why)
			}
			if v.kind == "left" {
				nl++
			} else {
				nj++
			}
		}
		some := gone != nil && !r.nobodyGoes(q, sy.res.args[0], r.arg(0, "State.NextBBOrderPlayerIDs"))
		switch {
		case nl > 1 || nl == 0 && some:
			bad(u.Effect, "left", "the players who left are not updated once (%d)", nl)
		case len(released) > 1 || len(released) == 0 && some:
			bad(u.Effect, "release", "the regulator is not told once who left (%d)", len(released))
		case len(released) == 1:
			f := released[0]
			if len(f.loops) > 0 || !q.same(f.args[0], id) || gone == nil || e.alone(f.list(1)) != gone && e.spell(o.st, f.list(1)) != e.spell(o.st, gone) {
				bad(f.Effect, "release", "the regulator is told of other players or another table (%s)", sprint(f.args))
			}
			left++
		}
		if nj > 1 || nj == 0 && !r.nobodyJoins(q, names) && q.eqInt(e.lenOf(e.load(o.st, e.tt.MapC(seats, seats.typ), seats.typ)), 0) != 1 {
			bad(u.Effect, "joined", "the players who came are not updated once (%d): %s", nj, r.describe(o))
		}
		if nj == 1 {
			came++
		}
	}
	c.need(left > 0 && came > 0 && failed > 0, "players who leave, come, cannot be moved (%d, %d, %d)", left, came, failed)
}

func itoa(n int) string { return strconv.Itoa(n) }

// movePass examines a pass that updates the players who left the table or came
// to it.
func (r *Run) movePass(li *LoopInfo, id, gone, names, seats *Term) (kind, why string) {
	e := r.e
	if li.seq == nil || !li.full || li.breaks > 0 {
		return "?", "the pass over the players moved may end early"
	}
	for _, ct := range li.conts {
		var p *Term
		for _, f := range flat(ct.log) {
			if f.kind != "store" {
				continue
			}
			b := f.addr.args[0]
			if p != nil && p != b {
				return "?", "several players are changed for one who moved"
			}
			p = b
			if f.name != "CompetitionPlayer.CurrentTableID" {
				continue
			}
			k := "came"
			if e.q(ct.st.facts).sameStr(f.val, "") {
				k = "left"
			}
			if kind != "" && kind != k {
				return "?", "the pass treats players who left and came alike"
			}
			kind = k
		}
	}
	if kind == "" {
		return "?", "players are changed or announced without moving"
	}
	from := gone
	if kind == "came" {
		from = names
	}
	if from == nil {
		return kind, "nobody leaves, but records are changed"
	}
	isSrc := func(l *Term) bool {
		if l = e.alone(l); l == from || e.pathOf(l) != "" && e.pathOf(l) == e.pathOf(from) {
			return true
		}
		s := e.sums[from]
		return s != nil && s.loop.seq != nil && (e.alone(s.loop.seq) == l || e.pathOf(l) != "" && e.pathOf(s.loop.seq) == e.pathOf(l))
	}
	content := e.load(li.start, e.tt.MapC(seats, seats.typ), seats.typ)
	isSeats := func(t *Term) bool {
		return t == seats || t == content || t.op == OInit && t.args[0] == e.tt.MapC(seats, seats.typ)
	}
	var covers func(seq *Term) bool
	// mayDrop: the moved player need not (or cannot) be updated
	mayDrop := func(q *FQ, st *State, x *Term) bool {
		if q.absent(pPlayers, pp, x) {
			return true
		}
		for t, v := range q.f.atoms {
			if !v && t.op == OCall && t.name == "maphas" && q.same(t.args[1], x) && covers(t.args[0]) {
				return true
			}
		}
		if kind != "came" {
			return false
		}
		for _, i := range q.found(pPlayers, pp, x) {
			el, et := r.elem(st, "State.Players", i)
			if q.positive(e.at(st, el, et, "Chips")) == -1 {
				return true
			}
		}
		for t, v := range q.f.atoms {
			if !v && t.op == OCall && t.name == "maphas" && isSeats(t.args[0]) && q.same(t.args[1], x) {
				return true
			}
		}
		return false
	}
	covers = func(seq *Term) bool {
		if seq = e.alone(seq); seq == from {
			return true
		}
		s := e.sums[seq]
		if s == nil || s.loop.seq == nil || !s.loop.full || s.loop.breaks > 0 || !(s.init.op == OMapEmpty || emptyList(s.init)) || !covers(s.loop.seq) {
			return false
		}
		for _, ct := range s.loop.conts {
			x, _ := e.elemOf(s.loop, ct)
			n := ct.next[s.sym]
			if x == nil || n == nil {
				return false
			}
			switch {
			case n == s.sym:
				if !mayDrop(e.q(ct.st.facts), ct.st, x) {
					return false
				}
			case (n.op == OMapPut || n.op == OAppend) && n.args[0] == s.sym:
			default:
				return false
			}
		}
		return len(s.loop.conts) > 0
	}
	// unseated: a visit of a map whose key was looked up and has no seat
	unseated := func(li *LoopInfo, q *FQ) bool {
		for t, v := range q.f.atoms {
			if _, before := li.start.facts.atoms[t]; !v && !before && kind == "came" && li.mapSeq && t.op == OCall && t.name == "maphas" && isSeats(t.args[0]) {
				return true
			}
		}
		return false
	}
	overSeats := kind == "came" && isSeats(li.seq)
	if !overSeats && !covers(li.seq) {
		return kind, "the pass is not over all players who moved (" + li.seq.String() + ")"
	}
	for _, ct := range li.conts {
		q := e.q(ct.st.facts)
		fl := flat(ct.log)
		if len(fl) == 0 {
			if overSeats {
				ok := false
				for t, v := range q.f.atoms {
					if v || t.op != OCall || t.name != "maphas" {
						continue
					}
					ok = ok || covers(t.args[0])
				}
				if !ok {
					return kind, "a player who came may not be updated"
				}
				continue
			}
			if x, _ := e.elemOf(li, ct); x == nil && unseated(li, q) {
				continue
			} else if x == nil || !mayDrop(q, ct.st, x) {
				return kind, "a player who moved may not be updated"
			}
			continue
		}
		var p *Term
		last, told := -1, 0
		for i, f := range fl {
			if f.kind == "store" {
				p, last = f.addr.args[0], i
			}
		}
		for i, f := range fl {
			if f.name == "OnCompetitionPlayerUpdated" {
				if i < last || len(f.loops) > 0 || !q.same(f.args[1], p) {
					return kind, "the player is announced before the record is final, or another one is"
				}
				told++
			}
		}
		if p == nil || told != 1 {
			return kind, "a player who moved is not announced once"
		}
		ok := false
		var key *Term
		for t, v := range q.f.atoms {
			if !v || t.op != OEq {
				continue
			}
			for i, a := range t.args {
				x := e.rootIndex(t.args[1-i])
				if e.pathOf(a) == pPlayers+"[]."+pp && x != nil && isSrc(x.args[0]) && a.op == OInit && a.args[0].op == OField && a.args[0].args[0] == p {
					ok, key = true, t.args[1-i]
				}
			}
		}
		if !ok {
			return kind, "a player may be changed who did not move (" + p.String() + ")"
		}
		pt := r.c.playerType()
		f := func(n string) *Term { return e.at(ct.st, p, pt, n) }
		if kind == "left" {
			if !q.sameStr(f("CurrentTableID"), "") || !q.sameInt(f("CurrentSeat"), unset) || !q.sameStr(f("Status"), r.c.k("CompetitionPlayerStatus_WaitingTableBalancing")) {
				return kind, "a player who left keeps a table or seat or does not wait (" + f("CurrentTableID").String() + ", " + f("CurrentSeat").String() + ", " + f("Status").String() + ")"
			}
			continue
		}
		if !q.same(f("CurrentTableID"), id) || !q.sameStr(f("Status"), r.c.k("CompetitionPlayerStatus_Playing")) {
			return kind, "a player who came does not play at the table (" + f("CurrentTableID").String() + ", " + f("Status").String() + ")"
		}
		seat := f("CurrentSeat")
		if seat.op != OCall || seat.name != "mapget" || !isSeats(seat.args[0]) || !(q.same(seat.args[1], key) || overSeats && seat.args[1].op == OSym) {
			return kind, "a player who came has not the seat given by the table (" + seat.String() + ")"
		}
	}
	return kind, ""
}
