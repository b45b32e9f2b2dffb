package main

import (
	"go/types"
	"strings"
)

// breaking: the competition's current blind level is a break.
func (r *Run) breaking(st *State, q *FQ) int {
	e := r.e
	idx := r.comp(st, "State.BlindState.CurrentLevelIndex")
	switch q.lessT(idx, e.tt.Int(0)) {
	case 1:
		return -1
	case -1:
		x := e.indexAddr(r.comp(st, "Meta.Blind.Levels"), idx, r.c.w.fieldVar(r.c.w.root, "Blind", "Levels").Type().Underlying().(*types.Slice).Elem())
		return q.eqInt(e.load(st, e.tt.Field(x, r.c.w.fieldVar(r.c.w.root, "BlindLevel", "Level")), types.Typ[types.Int]), unset)
	}
	return 0
}

// readyMap: the map holds exactly the players of the list who are in and have
// chips, each with the position in the list.
func (e *Engine) readyMap(st *State, m *Term, from func(list *Term) bool) bool {
	v := m
	if s := e.sums[v]; s == nil && m.op == OAlloc {
		v = e.load(st, e.tt.MapC(m, m.typ), m.typ)
	}
	s := e.sums[v]
	if s == nil || s.init.op != OMapEmpty {
		return false
	}
	li := s.loop
	if li.seq == nil || !li.full || li.breaks > 0 || li.idx == nil || !from(li.seq) || len(li.conts) == 0 {
		return false
	}
	for _, ct := range li.conts {
		x, et := e.elemOf(li, ct)
		n := ct.next[s.sym]
		if x == nil || n == nil {
			return false
		}
		p := passCase{li: li, ct: ct, x: x, et: et, q: e.q(ct.st.facts)}
		ready := readyPlayer(e)(p)
		switch {
		case n == s.sym:
			if ready != -1 {
				return false
			}
		case n.op == OMapPut && n.args[0] == s.sym:
			if ready != 1 || !p.q.same(n.args[1], p.f(e, "PlayerID")) || !p.q.same(n.args[2], li.idx) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// readyAtLeast compares the number of ready players of the list with n.
func (q *FQ) readyAtLeast(from func(list *Term) bool, n *Term) int {
	e := q.e
	for _, t := range q.allTerms() {
		seq, cs, ok := e.countOf(t)
		// also as the size of the map of those players
		if m := t.op == OLen && e.sums[t.args[0]] != nil && e.readyMap(nil, t.args[0], from); m || ok && from(seq) && exactly(cs, readyPlayer(e)) {
			if v := q.lessT(t, n); v != 0 {
				return -v
			}
		}
	}
	return 0
}

// ---- C26: a paused table is opened again ----

func ruleC26(c *Ctx) {
	delayed := c.k("CompetitionStateStatus_DelayedBuyIn")
	for _, mode := range []string{"ct", "cash", "mtt"} {
		cfg := opCfg()
		cfg.NoAsync, cfg.NoGC = true, true
		r := c.updateTable(cfg, mode, "table_pausing")
		if r == nil {
			continue
		}
		e := r.e
		hand := func(l *Term) bool { return strings.HasSuffix(e.pathOf(l), ".State.PlayerStates") }
		opened := 0
		for _, o := range r.outs {
			q := e.q(o.st.facts)
			l := flat(o.st.log)
			c.count("obligations", 1)
			bad := func(f *Effect, key, msg string, x ...any) {
				if f != nil {
					c.fail("pause:"+key+":"+mode, f.pos, stackStr(f), mode+": "+msg, x...)
				} else {
					c.fail("pause:"+key+":"+mode, r.fn.Pos(), r.name, mode+": "+msg, x...)
				}
			}
			want := and3(q.readyAtLeast(hand, r.comp(r.st0, "Meta.TableMinPlayerCount")), not3(r.breaking(r.st0, q)))
			if mode == "ct" {
				want = and3(want, q.termIn(r.comp(r.st0, "State.Status"), delayed))
			}
			if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) {
				want = -1
			}
			n := 0
			for _, f := range l {
				if f.kind != "invoke" || !strings.HasPrefix(f.name, "TableManagerBackend.") {
					continue
				}
				if f.name != "TableManagerBackend.SetUpTableGame" {
					bad(f.Effect, "other", "a paused table leads to %s", f.name)
					continue
				}
				n++
				opened++
				if len(f.loops) > 0 || n > 1 {
					bad(f.Effect, "twice", "a paused table is opened more than once")
				}
				if want != 1 {
					bad(f.Effect, "gate", "a paused table is opened although too few players may be ready, or in a break, or after the buy-in of a CT: %s", r.describe(o))
				}
				if !q.same(f.args[0], r.arg(0, "ID")) || !q.same(f.args[1], e.tt.Add(r.arg0(r.st0, 0, "State.GameCount"), e.tt.Int(1))) {
					bad(f.Effect, "hand", "not the next hand of the paused table is set up (%s, %s)", f.args[0], f.args[1])
				}
				if !e.readyMap(o.st, f.args[2], hand) {
					bad(f.Effect, "players", "the hand is not set up with exactly the ready players of the table")
				}
				if !q.isNil(f.res) && !q.isErr(f.res) {
					bad(f.Effect, "error", "the result of opening the table is not examined")
				}
			}
			if n == 0 && want != -1 {
				bad(nil, "missed", "a paused table with enough ready players is not opened: %s", r.describe(o))
			}
		}
		c.need(opened > 0, "reopened tables (%s)", mode)
	}
}

// ---- C22: a table that closed ----

func ruleC22(c *Ctx) {
	cfg := opCfg()
	cfg.NoAsync, cfg.NoGC = true, true
	r := c.updateTable(cfg, "", "table_closed")
	if r == nil {
		return
	}
	e := r.e
	end := c.k("CompetitionStateStatus_End")
	gone, closed := 0, 0
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) {
			continue
		}
		c.count("obligations", 1)
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("closed:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("closed:"+key, r.fn.Pos(), r.name, msg, x...)
			}
		}
		old, now := r.comp(r.st0, "State.Tables"), r.comp(o.st, "State.Tables")
		ok := false
		for _, i := range q.found(pTables, "ID", r.arg(0, "ID")) {
			ok = ok || c.isListWithout(r, o, now, old, i)
		}
		if !ok {
			bad(nil, "kept", "a closed table is not exactly removed from the competition: %s", r.describe(o))
			continue
		}
		gone++
		l := flat(o.st.log)
		removed := -1
		for i, f := range l {
			if f.kind == "store" && f.name == "CompetitionState.Tables" {
				removed = i
			}
			if f.kind == "invoke" && strings.HasPrefix(f.name, "TableManagerBackend.") {
				bad(f.Effect, "call", "%s is called for a table that closed", f.name)
			}
		}
		told, upd := 0, 0
		for i, f := range l {
			if i < removed || f.kind != "callback" || len(f.loops) > 0 {
				continue
			}
			switch f.name {
			case "OnCompetitionStateUpdated":
				if q.sameStr(f.args[0], c.k("CompetitionStateEvent_TableUpdated")) {
					told++
				}
			case "OnCompetitionUpdated":
				upd++
			}
		}
		if told != 1 || upd == 0 {
			bad(nil, "event", "the removal of a closed table is not announced once (%d, %d)", told, upd)
		}
		left := not3(q.eqInt(e.lenOf(now), 0))
		if left == 0 {
			left = -q.lessT(e.lenOf(now), e.tt.Int(1))
		}
		st := r.comp(o.st, "State.Status")
		ends := q.sameStr(st, end) && len(evs(o.st.log, "store:CompetitionState.Status")) == 1
		stays := st == r.comp(r.st0, "State.Status") && len(evs(o.st.log, "store:CompetitionState.Status")) == 0
		switch {
		case left == -1 && !ends:
			bad(nil, "not-ended", "the competition goes on without tables: %s", r.describe(o))
		case left == 1 && !stays:
			bad(nil, "ended", "the competition ends although tables are left: %s", r.describe(o))
		case left == 0:
			bad(nil, "unseen", "it is not looked at whether tables are left: %s", r.describe(o))
		case left == -1:
			closed++
		}
	}
	c.need(gone > 0 && closed > 0, "closed tables")
}

// ---- C32: table updates ----

func ruleC32(c *Ctx) {
	handled := []string{"table_created", "table_pausing", "table_closed", "table_game_settled"}
	pt := c.w.method(c.engineType(), "UpdateTable").Params[1].Type()
	n := 0
	for _, status := range append([]string{""}, handled...) {
		cfg := siteCfg([]string{"CompetitionState.Status", "param:p1"}, "snap:store:CompetitionState.Tables[]", "invoke:*")
		if status == "table_game_settled" {
			cfg = siteCfg([]string{"CompetitionState.Status"}, "snap:store:CompetitionState.Tables[]")
		}
		if status == "" {
			cfg = opCfg()
			cfg.NoGC, cfg.Snap = true, interest("store:CompetitionState.Tables[]")
		}
		cfg.NoAsync = true
		r := c.op(cfg, "UpdateTable", func(r *Run, st *State) {
			t := r.arg0(st, 0, "State.Status")
			if status != "" {
				r.e.assume(st.facts, r.e.tt.Eq(t, r.e.tt.Str(status), types.Typ[types.String]), true)
				return
			}
			var cs []*Term
			for _, s := range handled {
				cs = append(cs, r.e.tt.Str(s))
			}
			r.e.restrict(st.facts, t, cs, false)
		})
		if r == nil {
			return
		}
		e := r.e
		id := r.arg(0, "ID")
		bad := func(f *Effect, key, msg string, x ...any) {
			if f != nil {
				c.fail("update:"+key, f.pos, stackStr(f), msg, x...)
			} else {
				c.fail("update:"+key, r.fn.Pos(), r.name, msg, x...)
			}
		}
		for _, s := range e.sites {
			if s.eff == nil || s.eff.kind != "store" || s.eff.name != "CompetitionState.Tables[]" || s.entry != r.name {
				continue
			}
			q := e.q(s.facts)
			c.count("obligations", 1)
			f := s.eff
			at := false
			for _, i := range q.found(pTables, "ID", id) {
				at = at || f.addr.op == OIndex && q.same(f.addr.args[1], i)
			}
			if !at {
				bad(f, "which", "an update replaces another table than the one it names")
			}
			marsh := 0
			for t, set := range q.f.set {
				if strings.HasPrefix(t.name, "json.Marshal#1") {
					_ = set
					if q.isErr(t) {
						marsh = -1
					} else if q.isNil(t) {
						marsh = 1
					}
				}
			}
			if f.val.op != OAlloc {
				bad(f, "shared", "the competition keeps the table of the update itself instead of a copy")
			} else if marsh != -1 && !e.copyOf(s.st, f.val, r.args[0], pt) {
				bad(f, "copy", "the competition does not keep a full copy of the updated table: %s", f.val)
			} else if marsh == -1 && !q.same(e.at(s.st, f.val, pt, "ID"), id) {
				bad(f, "copy-error", "a table that cannot be encoded is not kept either")
			}
			n++
		}
		for _, o := range r.outs {
			q := e.q(o.st.facts)
			l := flat(o.st.log)
			c.count("obligations", 1)
			if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", id) {
				for _, f := range l {
					if mutation(f.Effect) {
						bad(f.Effect, "ignored", "an update of an unknown table or an ended competition has effects (%s)", f.name)
					}
				}
				continue
			}
			k := 0
			for i, f := range l {
				if f.kind == "store" && f.name == "CompetitionState.Tables[]" {
					k++
					if len(f.loops) > 0 {
						k++
					}
					for _, g := range l[:i] {
						if mutation(g.Effect) {
							bad(g.Effect, "late", "%s happens before the competition holds the updated table", g.name)
						}
					}
				} else if status == "" && mutation(f.Effect) {
					bad(f.Effect, "other", "an update without a change of the table's phase has another effect (%s)", f.name)
				}
			}
			if k != 1 {
				bad(nil, "kept", "the updated table is kept %d times: %s", k, r.describe(o))
			}
		}
	}
	c.need(n > 0, "kept table updates")
}

// ---- C50: first hands, reserved seats and the end of automatic hands ----

func ruleC50(c *Ctx) {
	full := func() *Config { return &Config{TrackAll: true, NoAsync: true, NoGC: true} }
	bad := func(r *Run, f *Effect, key, msg string, x ...any) {
		if f != nil {
			c.fail(key, f.pos, stackStr(f), msg, x...)
		} else {
			c.fail(key, r.fn.Pos(), r.name, msg, x...)
		}
	}
	// the first hand
	if r := c.op(full(), "ReadyFirstTableGame", nil); r != nil {
		for _, o := range r.outs {
			q := r.e.q(o.st.facts)
			c.count("obligations", 1)
			l := outward(o.st.log)
			if len(l) != 1 || l[0].name != "TableManagerBackend.SetUpTableGame" || len(l[0].loops) > 0 {
				bad(r, nil, "first:call", "the first hand of a table is not set up by one call: %s", r.describe(o))
				continue
			}
			f := l[0]
			if f.args[0] != r.args[0] || f.args[1] != r.args[1] {
				bad(r, f.Effect, "first:hand", "another hand is set up than the one the table is ready for (%s, %s)", f.args[0], f.args[1])
			}
			if !r.e.readyMap(o.st, f.args[2], func(list *Term) bool { return list == r.args[2] }) {
				bad(r, f.Effect, "first:players", "the first hand is not set up with exactly the ready players")
			}
			if !q.same(o.err(), f.res) {
				bad(r, f.Effect, "first:result", "the result of setting up the first hand is not returned")
			}
		}
		c.need(len(r.outs) > 0, "first hands")
	}
	// a reserved seat
	if r := c.op(full(), "UpdateReserveTablePlayerState", nil); r != nil {
		e := r.e
		n := 0
		for _, o := range r.outs {
			q := e.q(o.st.facts)
			l := flat(o.st.log)
			c.count("obligations", 1)
			pid := r.arg(1, "PlayerID")
			if q.absent(pPlayers, pp, pid) {
				for _, f := range l {
					if mutation(f.Effect) {
						bad(r, f.Effect, "reserved:unknown", "a seat reserved for an unknown player changes the competition (%s)", f.name)
					}
				}
				continue
			}
			i := r.foundIdx(q, pid)
			if i == nil {
				bad(r, nil, "reserved:who", "a reserved seat is not given to the player it is for: %s", r.describe(o))
				continue
			}
			n++
			x, xt := r.elem(r.st0, "State.Players", i)
			v := func(p string) *Term { return e.at(o.st, x, xt, p) }
			if !q.same(v("CurrentSeat"), r.arg(1, "Seat")) || !q.same(v("CurrentTableID"), r.args[0]) || !q.sameStr(v("Status"), c.k("CompetitionPlayerStatus_Playing")) {
				bad(r, nil, "reserved:values", "the player is not playing at the reserved seat and table (%s, %s, %s)", v("CurrentTableID"), v("CurrentSeat"), v("Status"))
			}
			told := 0
			for _, f := range l {
				switch {
				case f.kind == "store" && strings.HasPrefix(f.name, "CompetitionPlayer."):
					if f.addr.args[0] != x {
						bad(r, f.Effect, "reserved:other", "another player is changed (%s)", f.name)
					}
					if told > 0 {
						bad(r, f.Effect, "reserved:early", "the player is announced before %s is final", f.name)
					}
					if nm := strings.TrimPrefix(f.name, "CompetitionPlayer."); nm != "CurrentSeat" && nm != "CurrentTableID" && nm != "Status" {
						bad(r, f.Effect, "reserved:field", "a reserved seat changes the player's %s", nm)
					}
				case f.kind == "callback" && f.name == "OnCompetitionPlayerUpdated":
					told++
					if f.args[1] != x {
						bad(r, f.Effect, "reserved:told", "another player is announced")
					}
				case f.kind == "invoke":
					bad(r, f.Effect, "reserved:call", "a reserved seat leads to %s", f.name)
				}
			}
			if told != 1 {
				bad(r, nil, "reserved:event", "the reserved seat is announced %d times", told)
			}
			if len(evs(o.st.log, "callback:OnCompetitionUpdated")) == 0 {
				bad(r, nil, "reserved:update", "no update of the competition follows a reserved seat")
			}
		}
		c.need(n > 0, "reserved seats")
	}
	// the end of automatic hands
	if r := c.op(&Config{TrackAll: true, NoAsync: true, Interest: interest("store:CompetitionState.Status", "callback:OnCompetitionStateUpdated", "invoke:*")}, "AutoGameOpenEnd", nil); r != nil {
		e := r.e
		n := 0
		for _, o := range r.outs {
			q := e.q(o.st.facts)
			c.count("obligations", 1)
			none := q.absent(pTables, "ID", r.args[0])
			sts := evs(o.st.log, "store:CompetitionState.Status")
			if none {
				if o.err() == nil || o.err() != r.errTerm("ErrCompetitionTableNotFound") || len(sts) > 0 {
					bad(r, nil, "auto-end:unknown", "the end of automatic hands at an unknown table is not refused")
				}
				continue
			}
			if !r.succeeded(o) {
				bad(r, nil, "auto-end:result", "the end of automatic hands at a table fails: %s", r.describe(o))
			}
			want := 0
			for _, i := range q.found(pTables, "ID", r.args[0]) {
				x, xt := r.elem(r.st0, "State.Tables", i)
				want = and3(q.termIn(e.at(r.st0, x, xt, "Meta.Mode"), "ct"), q.termIn(r.comp(r.st0, "State.Status"), c.k("CompetitionStateStatus_StoppedBuyIn")))
			}
			if len(sts) > 0 && (want != 1 || len(sts) > 1 || !q.sameStr(sts[0].val, c.k("CompetitionStateStatus_End"))) {
				bad(r, sts[0].Effect, "auto-end:gate", "the end of automatic hands ends a competition that is no CT or may still sell buy-ins: %s", r.describe(o))
			}
			if len(sts) == 0 && want != -1 {
				bad(r, nil, "auto-end:missed", "a CT past its buy-in goes on without hands: %s", r.describe(o))
			}
			n += len(sts)
		}
		c.need(n > 0, "ends of automatic hands")
	}
}
