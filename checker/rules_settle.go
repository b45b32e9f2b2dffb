package main

import (
	"go/types"
	"strings"
)

// ---- C13: a hand is settled once ----

// keyParts splits a text value into its literals and the values written
// between them.
func keyParts(t *Term) []any {
	if s, ok := t.strVal(); ok {
		return []any{s}
	}
	switch {
	case t.op == OBin && t.name == "+" && !isIntType(t.typ):
		return append(keyParts(t.args[0]), keyParts(t.args[1])...)
	case t.op == OCall && (t.name == "strconv.Itoa" || t.name == "strconv.FormatInt"):
		return []any{t.args[0]}
	case t.op == OCall && (t.name == "fmt.Sprintf" || t.name == "fmt.Sprint"):
		args := t.args
		if len(args) == 2 && args[1].op == OSliceOf {
			return []any{t}
		}
		if t.name == "fmt.Sprint" {
			if len(args) == 1 {
				return []any{args[0]}
			}
			return []any{t}
		}
		f, ok := args[0].strVal()
		if !ok {
			return []any{t}
		}
		args = args[1:]
		var r []any
		lit := ""
		for i := 0; i < len(f); i++ {
			if f[i] != '%' || i+1 == len(f) {
				lit += f[i : i+1]
				continue
			}
			i++
			if f[i] == '%' {
				lit += "%"
				continue
			}
			if !strings.ContainsRune("sdvq", rune(f[i])) || len(args) == 0 {
				return []any{t}
			}
			if lit != "" {
				r = append(r, lit)
				lit = ""
			}
			r = append(r, keyParts(args[0])...)
			args = args[1:]
		}
		if lit != "" {
			r = append(r, lit)
		}
		return r
	}
	return []any{t}
}

// tellsApart: different pairs (a text and a number) give different keys.
func tellsApart(key, text, num *Term) bool {
	if key.op == OStruct || key.op == OTuple {
		a, b := false, false
		for _, x := range key.args {
			a, b = a || x == text, b || x == num
		}
		return a && b
	}
	var vals []*Term
	sep := ""
	for _, p := range keyParts(key) {
		switch x := p.(type) {
		case string:
			if len(vals) == 1 {
				sep += x
			}
		case *Term:
			vals = append(vals, x)
		}
	}
	if len(vals) != 2 || strings.Trim(sep, "0123456789-+") == "" {
		return false
	}
	return vals[0] == text && vals[1] == num || vals[0] == num && vals[1] == text
}

func ruleC13(c *Ctx) {
	cfg := siteCfg([]string{"CompetitionState.Status"}, "*:*")
	cfg.NoAsync = true
	keep := interest("store:CompetitionPlayer.Chips", "store:Statistic.PlayingPlayerCount")
	cfg.Quiet = func(f *Effect) bool { return !keep(f) }
	r := c.updateTable(cfg, "", "table_game_settled")
	if r == nil {
		return
	}
	e := r.e
	id, hand := r.arg(0, "ID"), r.arg(0, "State.GameCount")
	var seen []*Term
	var rec *types.Var
	for _, s := range r.sites("ext:sync.Map.LoadOrStore") {
		f := s.eff
		if !tellsApart(f.args[1], id, hand) {
			c.fail("once:key", f.pos, strings.Join(s.stack, " → "), "the record of settled hands does not tell every table and hand apart: %s", f.args[1])
		}
		if f.args[0].op == OField && f.args[0].args[0] == r.recv {
			rec = f.args[0].fv
		}
		seen = append(seen, f.res.args[1])
	}
	if !c.need(len(seen) > 0 && rec != nil, "the atomic record of settled hands (sync.Map.LoadOrStore of a field of the engine)") {
		return
	}
	var sites []*Site
	for _, s := range r.muts() {
		if strings.HasPrefix(s.eff.name, "sync.Map.") || s.eff.kind == "store" && strings.HasPrefix(s.eff.name, "CompetitionState.Tables[") {
			continue
		}
		sites = append(sites, s)
	}
	first := func(q *FQ) bool {
		for _, t := range seen {
			if q.fails(t) {
				return true
			}
		}
		return false
	}
	c.gate(r, sites, "once", "this hand of this table was not settled before", func(q *FQ, s *Site) bool { return first(q) })
	n := 0
	for _, o := range r.outs {
		q := e.q(o.st.facts)
		if !first(q) {
			again := false
			for _, t := range seen {
				again = again || q.holds(t)
			}
			if !again && r.ended(r.st0, q) != 1 && !q.absent(pTables, "ID", id) {
				c.fail("once:missed", r.fn.Pos(), r.name, "a settled hand is not looked at: %s", r.describe(o))
			}
			continue
		}
		n++
		c.count("obligations", 1)
		if len(evs(o.st.log, "store:CompetitionPlayer.Chips")) == 0 || len(evs(o.st.log, "store:Statistic.PlayingPlayerCount")) == 0 {
			c.fail("once:skipped", r.fn.Pos(), r.name, "a hand is recorded as settled, but the players' chips or the statistics are not updated on this path: %s", r.describe(o))
		}
	}
	c.need(n > 0, "settled hands")
	// the record is only forgotten when the competition ends
	k := 0
	for _, m := range allOps {
		cfg := siteCfg(nil, "store:"+c.engineType().Obj().Name()+"."+rec.Name(), "ext:sync.Map.*", "store:CompetitionState.Status")
		x := c.op(cfg, m, nil)
		if x == nil {
			continue
		}
		for _, s := range x.e.sites {
			f := s.eff
			switch {
			case f.kind == "store" && f.addr.fv == rec:
			case f.kind == "ext" && len(f.args) > 0 && f.args[0].op == OField && f.args[0].fv == rec && f.name != "sync.Map.LoadOrStore" && f.name != "sync.Map.Load" && f.name != "sync.Map.Range":
			default:
				continue
			}
			k++
			c.count("obligations", 1)
			ended := x.ended(s.st0(x), x.e.q(s.facts)) == 1
			for _, b := range s.before() {
				ended = ended || b.kind == "store" && b.name == "CompetitionState.Status"
			}
			if !ended {
				c.fail("once:forgotten", f.pos, strings.Join(s.stack, " → "), "the record of settled hands is forgotten although the competition has not ended")
			}
		}
	}
	c.count("resets of the record", k)
}

func (s *Site) st0(r *Run) *State {
	if s.st != nil {
		return s.st
	}
	return r.st0
}

var allOps = []string{"CreateCompetition", "StartCompetition", "CloseCompetition", "UpdateTable", "PlayerBuyIn", "PlayerAddon", "PlayerRefund", "PlayerCashOut", "PlayerQuit", "UpdateReserveTablePlayerState", "AutoGameOpenEnd", "ReleaseTables", "ReadyFirstTableGame", "UpdateCompetitionBlindInitialLevel"}

// ---- C14: what a knockout does ----

type koRun struct {
	r    *Run
	outs []*Outcome
	st0  *State
	stop bool
	name string
}

var koPats = []string{"store:CompetitionPlayer.Status", "store:CompetitionPlayer.KnockoutAt", "store:CompetitionPlayer.CurrentSeat", "store:CompetitionPlayer.IsReBuying", "store:CompetitionPlayer.ReBuyEndAt",
	"store:CompetitionState.Rankings", "callback:OnCompetitionPlayerUpdated", "callback:OnCompetitionFinalPlayerRankUpdated", "sort:*"}

// settleRun analyses a table-settled update; states are kept apart by what is
// listed only.
func (c *Ctx) settleRun(mode string, track []string, pats ...string) *Run {
	cfg := siteCfg(append([]string{"CompetitionState.Status"}, track...), pats...)
	cfg.NoAsync = true
	return c.updateTable(cfg, mode, "table_game_settled")
}

// blindRun analyses the blind listener.
func (c *Ctx) blindRun(mode string, track []string, pats ...string) (*Run, *Async) {
	return c.blindRunCfg(siteCfg(append([]string{"CompetitionState.Status"}, track...), pats...), mode)
}

func (c *Ctx) blindRunCfg(cfg *Config, mode string) (*Run, *Async) {
	var run *Run
	if mode != "" {
		cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool {
			if !strings.HasPrefix(a.name, "Blind.OnBlindStateUpdated") {
				return false
			}
			run.assumeStr(st, "Meta.Mode", mode)
			return true
		}
	} else {
		cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool {
			return strings.HasPrefix(a.name, "Blind.OnBlindStateUpdated")
		}
	}
	r := c.op(cfg, "CreateCompetition", func(r *Run, st *State) { run = r })
	if r == nil {
		return nil, nil
	}
	as := r.asyncs("Blind.OnBlindStateUpdated")
	if !c.need(len(as) == 1, "the listener of the blind clock (%d)", len(as)) {
		return r, nil
	}
	return r, as[0]
}

func (c *Ctx) koRuns(pats []string, track ...string) []koRun {
	var l []koRun
	if r := c.settleRun("", track, pats...); r != nil {
		l = append(l, koRun{r, r.outs, r.st0, false, "settlement"})
	}
	if r, a := c.blindRun("", track, pats...); r != nil && a != nil {
		l = append(l, koRun{r, a.outcomes, a.st0, true, "end of buy-in"})
	}
	return l
}

type koIter struct {
	ev  Ev
	st  *State // after the iteration
	log *LogNode
	li  *LoopInfo
	x   *Term // the record that is knocked out
}

// knockouts lists the distinct iterations that mark a player knocked out.
func (c *Ctx) knockouts(k koRun) []koIter {
	ko := c.k("CompetitionPlayerStatus_Knockout")
	var l []koIter
	seen := map[*Cont]bool{}
	for _, o := range k.outs {
		for _, f := range evs(o.st.log, "store:CompetitionPlayer.Status") {
			if s, ok := f.val.strVal(); ok && s != ko {
				continue
			}
			if f.cont != nil && seen[f.cont] {
				continue
			}
			it := koIter{ev: f, st: o.st, log: o.st.log, x: f.addr.args[0]}
			if f.cont != nil {
				seen[f.cont] = true
				it.st, it.log, it.li = f.cont.st, f.cont.log, f.loops[len(f.loops)-1]
			}
			l = append(l, it)
		}
	}
	return l
}

func stackStr(f *Effect) string { return strings.Join(f.stack, " → ") }

// chipHolders: the number of players with chips.
func (r *Run) chipHolders(t *Term) bool { return r.chipHoldersPlus(t, r.e.tt.Int(0)) }

// chipHoldersPlus: t is extra plus the number of players with chips.
func (r *Run) chipHoldersPlus(t, extra *Term) bool {
	seq, cs, ok := r.e.countOf(r.e.tt.Sub(t, extra))
	if !ok {
		seq, cs, ok = r.e.countFrom(t, extra)
	}
	return ok && r.e.pathOf(seq) == pPlayers && exactly(cs, func(p passCase) int { return p.q.positive(p.f(r.e, "Chips")) })
}

func ruleC14(c *Ctx) {
	for _, k := range c.koRuns(koPats) {
		r, e := k.r, k.r.e
		its := c.knockouts(k)
		c.need(len(its) > 0, "knockouts at the %s", k.name)
		ko := c.k("CompetitionPlayerStatus_Knockout")
		for _, it := range its {
			f := it.ev
			q := e.q(it.st.facts)
			bad := func(key, msg string, a ...any) {
				c.fail("knockout:"+key, f.pos, stackStr(f.Effect), k.name+": "+msg, a...)
			}
			c.count("obligations", 1)
			if !q.sameStr(f.val, ko) {
				bad("status", "the status written cannot be decided (%s)", f.val)
				continue
			}
			if it.li == nil {
				bad("loop", "a player is knocked out outside a pass over the losers")
				continue
			}
			pt := c.playerType()
			get := func(n string) *Term { return e.at(it.st, it.x, pt, n) }
			if !q.sameStr(get("Status"), ko) {
				bad("status-kept", "a knocked-out player does not keep that status")
			}
			if !isNow(get("KnockoutAt")) {
				bad("time", "KnockoutAt of a knocked-out player is %s instead of the current time", get("KnockoutAt"))
			}
			if !q.sameInt(get("CurrentSeat"), unset) {
				bad("seat", "a knocked-out player keeps seat %s", get("CurrentSeat"))
			}
			if k.stop {
				if !q.sameBool(get("IsReBuying"), false) || !q.sameInt(get("ReBuyEndAt"), unset) {
					bad("re-buying", "a player knocked out when the buy-in ends still counts as re-buying (%s, %s)", get("IsReBuying"), get("ReBuyEndAt"))
				}
			}
			l := flat(it.log)
			pid := get("PlayerID")
			// ranking record
			rk := evIdx(l, "store:CompetitionState.Rankings")
			if len(rk) != 1 {
				bad("rankings", "a knockout adds %d ranking entries instead of one", len(rk))
			} else {
				v := l[rk[0]].val
				ok := v != nil && v.op == OAppend && len(v.args) == 2 && e.pathOf(v.args[0]) == "C.State.Rankings" && v.args[1].op != OSpread
				if ok {
					rt := types.NewPointer(c.w.namedType(c.w.root, "CompetitionRank"))
					ok = q.same(e.at(it.st, v.args[1], rt, "PlayerID"), pid) && q.sameInt(e.at(it.st, v.args[1], rt, "FinalChips"), 0)
				}
				if !ok {
					bad("ranking", "the ranking entry of a knockout is not appended with that player's id and no chips: %s", v)
				}
			}
			// events
			pe := evIdx(l, "callback:OnCompetitionPlayerUpdated")
			if len(pe) != 1 || l[pe[0]].args[1] != it.x {
				bad("event", "a knockout emits %d player events instead of one for that player", len(pe))
			} else {
				for i, g := range l {
					if i > pe[0] && g.kind == "store" && strings.HasPrefix(g.name, "CompetitionPlayer.") && g.addr.args[0] == it.x {
						bad("event-early", "the player event is emitted before %s is final", g.name)
					}
				}
			}
			fe := evIdx(l, "callback:OnCompetitionFinalPlayerRankUpdated")
			if len(fe) != 1 {
				bad("rank-event", "a knockout announces %d final ranks instead of one", len(fe))
				continue
			}
			a := l[fe[0]].args
			if !q.same(a[1], pid) {
				bad("rank-player", "the final rank is announced for %s", a[1])
			}
			left := e.tt.Sub(e.lenOf(it.li.seq), it.li.idx)
			if it.li.reverse || !r.chipHoldersPlus(e.byIdx(it.li, a[2]), left) {
				bad("rank", "the announced rank is not the number of players with chips plus the losers not announced yet: %s", a[2])
			}
		}
		c.count("knockout paths", len(its))
		c.loserOrder(k, its)
	}
}

// loserOrder: of several losers, who joined last goes first.
func (c *Ctx) loserOrder(k koRun, its []koIter) {
	r, e := k.r, k.r.e
	losers := map[*LoopInfo]bool{}
	for _, it := range its {
		losers[it.li] = it.li != nil
	}
	seen := map[*LoopInfo]bool{}
	for _, o := range k.outs {
		l := flat(o.st.log)
		for i, f := range l {
			if f.kind != "callback" || f.name != "OnCompetitionFinalPlayerRankUpdated" || len(f.loops) == 0 {
				continue
			}
			li := f.loops[len(f.loops)-1]
			if seen[li] || !losers[li] {
				continue
			}
			seen[li] = true
			c.count("obligations", 1)
			var s *Effect
			flips := li.reverse
			for list := li.seq; list != nil; {
				if s = lastSort(l, i, list); s != nil {
					break
				}
				seq, cs, ok := e.selectOf(list)
				if !ok {
					break
				}
				flips = flips != (len(cs) > 0 && cs[0].li.reverse)
				list = seq
			}
			if s == nil {
				c.fail("knockout:unsorted", f.pos, stackStr(f.Effect), "%s: the losers are announced in no order", k.name)
				continue
			}
			join := func(o *Outcome, x *Term) *Term {
				t := s.cmpElem()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if types.Identical(t, c.w.namedType(c.w.root, "CompetitionPlayer")) {
					return e.fieldKey(t, "JoinAt", true).get(o, x)
				}
				return r.joinOf(o, s, x)
			}
			known := 0
			why := e.ordered(s.cmp, func(o *Outcome, x, y *Term) bool {
				if join(o, x) == nil || join(o, y) == nil {
					return true
				}
				known++
				return false
			}, orderKey{join, !flips})
			if why != "" || known == 0 {
				c.fail("knockout:order", s.pos, stackStr(s), "%s: the losers are not announced from the last to the first who joined: %s", k.name, why)
			}
		}
	}
	c.need(len(seen) > 0, "the order of the losers at the %s", k.name)
}

// joinOf is when the player of a compared element joined.
func (r *Run) joinOf(o *Outcome, s *Effect, x *Term) *Term {
	e := r.e
	pid := x
	if t := s.cmpElem(); !isStringType(t) {
		pid = e.fieldKey(t, "PlayerID", false).get(o, x)
	} else if a := e.load(o.st, x, t); a != nil {
		pid = a
	}
	rec, _ := r.rec(e.q(o.st.facts), o.st, pid)
	if rec == nil {
		return nil
	}
	return e.at(o.st, rec, r.c.playerType(), "JoinAt")
}

// ---- C15: who is knocked out ----

func (q *FQ) eqInt(t *Term, k int64) int {
	return q.e.eval(q.f, q.e.tt.Eq(t, q.e.tt.Int(k), types.Typ[types.Int64]))
}

func (r *Run) stopBuyIn(st *State, q *FQ) int {
	fin, cur := r.comp(st, "State.BlindState.FinalBuyInLevelIndex"), r.comp(st, "State.BlindState.CurrentLevelIndex")
	noStop := q.eqInt(fin, r.c.kInt("NoStopBuyInIndex"))
	none := q.eqInt(fin, unset)
	over := q.lessT(fin, cur)
	switch {
	case noStop == 1:
		return -1
	case none == 1:
		return 1
	case noStop == -1 && none == -1:
		return over
	case noStop == -1 && over == 1:
		return 1
	case none == -1 && over == -1:
		return -1
	}
	return 0
}

var koTrack = []string{"CompetitionPlayer.Status", "CompetitionPlayer.ReBuyTimes", "ReBuySetting.MaxTime", "CompetitionPlayer.Chips", "CompetitionPlayer.PlayerID", "pokertable.TablePlayerState.Bankroll", "pokertable.TablePlayerState.PlayerID",
	"BlindState.FinalBuyInLevelIndex", "BlindState.CurrentLevelIndex"}

// rec is the competition player with the id of the visited table player, as
// the path knows it: the record, or nil when there is none (known) or it is
// not known which.
func (r *Run) rec(q *FQ, st *State, pid *Term) (rec *Term, none bool) {
	l := r.comp(st, "State.Players")
	is := q.foundIn(l, "PlayerID", pid)
	if len(is) > 0 {
		et := r.c.playerType()
		return r.e.load(st, r.e.indexAddr(l, is[len(is)-1], et), et), false
	}
	return nil, q.absentIn(l, pPlayers, "PlayerID", pid)
}

func ruleC15(c *Ctx) {
	rbw, ko := c.k("CompetitionPlayerStatus_ReBuyWaiting"), c.k("CompetitionPlayerStatus_Knockout")
	for _, k := range c.koRuns([]string{"store:CompetitionPlayer.Status", "store:CompetitionState.Status"}, koTrack...) {
		r, e := k.r, k.r.e
		its := c.knockouts(k)
		if !c.need(len(its) > 0, "knockouts at the %s", k.name) {
			continue
		}
		lists := map[*LoopInfo]bool{}
		for _, it := range its {
			if it.li == nil {
				c.fail("loser:loop", it.ev.pos, stackStr(it.ev.Effect), "a player is knocked out outside a pass over the losers")
				continue
			}
			if lists[it.li] {
				continue
			}
			lists[it.li] = true
			f := it.ev
			li := it.li
			c.count("obligations", 1)
			if !li.full || li.breaks > 0 || li.seq == nil {
				c.fail("loser:partial", f.pos, stackStr(f.Effect), "%s: the pass over the losers may stop early", k.name)
				continue
			}
			for _, ct := range li.conts {
				done := false
				for _, g := range evs(ct.log, "store:CompetitionPlayer.Status") {
					done = done || g.val != nil && e.q(ct.st.facts).sameStr(g.val, ko)
				}
				x, _ := e.elemOf(li, ct)
				if et, _ := seqElem(li); !done && et != nil && !isStringType(et) {
					x = e.at(ct.st, x, et, "PlayerID")
				}
				if !done && !e.q(ct.st.facts).absent(pPlayers, "PlayerID", x) {
					c.fail("loser:skipped", f.pos, stackStr(f.Effect), "%s: a loser who is a player of the competition may be passed over", k.name)
				}
			}
			var ok bool
			var why string
			if k.stop {
				ok, why = e.picks(li.seq, pPlayers, func(p passCase) int {
					chips := p.f(e, "Chips")
					zero := e.eval(p.q.f, e.tt.Eq(chips, e.tt.Int(0), types.Typ[types.Int64]))
					return and3(zero, p.q.termIn(p.f(e, "Status"), rbw))
				})
			} else {
				ok, why = e.picks(li.seq, "p1.State.PlayerStates", func(p passCase) int {
					broke := not3(p.q.positive(p.f(e, "Bankroll")))
					if broke == -1 {
						return -1
					}
					rec, none := r.rec(p.q, p.ct.st, p.f(e, "PlayerID"))
					if none {
						return 2*p.took - 1
					}
					if rec == nil {
						return 0
					}
					pt := c.playerType()
					was := p.q.termIn(e.at(p.ct.st, rec, pt, "Status"), ko)
					left := p.q.lessT(e.at(p.ct.st, rec, pt, "ReBuyTimes"), r.comp(p.ct.st, "Meta.ReBuySetting.MaxTime"))
					return and3(broke, and3(not3(was), or3(r.stopBuyIn(p.ct.st, p.q), not3(left))))
				})
			}
			if !ok {
				c.fail("loser:who", f.pos, stackStr(f.Effect), "%s: the players knocked out are not exactly those without chips who may not re-buy and are not out yet: %s", k.name, why)
			}
		}
		c.count("passes over losers", len(lists))
		if k.stop {
			continue
		}
		for _, o := range k.outs {
			q := e.q(o.st.facts)
			if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) {
				continue
			}
			n := 0
			for _, f := range evs(o.st.log, "store:CompetitionPlayer.Status") {
				if s, ok := f.val.strVal(); ok && s == ko {
					n++
				}
			}
			if n == 0 && !handSeen(q) {
				c.fail("loser:none", r.fn.Pos(), r.name, "%s: a settled hand does not knock anybody out on this path: %s", k.name, r.describe(o))
			}
		}
	}
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- C16: the re-buy window ----

// deadline of a timer registration, in seconds.
func deadline(args []*Term) *Term {
	if len(args) < 2 || args[1] == nil {
		return nil
	}
	at := args[1]
	if at.op == OCall && at.name == "time.Time" {
		at = at.args[0]
	}
	return at
}

// nowPlus: t is some reading of the clock plus path plus a constant.
func (e *Engine) nowPlus(t *Term, field string) (int64, bool) {
	if t == nil {
		return 0, false
	}
	k, now, fld := int64(0), 0, 0
	rest := t
	if t.op == OLin {
		for i, a := range t.args {
			co := t.coef[i]
			switch {
			case co == 1 && isNow(a):
				now++
			case co == 1 && e.leaves(a)[field] && len(e.leaves(a)) == 1:
				fld++
			default:
				return 0, false
			}
		}
		k = t.k
	} else if isNow(rest) {
		now++
	}
	want := 1
	if field == "" {
		want = 0
	}
	return k, now == 1 && fld == want
}

var rebuyPats = []string{"store:CompetitionPlayer.IsReBuying", "store:CompetitionPlayer.ReBuyEndAt", "store:CompetitionPlayer.ReBuyWaitingAt", "ext:timebank.TimeBank.NewTaskWithDeadline"}

const waitField2 = "ReBuySetting.WaitingTime"

func ruleC16(c *Ctx) {
	rbw := c.k("CompetitionPlayerStatus_ReBuyWaiting")
	track := append([]string{"CompetitionPlayer.IsReBuying"}, koTrack...)
	pt := c.playerType()
	for _, mode := range []string{"ct", "cash", "mtt"} {
		r := c.settleRun(mode, track, rebuyPats...)
		if r == nil {
			continue
		}
		e := r.e
		bad := func(f *Effect, key, msg string, a ...any) {
			if f != nil {
				c.fail("re-buy:"+key, f.pos, stackStr(f), mode+": "+msg, a...)
			} else {
				c.fail("re-buy:"+key, r.fn.Pos(), r.name, mode+": "+msg, a...)
			}
		}
		// the passes that open windows
		opens := map[*LoopInfo]*Effect{}
		seen := map[*Cont]bool{}
		n := 0
		for _, o := range r.outs {
			q := e.q(o.st.facts)
			var here *LoopInfo
			for _, f := range evs(o.st.log, "store:CompetitionPlayer.IsReBuying") {
				if b, ok := f.val.boolVal(); ok && !b {
					continue
				}
				if f.cont == nil || len(f.loops) == 0 {
					bad(f.Effect, "loop", "a re-buy window is opened outside a pass over the table's players")
					continue
				}
				here = f.loops[len(f.loops)-1]
				opens[here] = f.Effect
				if seen[f.cont] {
					continue
				}
				seen[f.cont] = true
				n++
				c.count("obligations", 1)
				st := f.cont.st
				x := f.addr.args[0]
				cq := e.q(st.facts)
				get := func(n string) *Term { return e.at(st, x, pt, n) }
				if !cq.sameBool(get("IsReBuying"), true) || !cq.sameStr(get("Status"), rbw) || !isNow(get("ReBuyWaitingAt")) {
					bad(f.Effect, "values", "a player who may re-buy is not left waiting for a re-buy from now on (%s, %s, %s)", get("Status"), get("IsReBuying"), get("ReBuyWaitingAt"))
				}
				end := get("ReBuyEndAt")
				if mode == "mtt" {
					if !cq.sameInt(end, unset) || !cq.sameInt(get("CurrentSeat"), unset) {
						bad(f.Effect, "values-mtt", "a waiting player has a re-buy deadline or keeps the seat (%s, %s)", end, get("CurrentSeat"))
					}
				} else if k, ok := e.nowPlus(end, waitField2); !ok || k != 0 {
					bad(f.Effect, "end", "the re-buy window does not end at the current time plus the waiting time but at %s", end)
				}
			}
			// the timer
			timers := 0
			for _, f := range evs(o.st.log, "ext:timebank.TimeBank.NewTaskWithDeadline") {
				if d := deadline(f.args); d != nil && e.leaves(d)[waitField2] {
					timers++
					if k, ok := e.nowPlus(d, waitField2); !ok || k < 1 || k > 60 {
						bad(f.Effect, "timer-at", "the end of a re-buy window is not looked at shortly after it (%s)", d)
					}
				}
			}
			if here == nil || mode == "mtt" {
				if timers > 0 {
					bad(nil, "timer-none", "a timer is set although no seat is kept")
				}
				continue
			}
			if timers > 1 || timers == 0 && !r.nobody(q, here, seen) {
				bad(nil, "timers", "%d timers are set for the end of the re-buy windows instead of one", timers)
			}
		}
		c.need(n > 0, "re-buy windows of %s", mode)
		c.count("windows "+mode, n)
		for li, f := range opens {
			if !li.full || li.breaks > 0 || e.pathOf(li.seq) != "p1.State.PlayerStates" {
				bad(f, "pass", "not every player of the table is considered for a re-buy")
				continue
			}
			for _, ct := range li.conts {
				x, et := e.elemOf(li, ct)
				q := e.q(ct.st.facts)
				opened := seen[ct]
				broke := not3(q.positive(e.at(ct.st, x, et, "Bankroll")))
				pid := e.at(ct.st, x, et, "PlayerID")
				rec, none := r.rec(q, ct.st, pid)
				may := 0
				switch {
				case broke == -1 || none:
					may = -1
				case rec != nil:
					// read before the pass wrote it
					was := -q.e.eval(q.f, e.at(li.start, rec, pt, "IsReBuying"))
					left := q.lessT(e.at(ct.st, rec, pt, "ReBuyTimes"), r.comp(ct.st, "Meta.ReBuySetting.MaxTime"))
					may = and3(broke, and3(was, and3(left, not3(r.stopBuyIn(ct.st, q)))))
				}
				c.count("obligations", 1)
				if opened && may != 1 {
					bad(f, "gate", "a re-buy window is opened for a player with chips, one already re-buying, one without re-buys left, or after the buy-in ended")
				}
				if !opened && may != -1 {
					bad(f, "missed", "a player without chips who may re-buy is not set waiting for a re-buy")
				}
			}
		}
		for _, o := range r.outs {
			q := e.q(o.st.facts)
			if r.ended(r.st0, q) == 1 || q.absent(pTables, "ID", r.arg(0, "ID")) || r.stopBuyIn(o.st, q) == 1 || handSeen(q) {
				continue
			}
			any := false
			for _, f := range flat(o.st.log) {
				for _, li := range f.loops {
					any = any || opens[li] != nil
				}
			}
			if !any {
				bad(nil, "none", "a settled hand does not open re-buy windows on this path: %s", r.describe(o))
			}
		}
	}
	c.rebuyTimers("ct")
	c.rebuyTimers("cash")
}

// nobody: the path knows that no iteration of the pass was one of these.
func (r *Run) nobody(q *FQ, li *LoopInfo, took map[*Cont]bool) bool {
	all := true
	for n, ct := range li.conts {
		if took[ct] && !q.f.atoms[r.e.neverAtom(li, n)] {
			all = false
		}
	}
	if all {
		return true
	}
	for _, t := range q.summaries() {
		var cs []passCase
		if t.op == OLen {
			if _, sel, ok := r.e.selectOf(t.args[0]); ok {
				for _, x := range sel {
					cs = append(cs, x.passCase)
				}
			}
		} else {
			_, cs, _ = r.e.countOf(t)
		}
		if len(cs) > 0 && cs[0].li == li && q.e.ivOf(q.f, t).hi <= 0 {
			same := true
			for _, p := range cs {
				same = same && (p.took == 1) == took[p.ct]
			}
			if same {
				return true
			}
		}
	}
	return false
}

// handSeen: the path knows that the hand was settled before.
func handSeen(q *FQ) bool {
	for t, v := range q.f.atoms {
		if v && strings.HasPrefix(t.name, "sync.Map.LoadOrStore") {
			return true
		}
	}
	return false
}

// handNew: the hand is known not to have been recorded before.
func handNew(q *FQ) bool {
	for t, v := range q.f.atoms {
		if !v && strings.HasPrefix(t.name, "sync.Map.LoadOrStore") {
			return true
		}
	}
	return false
}

// leftBy: exactly the players who leave are cashed out and removed.
func (c *Ctx) leftBy(r *Run, o *Outcome, l []Ev, leave Ev, bad func(f *Effect, key, msg string, x ...any)) {
	e := r.e
	list := leave.list(1)
	if list == nil {
		list = leave.args[1]
	}
	loops := map[*LoopInfo]bool{}
	for _, k := range evIdx(l, "callback:OnCompetitionPlayerCashOut") {
		if len(l[k].loops) != 1 {
			bad(l[k].Effect, "cash-out-pass", "a player is cashed out outside one pass over the leaving players")
			return
		}
		loops[l[k].loops[0]] = true
	}
	if len(loops) != 1 {
		bad(leave.Effect, "cash-out", "the players who leave a cash table are cashed out in %d passes", len(loops))
		return
	}
	for li := range loops {
		c.payPass(r, li, list, func(p passCase) int { return e.among(p, list, p.f(e, "PlayerID")) }, bad)
	}
	w := evIdx(l, "store:CompetitionState.Players")
	if len(w) != 1 {
		bad(leave.Effect, "players", "the players who left are removed %d times", len(w))
		return
	}
	g := l[w[0]]
	seq, cs, ok := e.filterOf(g.val)
	if !ok || e.pathOf(seq) != pPlayers || !exactly(cs, func(p passCase) int { return -e.among(p, list, p.f(e, "PlayerID")) }) {
		bad(g.Effect, "players", "not exactly the players who left are removed (%s)", g.val)
	}
}

// rebuyTimers analyses what happens when a re-buy window is over.
func (c *Ctx) rebuyTimers(mode string) {
	track := append([]string{"CompetitionPlayer.IsReBuying", "CompetitionPlayer.ReBuyEndAt"}, koTrack...)
	cfg := siteCfg(append([]string{"CompetitionState.Status"}, track...), "ext:timebank.TimeBank.NewTaskWithDeadline")
	var run *Run
	body := false
	outside := cfg.Interest
	inside := interest("invoke:TableManagerBackend.*", "callback:OnCompetitionPlayerUpdated", "callback:OnCompetitionPlayerCashOut", "store:CompetitionPlayer.*", "store:CompetitionState.Players", "store:CompetitionState.Status")
	cfg.Interest = func(f *Effect) bool {
		if body {
			return inside(f)
		}
		return outside(f)
	}
	cfg.AsyncSetup = func(e *Engine, a *Async, st *State) bool {
		if d := deadline(a.args); d == nil || !e.leaves(d)[waitField2] {
			return false
		}
		body = true
		run.assumeStr(st, "Meta.Mode", mode)
		return true
	}
	e := c.newEngine(cfg)
	r := c.run(e, c.engineType(), "UpdateTable", func(r *Run, st *State) {
		run = r
		r.assumeStr(st, "Meta.Mode", mode)
		e.assume(st.facts, e.tt.Eq(r.arg0(st, 0, "State.Status"), e.tt.Str("table_game_settled"), types.Typ[types.String]), true)
	})
	if r == nil {
		return
	}
	rbw := c.k("CompetitionPlayerStatus_ReBuyWaiting")
	pt := c.playerType()
	bodies, acted := 0, 0
	seen := map[*Cont]bool{}
	for _, a := range r.asyncs("timebank.") {
		if len(a.outcomes) == 0 {
			continue
		}
		bodies++
		bad := func(f *Effect, key, msg string, x ...any) {
			pos := a.pos
			fn := a.label
			if f != nil {
				pos, fn = f.pos, stackStr(f)
			}
			c.fail("re-buy-over:"+key, pos, fn, mode+": "+msg, x...)
		}
		for _, o := range a.outcomes {
			q := e.q(o.st.facts)
			l := flat(o.st.log)
			if q.holds(a.params[0]) {
				for _, f := range l {
					if mutation(f.Effect) {
						bad(f.Effect, "cancelled", "a cancelled timer acts (%s)", f.name)
					}
				}
				continue
			}
			leave := evIdx(l, "invoke:TableManagerBackend.PlayersLeave")
			out := evIdx(l, "callback:OnCompetitionPlayerCashOut")
			c.count("obligations", 1)
			for _, f := range l {
				if f.kind == "invoke" && f.name != "TableManagerBackend.PlayersLeave" {
					bad(f.Effect, "call", "unexpected call %s", f.name)
				}
			}
			if len(leave) > 1 {
				bad(l[leave[1]].Effect, "twice", "the players leave the table more than once")
			}
			if len(leave) == 0 {
				if len(out) > 0 {
					bad(l[out[0]].Effect, "seat", "a player is cashed out but keeps the seat")
				}
				if len(evIdx(l, "store:CompetitionPlayer.*")) > 0 {
					// only iterations that may not have happened
					for _, f := range l {
						if f.cont != nil && f.kind == "store" && !r.nobody(q, f.loops[len(f.loops)-1], contsWith(f.loops[len(f.loops)-1], "store:CompetitionPlayer.CurrentSeat")) {
							bad(f.Effect, "seat-kept", "a player whose re-buy window is over does not leave the table")
							break
						}
					}
				}
				continue
			}
			acted++
			f := l[leave[0]]
			if !q.same(f.args[0], r.arg(0, "ID")) {
				bad(f.Effect, "table", "the players leave %s instead of their table", f.args[0])
			}
			_, stages := e.selection(f.list(1))
			if len(stages) == 0 {
				bad(f.Effect, "who", "the players who leave are not selected from those who were waiting: %s", f.list(1))
				continue
			}
			cs := stages[0]
			for _, p := range cs {
				if seen[p.ct] {
					continue
				}
				seen[p.ct] = true
				c.count("obligations", 1)
				pid := p.x
				rec, none := r.rec(p.q, p.ct.st, pid)
				stay := none
				out := 0
				if rec != nil {
					at := func(st *State, n string) *Term { return e.at(st, rec, pt, n) }
					start := p.li.start
					broke := not3(p.q.positive(at(start, "Chips")))
					over := 0
					for _, t := range p.q.terms("now", nil) {
						if p.q.lt(at(start, "ReBuyEndAt"), t) {
							over = 1
						} else if p.q.geT(at(start, "ReBuyEndAt"), t) {
							over = -1
						}
					}
					out = and3(broke, over)
					if mode == "ct" {
						out = and3(out, and3(p.q.termIn(at(start, "Status"), rbw), e.eval(p.q.f, at(start, "IsReBuying"))))
					}
					stay = out == -1
					if p.took == 1 && mode == "ct" {
						if !p.q.sameBool(at(p.ct.st, "IsReBuying"), false) || !p.q.sameInt(at(p.ct.st, "ReBuyEndAt"), unset) || !p.q.sameInt(at(p.ct.st, "CurrentSeat"), unset) || !p.q.sameStr(at(p.ct.st, "Status"), rbw) {
							bad(f.Effect, "record", "a player whose re-buy window is over is not left waiting without seat and window (%s, %s, %s, %s)", at(p.ct.st, "Status"), at(p.ct.st, "IsReBuying"), at(p.ct.st, "ReBuyEndAt"), at(p.ct.st, "CurrentSeat"))
						}
						cl := flat(p.ct.log)
						ev := evIdx(cl, "callback:OnCompetitionPlayerUpdated")
						if len(ev) != 1 || cl[ev[0]].args[1] != rec {
							bad(f.Effect, "event", "%d player events are emitted for a player whose window is over instead of one", len(ev))
						} else {
							for i, g := range cl {
								if i > ev[0] && g.kind == "store" {
									bad(g.Effect, "event-early", "the player event is emitted before %s is final", g.name)
								}
							}
						}
					}
				}
				if p.took == 1 && out != 1 {
					bad(f.Effect, "gate", "a player leaves who has chips again, whose window is still open or who is no longer waiting")
				}
				if p.took == 0 && !stay {
					bad(f.Effect, "missed", "a player whose re-buy window is over and who has no chips keeps the seat")
				}
				if p.took == 0 {
					for _, g := range flat(p.ct.log) {
						if mutation(g.Effect) {
							bad(g.Effect, "touched", "%s although the player stays", g.name)
						}
					}
				}
			}
			if mode == "cash" {
				c.leftBy(r, o, l, f, bad)
			} else if len(out) > 0 {
				bad(l[out[0]].Effect, "cash-out", "a player is cashed out of a %s competition", mode)
			}
		}
	}
	c.need(bodies > 0 && acted > 0, "the timer at the end of the re-buy windows (%s)", mode)
	c.count("timer paths "+mode, acted)
}

// contsWith: the iterations that log such an effect.
func contsWith(li *LoopInfo, pats ...string) map[*Cont]bool {
	m := map[*Cont]bool{}
	for _, ct := range li.conts {
		if len(evs(ct.log, pats...)) > 0 {
			m[ct] = true
		}
	}
	return m
}
