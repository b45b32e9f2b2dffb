package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

const (
	pPlayers = "C.State.Players"
	pTables  = "C.State.Tables"
	unset    = -1
)

// ---- facts ----

// iv: tightest known interval over the observations of a path.
func (q *FQ) iv(path string, idx *Term) Iv {
	r := top()
	for _, t := range q.terms(path, idx) {
		if !isIntType(t.typ) && t.op != OLen {
			continue
		}
		v := q.e.ivOf(q.f, t)
		r.lo, r.hi = max64(r.lo, v.lo), min64(r.hi, v.hi)
	}
	return r
}
func (q *FQ) ge(path string, idx *Term, k int64) bool { return q.iv(path, idx).lo >= k }
func (q *FQ) le(path string, idx *Term, k int64) bool { return q.iv(path, idx).hi <= k }

// holds / fails: the boolean term is decided by the facts.
func (q *FQ) holds(t *Term) bool { return t != nil && q.e.eval(q.f, t) == 1 }
func (q *FQ) fails(t *Term) bool { return t != nil && q.e.eval(q.f, t) == -1 }

func (q *FQ) lt(a, b *Term) bool {
	return q.holds(q.e.tt.Less(a, b, types.Typ[types.Int64]))
}
func (q *FQ) geT(a, b *Term) bool {
	return q.fails(q.e.tt.Less(a, b, types.Typ[types.Int64]))
}

// same: the two values are known to be equal.
func (q *FQ) same(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	t := types.Type(types.Typ[types.String])
	if isIntType(a.typ) || isIntType(b.typ) || a.op == OLin || b.op == OLin {
		t = types.Typ[types.Int64]
	} else if a.typ != nil {
		t = a.typ
	}
	return q.holds(q.e.tt.Eq(a, b, t))
}

func (q *FQ) sameInt(a *Term, k int64) bool { return q.same(a, q.e.tt.Int(k)) }
func (q *FQ) sameStr(a *Term, s string) bool {
	if a == nil {
		return false
	}
	if v, ok := a.strVal(); ok {
		return v == s
	}
	return q.e.inSet(q.f, a, []*Term{q.e.tt.Str(s)}) == 1
}
func (q *FQ) sameBool(a *Term, b bool) bool {
	if a == nil {
		return false
	}
	if v, ok := a.boolVal(); ok {
		return v == b
	}
	r := q.e.eval(q.f, a)
	return r == 1 && b || r == -1 && !b
}

// ---- players ----

func (c *Ctx) playerType() types.Type {
	return types.NewPointer(c.w.namedType(c.w.root, "CompetitionPlayer"))
}

// players list and the record at an index, at the start of the run.
func (r *Run) elem(st *State, path string, idx *Term) (*Term, types.Type) {
	l := r.comp(st, path)
	fv := r.c.w.fieldVar(r.c.w.root, "CompetitionState", path[strings.LastIndexByte(path, '.')+1:])
	et := fv.Type().Underlying().(*types.Slice).Elem()
	return r.e.load(st, r.e.indexAddr(l, idx, et), et), et
}

// pf is the value in st of a field of the player that is at idx at the start.
func (r *Run) pf(st *State, idx *Term, field string) *Term {
	p, t := r.elem(r.st0, "State.Players", idx)
	return r.e.at(st, p, t, field)
}

func (r *Run) arg(i int, path string) *Term {
	a := r.args[i]
	return r.e.at(r.st0, a, a.typ, path)
}

// ---- lists ----

// listElems decomposes a list value into what it extends and what was added.
func (e *Engine) listElems(st *State, t *Term) (base *Term, elems []*Term) {
	switch t.op {
	case OAppend:
		b, el := e.listElems(st, t.args[0])
		for _, x := range t.args[1:] {
			if x.op == OSpread {
				b2, el2 := e.listElems(st, x.args[0])
				if b2 != nil {
					el = append(el, x)
					continue
				}
				el = append(el, el2...)
				continue
			}
			el = append(el, x)
		}
		return b, el
	case OSliceOf:
		var et types.Type
		if t.typ != nil {
			if s, ok := t.typ.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		for k := 0; k < t.n; k++ {
			elems = append(elems, e.load(st, e.tt.Index(t.args[0], e.tt.Int(int64(k)), et), et))
		}
		return nil, elems
	case ONil:
		return nil, nil
	}
	return t, nil
}

// spell writes a list as what it extends plus its elements, independent of
// later changes to the backing memory.
func (e *Engine) spell(st *State, t *Term) *Term {
	base, el := e.listElems(st, t)
	if base == t {
		return t
	}
	if base == nil {
		base = e.tt.Nil()
	}
	return e.tt.mk(OAppend, "", t.typ, append([]*Term{base}, el...)...)
}

// list is the i-th argument of a call as it was when the call happened.
func (f *Effect) list(i int) *Term {
	if f.full != nil {
		return f.full[i]
	}
	return f.args[i]
}

// listHas: x is known to be an element of the list.
func (e *Engine) listHas(st *State, t, x *Term) bool {
	base, el := e.listElems(st, t)
	for _, y := range el {
		if y == x {
			return true
		}
		if y.op == OSpread && e.listHas(st, y.args[0], x) {
			return true
		}
	}
	return base != nil && base != t && e.listHas(st, base, x)
}

// listIs: the list is exactly these elements.
func (e *Engine) listIs(st *State, t *Term, xs ...*Term) bool {
	base, el := e.listElems(st, t)
	if base != nil || len(el) != len(xs) {
		return false
	}
	for i := range xs {
		if el[i] != xs[i] {
			return false
		}
	}
	return true
}

// ---- outcomes ----

// envErr: the returned error came from another component.
func (r *Run) envErr(o *Outcome) bool {
	x := o.err()
	if x == nil {
		return false
	}
	for _, f := range flat(o.st.log) {
		if f.kind == "invoke" || f.kind == "ext" {
			if f.res == x {
				return true
			}
			if f.res != nil && f.res.op == OTuple {
				for _, a := range f.res.args {
					if a == x {
						return true
					}
				}
			}
		}
	}
	return x.op == OSym
}

// reject reports which exported error an outcome returns ("" success, "env"
// another component's error, "?" anything else).
func (r *Run) reject(o *Outcome, names []string) string {
	if r.succeeded(o) {
		return ""
	}
	for _, n := range names {
		if t := r.errTerm(n); t != nil && o.err() == t {
			return n
		}
	}
	if r.envErr(o) {
		return "env"
	}
	return "?"
}

type reasonFn func(q *FQ) bool

// reasons: every outcome that refuses returns one of the documented errors and
// the documented reason is established on its path.
func (c *Ctx) reasons(r *Run, key string, env bool, m map[string]reasonFn) {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.need(r.errTerm(n) != nil, "error %s", n)
	}
	hit := map[string]bool{}
	for _, o := range r.outs {
		n := r.reject(o, names)
		hit[n] = true
		q := r.e.q(o.st.facts)
		c.count("obligations", 1)
		switch n {
		case "":
		case "env":
			if !env {
				c.fail(key+":undocumented-error", r.fn.Pos(), r.name, "returns another component's error, which the operation does not document: %s", o.err())
			}
		case "?":
			c.fail(key+":undocumented-error", r.fn.Pos(), r.name, "a path refuses with an error the operation does not document for this (%s): %s", o.err(), r.describe(o))
		default:
			if !m[n](q) {
				c.fail(key+":unfounded:"+n, r.fn.Pos(), r.name, "a path returns %s although its documented reason is not established there: %s", n, r.describe(o))
			}
		}
	}
	for _, n := range names {
		if !hit[n] {
			c.fail(key+":never:"+n, r.fn.Pos(), r.name, "no path returns %s any more", n)
		}
	}
}

// muts are the sites in the operation itself (not its timers) that change state
// or reach another component.
func (r *Run) muts() []*Site {
	var l []*Site
	for _, s := range r.e.sites {
		if s.entry == r.name && mutation(s.eff) {
			l = append(l, s)
		}
	}
	return l
}

// gate: every site satisfies the condition.
func (c *Ctx) gate(r *Run, sites []*Site, key, msg string, f func(q *FQ, s *Site) bool) {
	c.need(len(sites) > 0, "%s: sites of %s", key, r.name)
	for _, s := range sites {
		c.count("obligations", 1)
		if !f(r.e.q(s.facts), s) {
			c.fail(key+":"+s.eff.kind+":"+s.eff.name, s.eff.pos, strings.Join(s.stack, " → "), "%s %s is reached without: %s", s.eff.kind, s.eff.name, msg)
		}
	}
}

func (c *Ctx) quietRejections(r *Run, key string) {
	n := 0
	for _, o := range r.outs {
		if !r.failed(o) || r.envErr(o) {
			continue
		}
		n++
		c.count("obligations", 1)
		for _, f := range flat(o.st.log) {
			if mutation(f.Effect) {
				c.fail(key+":"+f.kind+":"+f.name, f.pos, r.name, "%s %s happens on a path that then refuses with %s", f.kind, f.name, o.err())
			}
		}
	}
	c.need(n > 0, "refusing paths of %s", r.name)
}

// mode cases
func (q *FQ) mode(ms ...any) bool { return q.is("C.Meta.Mode", nil, ms...) }
func (q *FQ) notMode(ms ...any) bool {
	for _, m := range ms {
		if !q.isnt("C.Meta.Mode", nil, m) {
			return false
		}
	}
	return true
}

// storesTo lists the store effects of an outcome whose field is named.
func storesTo(o *Outcome, fields ...string) []Ev {
	var pats []string
	for _, f := range fields {
		pats = append(pats, "store:"+f)
	}
	return evs(o.st.log, pats...)
}

func posOf(f *Effect) token.Pos {
	if f == nil {
		return token.NoPos
	}
	return f.pos
}

func (c *Ctx) engineFieldStore(name string) bool {
	t := c.engineType()
	return t != nil && strings.HasPrefix(name, t.Obj().Name()+".")
}

func sprint(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, fmt.Sprint(t))
	}
	return strings.Join(s, ", ")
}

// opCfg: everything an operation does, paths kept apart by every guard.
func opCfg() *Config { return &Config{TrackAll: true} }

func (r *Run) arg0(st *State, i int, path string) *Term {
	a := r.args[i]
	return r.e.at(st, a, a.typ, path)
}

// k is the value of an exported string constant of the root package.
func (c *Ctx) k(name string) string {
	if o, ok := c.w.root.Scope().Lookup(name).(*types.Const); ok && o.Val().Kind() == constant.String {
		return constant.StringVal(o.Val())
	}
	c.need(false, "constant %s", name)
	return "?" + name
}

func (c *Ctx) ends() []string {
	return []string{c.k("CompetitionStateStatus_End"), c.k("CompetitionStateStatus_AutoEnd"), c.k("CompetitionStateStatus_ForceEnd")}
}

func (r *Run) assumeIn(st *State, path string, in bool, vals ...string) bool {
	var cs []*Term
	for _, v := range vals {
		cs = append(cs, r.e.tt.Str(v))
	}
	return r.e.restrict(st.facts, r.comp(st, path), cs, in)
}

// statusAt tells the facts a site knows about the status at that point.
func (q *FQ) termIn(t *Term, vals ...string) int {
	if t == nil {
		return 0
	}
	var cs []*Term
	for _, v := range vals {
		cs = append(cs, q.e.tt.Str(v))
	}
	return q.e.inSet(q.f, t, cs)
}

// uncond is the configuration for rules about single effects: states are only
// kept apart by what is listed.
func siteCfg(track []string, pats ...string) *Config {
	m := map[string]bool{}
	for _, t := range track {
		m[t] = true
	}
	var ps, snaps []string
	for _, p := range pats {
		if strings.HasPrefix(p, "snap:") {
			p = strings.TrimPrefix(p, "snap:")
			snaps = append(snaps, p)
		}
		ps = append(ps, p)
	}
	cfg := &Config{Track: m, Interest: interest(ps...), MaxStates: 30000}
	if len(snaps) > 0 {
		cfg.Snap = interest(snaps...)
	}
	return cfg
}

// kInt is the value of an exported integer constant of the root package.
func (c *Ctx) kInt(name string) int64 {
	if o, ok := c.w.root.Scope().Lookup(name).(*types.Const); ok && o.Val().Kind() == constant.Int {
		v, _ := constant.Int64Val(o.Val())
		return v
	}
	c.need(false, "constant %s", name)
	return -99
}

// listIs: the list is known to hold exactly these elements.
func (q *FQ) listIs(st *State, t *Term, xs ...*Term) bool {
	base, el := q.e.listElems(st, t)
	if base != nil || len(el) != len(xs) {
		return false
	}
	for i := range xs {
		if !q.same(el[i], xs[i]) {
			return false
		}
	}
	return true
}

// iff: the boolean result is true exactly when the predicate (1 yes, -1 no) is.
func (q *FQ) iff(v *Term, pred func(q *FQ) int) bool {
	if b, ok := v.boolVal(); ok {
		return pred(q) == map[bool]int{true: 1, false: -1}[b]
	}
	any := false
	for _, b := range []bool{true, false} {
		f := q.f.clone()
		if !q.e.assume(f, v, b) {
			continue
		}
		any = true
		if pred(q.e.q(f)) != map[bool]int{true: 1, false: -1}[b] {
			return false
		}
	}
	return any
}
