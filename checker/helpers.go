package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func (w *World) structField(t *types.Named, name string) *types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

// passCase is one kind of iteration of a full pass over a list.
type passCase struct {
	li   *LoopInfo
	ct   *Cont
	x    *Term // the element visited
	et   types.Type
	q    *FQ
	took int // how many times the pass counted or kept the element
}

func (e *Engine) elemOf(li *LoopInfo, ct *Cont) (*Term, types.Type) {
	sl, ok := seqElem(li)
	if !ok {
		return nil, nil
	}
	ad := e.indexAddr(li.seq, li.idx, sl)
	return e.load(ct.st, ad, sl), sl
}

func seqElem(li *LoopInfo) (types.Type, bool) {
	if li.seq == nil || li.idx == nil || li.seq.typ == nil {
		return nil, false
	}
	s, ok := li.seq.typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return s.Elem(), true
}

func emptyList(t *Term) bool {
	return t.op == ONil || t.op == OSliceOf && t.n == 0
}

// inPlace: a list that is rebuilt over its own storage while it is visited;
// it never gets ahead of the visit, as every pass adds one element at most.
func (e *Engine) inPlace(s *Summary) bool {
	t, li := s.init, s.loop
	if t.op != OSlice || len(t.args) != 3 || t.args[2] == nil || li.seq != t.args[0] || li.reverse {
		return false
	}
	lo, hi := t.args[1], t.args[2]
	zero := func(x *Term) bool { k, ok := x.intVal(); return ok && k == 0 }
	return (lo == nil || lo.op == ONil || zero(lo)) && zero(hi)
}

// byIdx rewrites counters that go up or down by the same amount in every pass
// in terms of the index of the pass.
func (e *Engine) byIdx(li *LoopInfo, t *Term) *Term {
	if t.op != OLin {
		if n := e.stepped(li, t); n != nil {
			return n
		}
		return t
	}
	r := t
	for i, x := range t.args {
		if n := e.stepped(li, x); n != nil {
			d := e.tt.Sub(n, x)
			for k := int64(0); k < t.coef[i] && k < 8; k++ {
				r = e.tt.Add(r, d)
			}
			for k := int64(0); k > t.coef[i] && k > -8; k-- {
				r = e.tt.Sub(r, d)
			}
		}
	}
	return r
}

func (e *Engine) stepped(li *LoopInfo, x *Term) *Term {
	s := e.sums[x]
	if s == nil || s.loop != li || li.idx == nil || li.reverse || x == li.idx || len(li.conts) == 0 {
		return nil
	}
	var d int64
	for i, ct := range li.conts {
		n := ct.next[s.sym]
		if n == nil {
			return nil
		}
		k, ok := e.tt.Sub(n, s.sym).intVal()
		if !ok || i > 0 && k != d || k < -8 || k > 8 {
			return nil
		}
		d = k
	}
	r := s.init
	for ; d > 0; d-- {
		r = e.tt.Add(r, li.idx)
	}
	for ; d < 0; d++ {
		r = e.tt.Sub(r, li.idx)
	}
	return r
}

// filterOf reads a list value as "the elements of a list that ...": every
// iteration of one full pass either keeps the visited element or drops it.
func (e *Engine) filterOf(t *Term) (*Term, []passCase, bool) {
	s := e.sums[t]
	if s == nil || !emptyList(s.init) && !e.inPlace(s) {
		return nil, nil, false
	}
	li := s.loop
	if li.seq == nil || !li.full || li.breaks > 0 || li.idx == nil {
		return nil, nil, false
	}
	var r []passCase
	for _, ct := range li.conts {
		x, et := e.elemOf(li, ct)
		if x == nil {
			return nil, nil, false
		}
		n := ct.next[s.sym]
		pc := passCase{li: li, ct: ct, x: x, et: et, q: e.q(ct.st.facts)}
		switch {
		case n == s.sym:
		case n != nil && n.op == OAppend && n.args[0] == s.sym && len(n.args) == 2 && (n.args[1] == x || e.sameVal(ct.st, n.args[1], x, et)):
			pc.took = 1
		default:
			return nil, nil, false
		}
		r = append(r, pc)
	}
	return li.seq, r, len(r) > 0
}

// sameVal: v is the element x or a copy of what x points to.
func (e *Engine) sameVal(st *State, v, x *Term, et types.Type) bool {
	p, ok := et.Underlying().(*types.Pointer)
	if !ok {
		return v == x
	}
	return v == e.load(st, x, p.Elem())
}

// countOf reads an integer as the number of elements of a list that ...
func (e *Engine) countOf(t *Term) (*Term, []passCase, bool) { return e.countFrom(t, e.tt.Int(0)) }

// countFrom is countOf for a count that continues from init.
func (e *Engine) countFrom(t, init *Term) (*Term, []passCase, bool) {
	if t == nil {
		return nil, nil, false
	}
	if t.op == OLen {
		if k, ok := init.intVal(); ok && k == 0 {
			if seq, r, ok := e.keyedCount(t.args[0]); ok {
				return seq, r, ok
			}
			seq, sel, ok := e.selectOf(t.args[0])
			var r []passCase
			for _, p := range sel {
				r = append(r, p.passCase)
			}
			return seq, r, ok
		}
	}
	s := e.sums[t]
	if s == nil || s.init != init {
		return nil, nil, false
	}
	li := s.loop
	if li.seq == nil || !li.full || li.breaks > 0 || li.idx == nil {
		return nil, nil, false
	}
	var r []passCase
	for _, ct := range li.conts {
		x, et := e.elemOf(li, ct)
		n := ct.next[s.sym]
		if x == nil || n == nil {
			return nil, nil, false
		}
		d, ok := e.tt.Sub(n, s.sym).intVal()
		if !ok || d < 0 || d > 1 {
			return nil, nil, false
		}
		r = append(r, passCase{li: li, ct: ct, x: x, et: et, q: e.q(ct.st.facts), took: int(d)})
	}
	return li.seq, r, len(r) > 0
}

// keyedCount reads a map as the elements of a list that ... by their player
// ids, which are distinct within a list.
func (e *Engine) keyedCount(m *Term) (*Term, []passCase, bool) {
	s := e.sums[m]
	if s == nil || s.init.op != OMapEmpty {
		return nil, nil, false
	}
	li := s.loop
	if li.seq == nil || !li.full || li.breaks > 0 || li.idx == nil {
		return nil, nil, false
	}
	var r []passCase
	for _, ct := range li.conts {
		x, et := e.elemOf(li, ct)
		n := ct.next[s.sym]
		if x == nil || n == nil {
			return nil, nil, false
		}
		p := passCase{li: li, ct: ct, x: x, et: et, q: e.q(ct.st.facts)}
		if n != s.sym {
			if n.op != OMapPut || n.args[0] != s.sym || !hasField(et, "PlayerID") || !p.q.same(n.args[1], p.f(e, "PlayerID")) {
				return nil, nil, false
			}
			p.took = 1
		}
		r = append(r, p)
	}
	return li.seq, r, len(r) > 0
}

// nestedCount reads an integer as the number of elements of the inner lists of
// all elements of an outer list that ...; inner returns the path of the list.
func (e *Engine) nestedCount(t *Term, outer, inner string, pred func(p passCase) int) bool {
	s := e.sums[t]
	if s == nil {
		return false
	}
	if k, ok := s.init.intVal(); !ok || k != 0 {
		return false
	}
	return e.nestedSteps(s, outer, inner, false, pred)
}

// nestedLeft reads an integer as what is left of init after taking away one
// for each such element.
func (e *Engine) nestedLeft(t, init *Term, outer, inner string, pred func(p passCase) int) bool {
	s := e.sums[t]
	return s != nil && s.init == init && e.nestedSteps(s, outer, inner, true, pred)
}

func (e *Engine) nestedSteps(s *Summary, outer, inner string, down bool, pred func(p passCase) int) bool {
	li := s.loop
	if li.seq == nil || !li.full || li.breaks > 0 || li.idx == nil || e.pathOf(li.seq) != outer {
		return false
	}
	for _, ct := range li.conts {
		n := ct.next[s.sym]
		if n == nil {
			return false
		}
		if down {
			n = e.tt.Add(s.sym, e.tt.Sub(s.sym, n))
		}
		seq, cs, ok := e.countFrom(n, s.sym)
		if !ok {
			seq, cs, ok = e.countOf(e.tt.Sub(n, s.sym))
		}
		if !ok || e.pathOf(seq) != inner || e.idxOf(seq, outer) != li.idx || !exactly(cs, pred) {
			return false
		}
	}
	return len(li.conts) > 0
}

// summaries lists the loop results the facts mention.
func (q *FQ) summaries() []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if q.e.sums[t] != nil || t.op == OLen {
			r = append(r, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for t := range q.f.iv {
		walk(t)
	}
	for t := range q.f.set {
		walk(t)
	}
	for t := range q.f.atoms {
		walk(t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// exactly: the pass takes an element precisely when the predicate (1 yes, -1
// no, 0 undecided) holds of it.
func exactly(cs []passCase, pred func(p passCase) int) bool {
	for _, p := range cs {
		v := pred(p)
		if p.took == 1 && v != 1 || p.took == 0 && v != -1 {
			return false
		}
	}
	return len(cs) > 0
}

// field of the visited element (a pointer or a struct).
func (p passCase) f(e *Engine, name string) *Term { return e.at(p.ct.st, p.x, p.et, name) }

func (e *Engine) eqVal(f *Facts, a, b *Term) int {
	if a == b {
		return 1
	}
	t := a.typ
	if t == nil {
		t = b.typ
	}
	if t == nil {
		t = types.Typ[types.String]
	}
	return e.eval(f, e.tt.Eq(a, b, t))
}

// isListWithout: final is init without the element at i.
func (c *Ctx) isListWithout(r *Run, o *Outcome, final, init, i *Term) bool {
	return c.listWithout(r.e, o.st.facts, final, init, i, func(p passCase) int {
		// a rebuilt list: the dropped element is the one at i
		return -r.e.eqVal(p.q.f, p.li.idx, i)
	})
}

// pieces writes a list as the lists and elements it was joined from.
func pieces(t *Term) []*Term {
	switch {
	case emptyList(t):
		return nil
	case t.op == OAppend:
		r := pieces(t.args[0])
		for _, x := range t.args[1:] {
			if x.op == OSpread {
				r = append(r, pieces(x.args[0])...)
			} else {
				r = append(r, x)
			}
		}
		return r
	}
	return []*Term{t}
}

func (c *Ctx) listWithout(e *Engine, f *Facts, final, init, i *Term, keep func(p passCase) int) bool {
	if ps := pieces(final); len(ps) == 2 {
		a, b := ps[0], ps[1]
		if a.op == OSlice && b.op == OSlice && a.args[0] == init && b.args[0] == init {
			q := e.q(f)
			lo0, ok := a.args[1].intVal()
			return ok && lo0 == 0 && q.same(a.args[2], i) && q.same(b.args[1], e.tt.Add(i, e.tt.Int(1))) && b.args[2] == e.lenOf(init)
		}
	}
	seq, cs, ok := e.filterOf(final)
	return ok && seq == init && exactly(cs, keep)
}

// filteredOut: the list no longer holds x and keeps everything else.
func (c *Ctx) filteredOut(r *Run, o *Outcome, list, x *Term, wf *types.Var) bool {
	e := r.e
	init := e.load(r.st0, e.tt.Field(r.recv, wf), wf.Type())
	seq, cs, ok := e.filterOf(list)
	if !ok || e.pathOf(seq) != e.pathOf(init) {
		return false
	}
	return exactly(cs, func(p passCase) int { return -e.eqVal(p.q.f, p.x, x) })
}

// selCase is one kind of iteration of a pass that builds a list.
type selCase struct {
	passCase
	val *Term // what was appended, nil when the element was dropped
}

// selectOf reads a list value as one full pass over a source list, appending at
// most one value per element.
func (e *Engine) selectOf(t *Term) (*Term, []selCase, bool) { return e.selectOfTo(t, nil) }

// selectOfTo accepts a pass that may be left early when the facts say that this
// one was not.
func (e *Engine) selectOfTo(t *Term, f *Facts) (*Term, []selCase, bool) {
	if t == nil {
		return nil, nil, false
	}
	s := e.sums[t]
	if s == nil || !emptyList(s.init) {
		return nil, nil, false
	}
	li := s.loop
	if li.seq == nil || !li.full || li.breaks > 0 && !e.exhausted(f, li) || li.idx == nil {
		return nil, nil, false
	}
	var r []selCase
	for _, ct := range li.conts {
		x, et := e.elemOf(li, ct)
		n := ct.next[s.sym]
		if x == nil || n == nil {
			return nil, nil, false
		}
		pc := selCase{passCase: passCase{li: li, ct: ct, x: x, et: et, q: e.q(ct.st.facts)}}
		switch {
		case n == s.sym:
		case n.op == OAppend && n.args[0] == s.sym && len(n.args) == 2 && n.args[1].op != OSpread:
			pc.took, pc.val = 1, n.args[1]
		default:
			return nil, nil, false
		}
		r = append(r, pc)
	}
	return li.seq, r, len(r) > 0
}

// exhausted: the facts say that the pass went to its end.
func (e *Engine) exhausted(f *Facts, li *LoopInfo) bool {
	if f == nil {
		return false
	}
	for t, v := range f.atoms {
		if v && e.exhLoop[t] == li {
			return true
		}
	}
	return false
}

// selection follows a list back through the passes that built it, outermost
// first.
func (e *Engine) selection(t *Term) (src *Term, stages [][]selCase) {
	return e.selectionTo(t, func(*Term) bool { return false })
}

// selectionTo is selection up to a list.
func (e *Engine) selectionTo(t *Term, stop func(*Term) bool) (src *Term, stages [][]selCase) {
	for {
		if stop(t) {
			return t, stages
		}
		seq, cs, ok := e.selectOf(t)
		if !ok || seq == t || len(stages) > 20 {
			return t, stages
		}
		stages = append(stages, cs)
		t = seq
	}
}

// picks: the list was selected from the list at path and holds exactly the
// elements the predicate accepts, or their player ids.
func (e *Engine) picks(t *Term, path string, pred func(p passCase) int) (bool, string) {
	return e.picksFrom(t, func(src *Term) bool { return e.pathOf(src) == path }, pred)
}

// keepsElem: the value kept is the element visited, its player id, or a record
// with its player id.
func (e *Engine) keepsElem(p selCase) bool {
	if p.q.linked(p.val, p.x) {
		return true
	}
	id := func(v *Term, t types.Type) *Term {
		u := t
		if u == nil {
			return nil
		}
		if isStringType(u) {
			return v
		}
		if pt, ok := u.Underlying().(*types.Pointer); ok {
			u = pt.Elem()
		}
		s, ok := u.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "PlayerID" {
				return e.at(p.ct.st, v, t, "PlayerID")
			}
		}
		return nil
	}
	if isIntType(p.et) {
		return e.mentions(p.val, p.x) // an index
	}
	a, b := id(p.val, p.val.typ), id(p.x, p.et)
	return a != nil && b != nil && p.q.linked(a, b)
}

func (e *Engine) picksFrom(t *Term, from func(src *Term) bool, pred func(p passCase) int) (bool, string) {
	src, st := e.selectionTo(t, from)
	if !from(src) {
		return false, "it is not selected from the list"
	}
	filters := 0
	for _, cs := range st {
		drop := false
		for _, p := range cs {
			drop = drop || p.took == 0
			if p.took == 1 && !e.keepsElem(p) {
				return false, fmt.Sprintf("what is kept is not the element visited (%s)", p.val)
			}
		}
		if !drop {
			continue
		}
		filters++
		for _, p := range cs {
			if !from(p.li.seq) {
				return false, "an element is dropped after the selection"
			}
			v := pred(p.passCase)
			if p.took == 1 && v != 1 {
				return false, "an element is taken that does not qualify"
			}
			if p.took == 0 && v != -1 {
				return false, "an element is left out that qualifies"
			}
		}
	}
	return filters <= 1, "it is filtered repeatedly"
}

// lessT is the three-valued a < b.
func (q *FQ) lessT(a, b *Term) int {
	return q.e.eval(q.f, q.e.tt.Less(a, b, types.Typ[types.Int64]))
}

// positive is the three-valued t > 0.
func (q *FQ) positive(t *Term) int { return q.lessT(q.e.tt.Int(0), t) }

func not3(a int) int { return -a }

func (q *FQ) dump() string {
	var l []string
	for t, v := range q.f.iv {
		l = append(l, fmt.Sprintf("%s:%d..%d%v", t, v.lo, v.hi, v.ne))
	}
	for t, s := range q.f.set {
		x := fmt.Sprint(t)
		for k := range s.allowed {
			x += fmt.Sprint(" +", k)
		}
		for k := range s.excl {
			x += fmt.Sprint(" -", k)
		}
		l = append(l, x)
	}
	for t, v := range q.f.atoms {
		l = append(l, fmt.Sprint(t, "=", v))
	}
	sort.Strings(l)
	return "\n    " + strings.Join(l, "\n    ")
}
