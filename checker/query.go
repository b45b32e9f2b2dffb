package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Viol struct {
	Key string // stable identity: no line numbers
	Pos string
	Fn  string
	Msg string
}

// Ctx is one property check in progress.
type Ctx struct {
	w     *World
	prop  string
	tier  string
	viols []Viol
	seen  map[string]bool
	cov   map[string]int64
	fns   map[string]bool
	notes []string
	engs  []*Engine
	// operations that are analysed as starting with unknown knowledge until
	// they take the lock
	atomic map[string]bool
	// only keeps the violations with these keys (parts of other rules)
	only []string
}

func (c *Ctx) count(k string, n int) { c.cov[k] += int64(n) }

func (c *Ctx) fail(key string, pos token.Pos, fn string, f string, a ...any) {
	c.failAt(key, c.w.pos(pos), fn, f, a...)
}

// part decides only some of the obligations of other rules.
func (c *Ctx) part(keys []string, fn func()) {
	c.only = keys
	fn()
	c.only = nil
}
func (c *Ctx) failAt(key, pos, fn string, f string, a ...any) {
	v := Viol{key, pos, fn, fmt.Sprintf(f, a...)}
	if c.only != nil && !slices.Contains(c.only, key) {
		return
	}
	id := key + "|" + fn
	if c.seen[id] {
		return
	}
	c.seen[id] = true
	c.viols = append(c.viols, v)
}

// need reports an anchor that was not found: the rule would be vacuous.
func (c *Ctx) need(ok bool, what string, a ...any) bool {
	if !ok {
		w := fmt.Sprintf(what, a...)
		c.failAt("anchor:"+w, "-", "-", "the construct this rule is about was not found: %s", w)
	}
	return ok
}

// ---- entries ----

type Run struct {
	c    *Ctx
	e    *Engine
	name string
	fn   *ssa.Function
	recv *Term
	args []*Term // without the receiver
	outs []*Outcome
	st0  *State
	qs   map[*Facts]*FQ

	remembers map[*types.Var]bool
}

func (c *Ctx) engineType() *types.Named {
	return c.implOf(c.w.root, "CompetitionEngine")
}

// implOf finds the implementation of an exported interface.
func (c *Ctx) implOf(p *types.Package, iface string) *types.Named {
	nt := c.w.namedType(p, iface)
	if nt == nil {
		return nil
	}
	it, ok := nt.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, i := range c.w.implementers(p, it) {
		return i
	}
	return nil
}

func (c *Ctx) newEngine(cfg *Config) *Engine {
	e := NewEngine(c.w, cfg)
	e.initGlobals()
	c.engs = append(c.engs, e)
	return e
}

type setupFn func(r *Run, st *State)

// run analyses a method of the named type.
func (c *Ctx) run(e *Engine, t *types.Named, method string, setup setupFn) *Run {
	if t == nil {
		c.need(false, "type for method %s", method)
		return nil
	}
	fn := c.w.method(t, method)
	if fn == nil || len(fn.Blocks) == 0 {
		c.need(false, "method %s.%s", t.Obj().Name(), method)
		return nil
	}
	return c.runFn(e, fn, t.Obj().Name()+"."+method, setup)
}

func (c *Ctx) runFn(e *Engine, fn *ssa.Function, label string, setup setupFn) *Run {
	r := &Run{c: c, e: e, name: label, fn: fn, qs: map[*Facts]*FQ{}}
	var args []*Term
	ps := fn.Params
	if fn.Signature.Recv() != nil {
		r.recv = e.tt.Sym("recv", ps[0].Type())
		args = append(args, r.recv)
		ps = ps[1:]
	}
	for i, p := range ps {
		a := e.tt.Sym(fmt.Sprintf("p%d", i+1), p.Type())
		r.args = append(r.args, a)
		args = append(args, a)
	}
	st := newState()
	if setup != nil {
		setup(r, st)
	}
	r.st0 = st.clone()
	if c.atomic[label[strings.LastIndex(label, ".")+1:]] {
		e.cfg.Atomic = true
		st.genAll = preLock
	}
	r.outs = e.Run(label, fn, args, st)
	c.count("entries", 1)
	c.count("outcomes", len(r.outs))
	for _, a := range e.asyncs {
		c.count("outcomes", len(a.outcomes))
	}
	return r
}

// op analyses an operation of the competition engine.
func (c *Ctx) op(cfg *Config, method string, setup setupFn) *Run {
	e := c.newEngine(cfg)
	return c.run(e, c.engineType(), method, setup)
}

// ---- building initial-state terms ----

// at loads base.path in st; pointers are followed.
func (e *Engine) at(st *State, base *Term, typ types.Type, path string) *Term {
	v := base
	t := typ
	isAddr := false
	if path == "" {
		return v
	}
	for _, f := range strings.Split(path, ".") {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			isAddr = true
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			e.abort("path %s: %s is not a struct", path, t)
		}
		var fv *types.Var
		fi := 0
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				fv, fi = s.Field(i), i
			}
		}
		if fv == nil {
			e.abort("path %s: no field %s", path, f)
		}
		if isAddr {
			ad := e.tt.Field(v, fv)
			if _, st2 := fv.Type().Underlying().(*types.Struct); st2 {
				v = ad // keep the address of nested structs
				isAddr = true
				t = fv.Type()
				continue
			}
			v = e.load(st, ad, fv.Type())
			isAddr = false
		} else {
			v = e.sel(v, fv, fi)
		}
		t = fv.Type()
	}
	return v
}

func fieldByType(t *types.Named, pred func(types.Type) bool) *types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i).Type()) {
			return s.Field(i)
		}
	}
	return nil
}

func typeIs(t types.Type, pkgName, name string, ptr bool) bool {
	if p, ok := t.(*types.Pointer); ok {
		if !ptr {
			return false
		}
		t = p.Elem()
	} else if ptr {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkgName
}

func isCompPtr(t types.Type) bool { return typeIs(t, "pokercompetition", "Competition", true) }

// comp is the engine's competition at the start of the run.
func (r *Run) comp(st *State, path string) *Term {
	if typeIs(r.recv.typ, "pokercompetition", "Competition", false) || isCompPtr(r.recv.typ) {
		return r.e.at(st, r.recv, r.recv.typ, path)
	}
	fv := fieldByType(r.c.engineType(), isCompPtr)
	if fv == nil {
		r.e.abort("the engine holds no *Competition")
	}
	return r.e.at(st, r.e.load(st, r.e.tt.Field(r.recv, fv), fv.Type()), fv.Type(), path)
}

func (r *Run) assumeStr(st *State, path, val string) {
	if !r.e.assume(st.facts, r.e.tt.Eq(r.comp(st, path), r.e.tt.Str(val), types.Typ[types.String]), true) {
		r.e.abort("contradictory setup")
	}
}

// ---- paths of terms ----

func (e *Engine) pathOf(t *Term) string {
	switch t.op {
	case OInit:
		if strings.HasPrefix(t.name, preLockGen) {
			return "before:" + e.pathOf(t.args[0])
		}
		return e.pathOf(t.args[0])
	case OField:
		if isCompPtr(t.fv.Type()) {
			return "C"
		}
		return e.pathOf(t.args[0]) + "." + t.fv.Name()
	case OSel:
		return e.pathOf(t.args[0]) + "." + t.fv.Name()
	case OIndex:
		return e.pathOf(t.args[0]) + "[]"
	case OMapC:
		return e.pathOf(t.args[0])
	case OClone:
		return e.pathOf(t.args[0])
	case OSlice:
		return e.pathOf(t.args[0])
	case OSliceOf:
		return e.pathOf(t.args[0])
	case OCall:
		if t.name == "mapget" {
			return e.pathOf(t.args[0]) + "[]"
		}
		return "call:" + t.name
	case OLen:
		return "len(" + e.pathOf(t.args[0]) + ")"
	case OSym:
		if t.typ != nil && (isCompPtr(t.typ) || typeIs(t.typ, "pokercompetition", "Competition", false)) {
			return "C"
		}
		if t.name == "recv" {
			return "E"
		}
		return t.name
	case OAlloc:
		return "new"
	case OStruct:
		// a struct rebuilt from its parts
		return "struct"
	case OConst:
		return t.cv.String()
	case ONil:
		return "nil"
	}
	return "?"
}

// idxOf returns the index at which the term goes through the given collection.
func (e *Engine) idxOf(t *Term, coll string) *Term {
	for {
		if t.op == OIndex && e.pathOf(t.args[0]) == coll {
			return t.args[1]
		}
		if t.op == OCall && t.name == "mapget" && e.pathOf(t.args[0]) == coll {
			return t.args[1]
		}
		if len(t.args) == 0 {
			return nil
		}
		switch t.op {
		case OInit, OField, OSel, OIndex, OMapC, OClone, OSlice, OSliceOf, OCall:
			t = t.args[0]
		default:
			return nil
		}
	}
}

// ---- fact queries ----

type FQ struct {
	e      *Engine
	f      *Facts
	byPath map[string][]*Term
}

func (e *Engine) q(f *Facts) *FQ {
	q := &FQ{e: e, f: f, byPath: map[string][]*Term{}}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OInit, OSel, OLen, OSym, OCall:
			p := e.pathOf(t)
			q.byPath[p] = append(q.byPath[p], t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for t := range f.iv {
		walk(t)
	}
	for t := range f.set {
		walk(t)
	}
	for t := range f.atoms {
		walk(t)
	}
	for _, l := range q.byPath {
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	}
	return q
}

func (e *Engine) consts(vals ...any) []*Term {
	var r []*Term
	for _, v := range vals {
		switch x := v.(type) {
		case string:
			r = append(r, e.tt.Str(x))
		case int:
			r = append(r, e.tt.Int(int64(x)))
		case bool:
			r = append(r, e.tt.Bool(x))
		case nil:
			r = append(r, e.tt.Nil())
		}
	}
	return r
}

func (q *FQ) terms(path string, idx *Term) []*Term {
	var r []*Term
	for _, t := range q.byPath[path] {
		if idx != nil {
			i := strings.LastIndex(path, "[]")
			if i < 0 || q.e.idxOf(t, path[:i]) != idx {
				continue
			}
		}
		r = append(r, t)
	}
	return r
}

// is: some observation of the path is known to lie in vals.
func (q *FQ) is(path string, idx *Term, vals ...any) bool {
	for _, t := range q.terms(path, idx) {
		if q.e.inSet2(q.f, t, q.e.consts(vals...)) == 1 {
			return true
		}
	}
	return false
}

// isnt: some observation of the path is known to lie outside vals.
func (q *FQ) isnt(path string, idx *Term, vals ...any) bool {
	for _, t := range q.terms(path, idx) {
		if q.e.inSet2(q.f, t, q.e.consts(vals...)) == -1 {
			return true
		}
	}
	return false
}

func (e *Engine) inSet2(f *Facts, t *Term, cs []*Term) int {
	if isBoolType(t.typ) && len(cs) == 1 {
		v, _ := cs[0].boolVal()
		r := e.eval(f, t)
		if !v {
			r = -r
		}
		return r
	}
	return e.inSet(f, t, cs)
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// less: some observation of a is known to be < (or <= when eq) one of b.
func (q *FQ) less(a, b []*Term, eq bool) bool {
	for _, x := range a {
		for _, y := range b {
			var v int
			if eq {
				v = -q.e.eval(q.f, q.e.tt.Less(y, x, types.Typ[types.Int]))
			} else {
				v = q.e.eval(q.f, q.e.tt.Less(x, y, types.Typ[types.Int]))
			}
			if v == 1 {
				return true
			}
		}
	}
	return false
}

// found lists the indexes i for which coll[i].key == k is known.
func (q *FQ) found(coll, key string, k *Term) []*Term {
	var r []*Term
	for t, v := range q.f.atoms {
		if !v || t.op != OEq {
			continue
		}
		a, b := t.args[0], t.args[1]
		if b == k {
			a, b = b, a
		}
		if a != k || q.e.pathOf(b) != coll+"[]."+key {
			continue
		}
		if i := q.e.idxOf(b, coll); i != nil {
			r = append(r, i)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// foundIn is found for one particular value of the list.
func (q *FQ) foundIn(list *Term, key string, k *Term) []*Term {
	var r []*Term
	coll := q.e.pathOf(list)
	for t, v := range q.f.atoms {
		if !v || t.op != OEq {
			continue
		}
		a, b := t.args[0], t.args[1]
		if b == k {
			a, b = b, a
		}
		if a != k || q.e.pathOf(b) != coll+"[]."+key {
			continue
		}
		for x := b; len(x.args) > 0; x = x.args[0] {
			if x.op == OIndex && x.args[0] == list {
				r = append(r, x.args[1])
				break
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// absent: some completed full pass over coll is known to have met no element
// whose key equals k.
func (q *FQ) absent(coll, key string, k *Term) bool { return q.absentIn(nil, coll, key, k) }

// absentIn is absent for one particular value of the list.
func (q *FQ) absentIn(list *Term, coll, key string, k *Term) bool {
	for t, v := range q.f.atoms {
		if !v {
			continue
		}
		if t.op == OCall && t.name == "maphas" {
			continue
		}
		li := q.e.exhLoop[t]
		if li == nil || !li.full || li.seq == nil || q.e.pathOf(li.seq) != coll || list != nil && li.seq != list {
			continue
		}
		ok := true
		for n, ct := range li.conts {
			if q.f.atoms[q.e.neverAtom(li, n)] {
				continue
			}
			hit := false
			for at, av := range ct.st.facts.atoms {
				if av || at.op != OEq {
					continue
				}
				a, b := at.args[0], at.args[1]
				if b == k {
					a, b = b, a
				}
				if a == k && q.e.pathOf(b) == coll+"[]."+key {
					hit = true
				}
			}
			if !hit {
				ok = false
			}
		}
		if ok && len(li.conts) > 0 {
			return true
		}
	}
	// lookup in an index map built from the collection
	for t, v := range q.f.atoms {
		if v || t.op != OCall || t.name != "maphas" || t.args[1] != k {
			continue
		}
		if q.e.indexMapOf(t.args[0], coll, key) && (list == nil || q.e.sums[t.args[0]].loop.seq == list) {
			return true
		}
	}
	return false
}

// noneWith: no element of this very list has key == k, by a completed pass over
// it or by a lookup in an index built from it.
func (q *FQ) noneWith(list *Term, key string, k *Term) bool {
	e := q.e
	if list == nil || k == nil {
		return false
	}
	for t, v := range q.f.atoms {
		if t.op == OCall && t.name == "maphas" {
			if v || t.args[1] != k {
				continue
			}
			s := e.sums[t.args[0]]
			if s == nil || s.loop.seq != list || !s.loop.full || s.loop.breaks > 0 || len(s.loop.conts) == 0 {
				continue
			}
			ok := true
			for _, ct := range s.loop.conts {
				x, et := e.elemOf(s.loop, ct)
				n := ct.next[s.sym]
				if x == nil || n == nil || n.op != OMapPut || !(&FQ{e: e, f: ct.st.facts}).same(n.args[1], e.at(ct.st, x, et, key)) {
					ok = false
				}
			}
			if ok {
				return true
			}
			continue
		}
		li := e.exhLoop[t]
		if !v || li == nil || !li.full || li.seq != list || len(li.conts) == 0 {
			continue
		}
		ok := true
		for n, ct := range li.conts {
			if q.f.atoms[e.neverAtom(li, n)] {
				continue
			}
			x, et := e.elemOf(li, ct)
			if x == nil || !(&FQ{e: e, f: ct.st.facts}).differ(e.at(ct.st, x, et, key), k) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (q *FQ) differ(a, b *Term) bool {
	return a != nil && b != nil && q.e.eqVal(q.f, a, b) == -1
}

// indexMapOf: the map content was filled by a full pass over coll putting every
// element's key.
func (e *Engine) indexMapOf(m *Term, coll, key string) bool {
	s := e.sums[m]
	if s == nil {
		return false
	}
	li := s.loop
	if li.seq == nil || !li.full || e.pathOf(li.seq) != coll || li.breaks > 0 {
		return false
	}
	for _, ct := range li.conts {
		n := ct.next[s.sym]
		if n == nil || n.op != OMapPut || e.pathOf(n.args[1]) != coll+"[]."+key {
			return false
		}
	}
	return len(li.conts) > 0
}

func (e *Engine) neverAtom(li *LoopInfo, n int) *Term {
	return e.tt.mk(OCall, fmt.Sprintf("never:%d:%d", li.id, n), types.Typ[types.Bool])
}

// ---- effects ----

type Ev struct {
	*Effect
	loops []*LoopInfo
	cont  *Cont
}

func flat(l *LogNode) []Ev {
	var r []Ev
	var rec func(l *LogNode, loops []*LoopInfo, ct *Cont)
	rec = func(l *LogNode, loops []*LoopInfo, ct *Cont) {
		for _, f := range l.effects() {
			if f.kind == "loop" {
				for _, c := range f.loop.conts {
					rec(c.log, append(append([]*LoopInfo{}, loops...), f.loop), c)
				}
				continue
			}
			r = append(r, Ev{f, loops, ct})
		}
	}
	rec(l, nil, nil)
	return r
}

// full log of a site, including what preceded the enclosing loops.
func (s *Site) before() []Ev {
	var r []Ev
	for _, o := range s.outer {
		r = append(r, flat(o)...)
	}
	return append(r, flat(s.log)...)
}

func glob(p, s string) bool {
	if strings.HasSuffix(p, "*") {
		return strings.HasPrefix(s, p[:len(p)-1])
	}
	return p == s
}

// sel matches "kind:name" patterns; kind or name may end in *.
func selects(pats []string, f *Effect) bool {
	for _, p := range pats {
		i := strings.IndexByte(p, ':')
		if glob(p[:i], f.kind) && glob(p[i+1:], f.name) {
			return true
		}
	}
	return false
}

func interest(pats ...string) func(*Effect) bool {
	return func(f *Effect) bool { return selects(pats, f) }
}

func evs(l *LogNode, pats ...string) []Ev {
	var r []Ev
	for _, f := range flat(l) {
		if selects(pats, f.Effect) {
			r = append(r, f)
		}
	}
	return r
}

func (r *Run) sites(pats ...string) []*Site {
	var o []*Site
	for _, s := range r.e.sites {
		if selects(pats, s.eff) {
			o = append(o, s)
		}
	}
	return o
}

var readerInvokes = map[string]bool{
	"Blind.IsStarted": true, "Blind.GetState": true, "Regulator.GetPlayerCount": true,
	"Regulator.GetTableCount": true, "Regulator.GetTables": true, "Regulator.GetTable": true,
	"TableManagerBackend.GetTable": true, "CompetitionEngine.GetCompetition": true,
}

// mutation: the effect changes shared state or reaches another component.
func mutation(f *Effect) bool {
	switch f.kind {
	case "store", "mapput", "mapdel", "mapclear", "copy", "send":
		return true
	case "sort":
		return false
	case "invoke":
		return !readerInvokes[f.name]
	case "callback", "opaque", "recursive":
		return true
	case "ext":
		return !pureExt(f.name)
	}
	return false
}

func pureExt(n string) bool {
	i := strings.IndexByte(n, '.')
	pk := n[:i]
	return pk == "pokertable" || pk == "pokerface" || pk == "json" || pk == "rand" || pk == "time" || purePkgs[pk]
}

func (r *Run) pos(f *Effect) token.Pos { return f.pos }

// errTerm is the value of an exported error variable.
func (r *Run) errTerm(name string) *Term {
	sp := r.c.w.ssaPkgs[r.c.w.root]
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		g, ok = r.c.w.ssaPkgs[r.c.w.blind].Members[name].(*ssa.Global)
	}
	if !ok {
		r.c.need(false, "error variable %s", name)
		return nil
	}
	if v, ok := r.e.globalMem[r.e.tt.Global(g)]; ok {
		return v
	}
	return r.e.tt.mk(OCall, "nonnil:"+g.Pkg.Pkg.Name()+"."+g.Name(), nil)
}

// retErr classifies the last result of an outcome.
func (o *Outcome) err() *Term {
	if len(o.ret) == 0 {
		return nil
	}
	return o.ret[len(o.ret)-1]
}

// failed / succeeded: what is known about the returned error.
func (r *Run) failed(o *Outcome) bool {
	x := o.err()
	return x != nil && r.e.inSet(o.st.facts, x, []*Term{r.e.tt.Nil()}) == -1
}
func (r *Run) succeeded(o *Outcome) bool {
	x := o.err()
	return x != nil && (x.op == ONil || r.e.inSet(o.st.facts, x, []*Term{r.e.tt.Nil()}) == 1)
}

// rejected: the operation returned one of its own sentinel errors.
func (r *Run) rejected(o *Outcome) bool {
	x := o.err()
	return x != nil && (x.op == OCall && (x.name == "errors.New" || x.name == "fmt.Errorf" || strings.HasPrefix(x.name, "nonnil:")))
}

// outcomeName shortens an outcome for messages.
func (r *Run) describe(o *Outcome) string {
	var parts []string
	for t, s := range o.st.facts.set {
		p := r.e.pathOf(t)
		if p == "?" {
			continue
		}
		var ks []string
		for k := range s.allowed {
			ks = append(ks, k.String())
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			parts = append(parts, p+"∈{"+strings.Join(ks, ",")+"}")
			continue
		}
		for k := range s.excl {
			ks = append(ks, k.String())
		}
		sort.Strings(ks)
		parts = append(parts, p+"∉{"+strings.Join(ks, ",")+"}")
	}
	sort.Strings(parts)
	if len(parts) > 14 {
		parts = parts[:14]
	}
	return strings.Join(parts, " ")
}
