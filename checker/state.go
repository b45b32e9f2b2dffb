package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	Snap        func(f *Effect) bool               // effects whose sites keep the state
	Cut         func(log *LogNode, f *Effect) bool // paths end (as r.e.cuts) at such an effect outside of loops
	TrackTerm   func(e *Engine, t *Term) bool      // more terms whose facts keep states apart
	LogGo       bool                               // log the start of goroutines
	NoGC        bool                               // keep objects nothing refers to any more
	Name        string
	TrackAll    bool                   // keep states apart on every guard fact
	Untrack     func(leaf string) bool // with TrackAll: leaf names to give up on
	Track       map[string]bool        // leaf names whose facts keep states apart
	StoreTrack  map[string]bool        // model fields whose values must not be merged
	Interest    func(*Effect) bool
	Quiet       func(*Effect) bool                        // recorded as a site but kept out of the log
	AsyncSetup  func(e *Engine, a *Async, st *State) bool // assumptions at the start of asynchronous runs
	LockHavoc   bool                                      // shared state may change when a lock is taken
	Atomic      bool                                      // nothing read of the shared state before the lock is taken is known afterwards
	EnvHavoc    bool                                      // shared state may change at every environment call
	NoAsync     bool                                      // do not analyse asynchronous entries
	Opaque      func(*ssa.Function) bool
	MaxStates   int
	MaxSteps    int
	LocalMaps   bool
	LocalStores bool
	EscapeHavoc bool
}

type Effect struct {
	kind  string
	name  string
	pos   token.Pos
	fn    *ssa.Function
	stack []string
	addr  *Term
	val   *Term
	old   *Term
	args  []*Term
	full  []*Term // args with list contents spelled out
	res   *Term
	recv  *Term
	loop  *LoopInfo
	async *Async
	inst  ssa.Instruction
	cmp   *Comparator
}

// Comparator is the analysed order of a sort: the return values of its less
// function for two generic positions.
type Comparator struct {
	coll *Term
	elem types.Type
	i, j *Term
	outs []*Outcome
}

type LogNode struct {
	id   int
	prev *LogNode
	eff  *Effect
}

type deferred struct {
	fn   *Term
	call *ssa.CallCommon
	args []*Term
	inst ssa.Instruction
}

type State struct {
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	gen    map[any]int
	genAll int
	facts  *Facts
	log    *LogNode
	defers [][]deferred
	envs   []map[ssa.Value]*Term // caller environments (for reachability)
	ret    []*Term
	ops    map[string]int
	cut    bool
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)+8), mem: make(map[*Term]*Term, len(s.mem)+8), gen: make(map[any]int, len(s.gen)), genAll: s.genAll, facts: s.facts.clone(), log: s.log, ret: s.ret}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.gen {
		n.gen[k] = v
	}
	n.defers = make([][]deferred, len(s.defers))
	for i, d := range s.defers {
		n.defers[i] = append([]deferred{}, d...)
	}
	n.envs = append([]map[ssa.Value]*Term{}, s.envs...)
	return n
}

// effects returns the log oldest first.
func (l *LogNode) effects() []*Effect {
	var r []*Effect
	for n := l; n != nil; n = n.prev {
		r = append(r, n.eff)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type Site struct {
	eff   *Effect
	facts *Facts
	st    *State // snapshot, only when Config asks
	entry string
	log   *LogNode
	outer []*LogNode
	stack []string
}

type Async struct {
	label    string
	key      string
	fn       *ssa.Function
	closure  *Term
	args     []*Term // arguments of the registering call
	params   []*Term
	outcomes []*Outcome
	pos      token.Pos
	entry    string // entry whose analysis registered it
	starts   []*State
	st0      *State // state at the start of the asynchronous run
	name     string // registering API
	chain    []ssa.Instruction
	eff      *Effect
}

type Outcome struct {
	entry string
	st    *State
	ret   []*Term
	args  []*Term
}

type LoopInfo struct {
	id      int
	fn      *ssa.Function
	header  *ssa.BasicBlock
	seq     *Term // container iterated over, when recognised
	mapSeq  bool
	idx     *Term // index of the current element
	full    bool  // exhaustion means every element was visited
	reverse bool
	born    map[*Term]bool
	gens    map[string]bool
	conts   []*Cont
	early   []*State
	brk     []*Facts // what is known where the loop is left before the end
	breaks  int      // ways to leave before the end
	cond    *Term    // the loop goes on while this holds
	start   *State
	exh     *Term
	pos     token.Pos
}

type Cont struct {
	st   *State
	log  *LogNode
	next map[*Term]*Term // header symbol -> next value
}

// Summary describes a loop-carried value: init, or the next value of some
// completed iteration.
type Summary struct {
	init *Term
	sym  *Term
	loop *LoopInfo
	priv bool
}

type frame struct {
	fn  *ssa.Function
	act string
}

type Engine struct {
	W         *World
	tt        *TermTable
	cfg       *Config
	stack     []*frame
	sums      map[*Term]*Summary
	loops     map[int]*LoopInfo
	nloop     int
	logTab    map[string]*LogNode
	nlog      int
	sites     []*Site
	cuts      []*Outcome // paths ended by Config.Cut
	asyncs    []*Async
	asyncKey  map[string]*Async
	mods      []*modSet
	modCache  map[string]*modSet
	born      []map[*Term]bool
	entry     string
	actIDs    map[string]string
	symTab    map[string]*Term
	snap      bool
	steps     int
	trackM    map[*Term]bool
	leafM     map[*Term]map[string]bool
	allocM    map[*Term]map[*Term]bool
	err       string
	fnsSeen   map[*ssa.Function]bool
	nasync    int
	npaths    int
	caseTab   map[string]*Term
	merges    int
	globalMem map[*Term]*Term
	globalMut map[*Term]bool
	bornGens  []map[string]bool
	genTab    map[string]int
	asyncQ    []*Async
	mkLen     map[*Term]*Term // length of made slices
	fills     []*fill         // under way
	chain     []ssa.Instruction
	exhLoop   map[*Term]*LoopInfo
	silent    bool
	logStack  []*LogNode
}

type modSet struct {
	classes map[any]bool
	addrs   map[*Term]bool
	slots   map[*Term]bool // objects written at places that only exist within an iteration
	all     bool
	induct  map[string]int // phi -> +1/-1
	noInd   map[string]bool
}

func newModSet() *modSet {
	return &modSet{map[any]bool{}, map[*Term]bool{}, map[*Term]bool{}, false, map[string]int{}, map[string]bool{}}
}

func NewEngine(w *World, cfg *Config) *Engine {
	e := &Engine{W: w, tt: newTermTable(), cfg: cfg, sums: map[*Term]*Summary{}, loops: map[int]*LoopInfo{}, logTab: map[string]*LogNode{}, asyncKey: map[string]*Async{}, modCache: map[string]*modSet{}, actIDs: map[string]string{}, symTab: map[string]*Term{}, trackM: map[*Term]bool{}, leafM: map[*Term]map[string]bool{}, allocM: map[*Term]map[*Term]bool{}, fnsSeen: map[*ssa.Function]bool{}, caseTab: map[string]*Term{}, genTab: map[string]int{}, exhLoop: map[*Term]*LoopInfo{}, globalMem: map[*Term]*Term{}, globalMut: map[*Term]bool{}}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 8000000
	}
	if cfg.MaxStates == 0 {
		cfg.MaxStates = 3000
	}
	if cfg.Interest == nil {
		cfg.Interest = func(*Effect) bool { return true }
	}
	return e
}

type engineAbort struct{ msg string }

func (e *Engine) abort(f string, a ...any) { panic(engineAbort{fmt.Sprintf(f, a...)}) }

// ---- symbols ----

func (e *Engine) act() string {
	if len(e.stack) == 0 {
		return "root"
	}
	return e.stack[len(e.stack)-1].act
}

func (e *Engine) noteBorn(t *Term) *Term {
	for _, b := range e.born {
		b[t] = true
	}
	return t
}

// symAt is the deterministic unknown produced at an instruction of the current activation.
func (e *Engine) symAt(inst any, tag, name string, typ types.Type) *Term {
	key := fmt.Sprintf("%s|%p|%s", e.act(), inst, tag)
	t, ok := e.symTab[key]
	if !ok {
		t = e.tt.Sym(name, typ)
		e.symTab[key] = t
	}
	return e.noteBorn(t)
}
func (e *Engine) allocAt(inst any, tag, name string, typ types.Type) *Term {
	key := fmt.Sprintf("A%s|%p|%s", e.act(), inst, tag)
	t, ok := e.symTab[key]
	if !ok {
		t = e.tt.Alloc(name, typ)
		e.symTab[key] = t
	}
	return e.noteBorn(t)
}
func (e *Engine) fresh(name string, typ types.Type) *Term {
	return e.noteBorn(e.tt.Sym(name, typ))
}

// ---- memory ----

func classOf(addr *Term) any {
	switch addr.op {
	case OField:
		return addr.fv
	case OIndex:
		return "idx:" + types.TypeString(addr.typ, nil)
	case OMapC:
		return "map:" + types.TypeString(addr.typ, nil)
	case OGlobal:
		return addr
	}
	return "deref:" + typeKey(addr.typ)
}
func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func root(addr *Term) *Term {
	for {
		switch addr.op {
		case OField, OIndex, OMapC:
			addr = addr.args[0]
		case OSliceOf:
			addr = addr.args[0]
		default:
			return addr
		}
	}
}

func (s *State) genOf(c any) string { return fmt.Sprintf("%d.%d", s.genAll, s.gen[c]) }

// preLock is the generation of the shared state before the lock is taken, in
// runs that ask whether an operation is one step (Config.Atomic).
const (
	preLock    = 1 << 30
	preLockGen = "1073741824."
)

// genOf: fields that are never written to an object others can see are the
// same before and after the lock.
func (e *Engine) genOf(s *State, c any) string {
	if s.genAll == preLock {
		if fv, ok := c.(*types.Var); ok && !e.W.written(fv) {
			return fmt.Sprintf("0.%d", s.gen[c])
		}
	}
	return s.genOf(c)
}

// newGen is the generation that follows old after the described event.
func (e *Engine) newGen(old int, ev string) int {
	k := fmt.Sprintf("%d|%s|%s", old, ev, e.act())
	g, ok := e.genTab[k]
	if !ok {
		g = len(e.genTab) + 1
		e.genTab[k] = g
	}
	for _, b := range e.bornGens {
		b[fmt.Sprint(g)] = true
	}
	return g
}

func genBorn(name string, gens map[string]bool) bool {
	if len(gens) == 0 {
		return false
	}
	i := strings.IndexByte(name, '.')
	if i < 0 {
		return false
	}
	b := name[i+1:]
	if j := strings.IndexByte(b, '\''); j >= 0 {
		b = b[:j]
	}
	return gens[name[:i]] || gens[b]
}

func unclone(tt *TermTable, a *Term) (*Term, *Term) {
	switch a.op {
	case OField:
		b, c := unclone(tt, a.args[0])
		if c == nil {
			return nil, nil
		}
		return tt.Field(b, a.fv), c
	case OIndex:
		b, c := unclone(tt, a.args[0])
		if c == nil {
			return nil, nil
		}
		return tt.Index(b, a.args[1], a.typ), c
	case OMapC:
		b, c := unclone(tt, a.args[0])
		if c == nil {
			return nil, nil
		}
		return tt.MapC(b, a.typ), c
	case OClone:
		return a.args[0], a
	}
	return nil, nil
}

func isRefType(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (e *Engine) cloneWrap(v *Term, n int, typ types.Type) *Term {
	switch {
	case v.op == ONil || v.op == OConst:
		return v
	case v.op == OStruct:
		st := v.typ.Underlying().(*types.Struct)
		fs := make([]*Term, len(v.args))
		for i, a := range v.args {
			fs[i] = e.cloneWrap(a, n, st.Field(i).Type())
		}
		return e.mkStruct(v.typ, fs)
	case typ != nil && isRefType(typ):
		return e.tt.mkN(OClone, n, typ, v)
	case typ != nil:
		if _, ok := typ.Underlying().(*types.Struct); ok {
			return e.cloneWrap(e.explode(v, typ), n, typ)
		}
	}
	return v
}

// explode turns a struct-valued term into an OStruct.
func (e *Engine) explode(v *Term, typ types.Type) *Term {
	if _, ok := typ.Underlying().(*types.Struct); !ok {
		return v
	}
	if v.op == OStruct {
		return v
	}
	st := typ.Underlying().(*types.Struct)
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		fs[i] = e.sel(v, st.Field(i), i)
	}
	return e.tt.Struct(typ, fs)
}

func (e *Engine) sel(v *Term, fv *types.Var, i int) *Term {
	if v.op == OStruct {
		return v.args[i]
	}
	if v.op == OZero {
		return e.tt.Zero(fv.Type())
	}
	return e.tt.Sel(v, fv)
}

// mkStruct collapses {x.f1, x.f2, ...} back to x.
func (e *Engine) mkStruct(typ types.Type, fs []*Term) *Term {
	st := typ.Underlying().(*types.Struct)
	if len(fs) > 0 && fs[0].op == OSel {
		b := fs[0].args[0]
		ok := true
		for i, f := range fs {
			if f.op != OSel || f.args[0] != b || f.fv != st.Field(i) {
				ok = false
				break
			}
		}
		if ok && b.typ != nil && types.Identical(b.typ, typ) {
			return b
		}
	}
	return e.tt.Struct(typ, fs)
}

func (e *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok {
			fs := make([]*Term, s.NumFields())
			for i := range fs {
				fs[i] = e.load(st, e.tt.Field(addr, s.Field(i)), s.Field(i).Type())
			}
			return e.mkStruct(typ, fs)
		}
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if ua, c := unclone(e.tt, addr); c != nil && root(addr).op == OClone {
		return e.cloneWrap(e.load(st, ua, typ), c.n, typ)
	}
	r := root(addr)
	if v, ok := e.globalMem[addr]; ok && !e.globalMut[r] {
		return v
	}
	if r.op == OAlloc {
		if addr.op != OMapC && len(st.mem) > 0 {
			if _, d := st.mem[e.tt.mk(OCall, "dirty", nil, r)]; d {
				return e.tt.Init(addr, st.genOf(classOf(addr)), typ)
			}
		}
		if addr.op == OMapC {
			return e.tt.mk(OMapEmpty, "", addr.typ)
		}
		if typ == nil {
			typ = addr.typ
		}
		return e.tt.Zero(typ)
	}
	if r.op == OGlobal {
		if addr.op == OGlobal && typ != nil && types.TypeString(typ, nil) == "error" {
			return e.tt.mk(OCall, "nonnil:"+addr.name, typ)
		}
	}
	return e.tt.Init(addr, e.genOf(st, classOf(addr)), typ)
}

func (e *Engine) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := root(a), root(b)
	if (ra.op == OAlloc || ra.op == OGlobal) && (rb.op == OAlloc || rb.op == OGlobal) && ra != rb {
		return false
	}
	if e.private(ra) != e.private(rb) {
		return false
	}
	if ra != rb && (ra.op == OAlloc && ra.name == "varargs" || rb.op == OAlloc && rb.name == "varargs") {
		return false // the array behind a literal argument list is not reachable otherwise
	}
	// a variable outside every array is not an element of a slice
	if ra.op == OAlloc && !inArray(a) && inArray(b) || rb.op == OAlloc && !inArray(b) && inArray(a) {
		return false
	}
	if ra.op == OClone != (rb.op == OClone) || ra.op == OClone && ra.n != rb.n {
		return false
	}
	return true
}

// inArray: the address lies in an element of an array or slice.
func inArray(a *Term) bool {
	for a.op == OField || a.op == OIndex {
		if a.op == OIndex {
			return true
		}
		a = a.args[0]
	}
	if a.op == OAlloc && a.typ != nil {
		_, ok := a.typ.Underlying().(*types.Array)
		return ok
	}
	return false
}

func (e *Engine) store(st *State, addr, v *Term, typ types.Type) {
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				e.store(st, e.tt.Field(addr, s.Field(i)), e.sel(v, s.Field(i), i), s.Field(i).Type())
			}
			return
		}
	}
	e.storeScalar(st, addr, v)
}

func (e *Engine) storeScalar(st *State, addr, v *Term) {
	c := classOf(addr)
	shared := !e.private(root(addr)) && root(addr).op != OClone
	for _, m := range e.mods {
		if shared {
			m.classes[c] = true
		}
		m.addrs[addr] = true
	}
	for a := range st.mem {
		if a != addr && classOf(a) == c && e.mayAlias(a, addr) && !e.provablyDistinct(st, a, addr) {
			delete(st.mem, a)
		}
	}
	if r := root(addr); !e.private(r) && r.op != OClone {
		st.gen[c] = e.newGen(st.gen[c], fmt.Sprintf("s%d:%d", addr.id, v.id))
	}
	st.mem[addr] = v
}

// provablyDistinct: same container, indexes known to differ.
func (e *Engine) provablyDistinct(st *State, a, b *Term) bool {
	if a.op == OIndex && b.op == OIndex && a.args[0] == b.args[0] {
		return e.eval(st.facts, e.tt.Eq(a.args[1], b.args[1], types.Typ[types.Int])) == -1
	}
	if a.op == OField && b.op == OField && a.fv == b.fv {
		if a.args[0].op == OIndex && b.args[0].op == OIndex {
			return e.provablyDistinct(st, a.args[0], b.args[0])
		}
	}
	return false
}

func (e *Engine) bumpClass(st *State, c any) {
	for a := range st.mem {
		if classOf(a) == c && !e.private(root(a)) {
			delete(st.mem, a)
		}
	}
	st.gen[c] = e.newGen(st.gen[c], "bump")
	st.gen["clone"] = e.newGen(st.gen["clone"], "bump")
}

// havocShared forgets everything about memory not private to the path.
func (e *Engine) havocShared(st *State) {
	for a := range st.mem {
		x := a
		if x.op == OCall && len(x.args) > 0 {
			x = x.args[0]
		}
		if !e.private(rootSlice(x)) {
			delete(st.mem, a)
		}
	}
	st.genAll = e.newGen(st.genAll, "all")
	for _, m := range e.mods {
		m.all = true
	}
}

func (e *Engine) havocRoot(st *State, r *Term, inst any) {
	for a := range st.mem {
		if root(a) == r {
			st.mem[a] = e.symAt(inst, fmt.Sprintf("hv%d", a.id), "unk", a.typ)
		}
	}
}

// ---- log ----

func (e *Engine) effKey(f *Effect) string {
	var b strings.Builder
	b.WriteString(f.kind)
	b.WriteByte('|')
	b.WriteString(f.name)
	fmt.Fprintf(&b, "|%p", f.inst)
	for _, t := range []*Term{f.addr, f.val, f.res, f.recv} {
		if t != nil {
			fmt.Fprintf(&b, "|%d", t.id)
		} else {
			b.WriteString("|-")
		}
	}
	for _, t := range f.args {
		fmt.Fprintf(&b, ",%d", t.id)
	}
	for _, t := range f.full {
		fmt.Fprintf(&b, ";%d", t.id)
	}
	if f.loop != nil {
		fmt.Fprintf(&b, "|L%d", f.loop.id)
	}
	if f.async != nil {
		fmt.Fprintf(&b, "|A%p", f.async)
	}
	return b.String()
}

func (e *Engine) appendLog(prev *LogNode, f *Effect) *LogNode {
	pid := 0
	if prev != nil {
		pid = prev.id
	}
	key := fmt.Sprintf("%d#%s", pid, e.effKey(f))
	if n, ok := e.logTab[key]; ok {
		return n
	}
	e.nlog++
	n := &LogNode{id: e.nlog, prev: prev, eff: f}
	e.logTab[key] = n
	return n
}

func (e *Engine) emit(st *State, f *Effect) {
	if len(e.stack) > 0 {
		f.fn = e.stack[len(e.stack)-1].fn
		for _, fr := range e.stack {
			f.stack = append(f.stack, fnName(fr.fn))
		}
	}
	if e.silent {
		return
	}
	for i, a := range f.args {
		if a == nil || !(a.op == OSliceOf || a.op == OAppend) {
			continue
		}
		if f.full == nil {
			f.full = append([]*Term{}, f.args...)
		}
		f.full[i] = e.spell(st, a)
	}
	if e.cfg.Cut != nil && len(e.logStack) == 0 && e.cfg.Cut(st.log, f) {
		st.cut = true
	}
	quiet := e.cfg.Quiet != nil && e.cfg.Quiet(f)
	if !quiet && !e.cfg.Interest(f) {
		return
	}
	s := &Site{eff: f, facts: st.facts.clone(), entry: e.entry, log: st.log, outer: append([]*LogNode{}, e.logStack...), stack: f.stack}
	if e.snap || e.cfg.Snap != nil && e.cfg.Snap(f) {
		s.st = st.clone()
	}
	e.sites = append(e.sites, s)
	if quiet {
		return
	}
	st.log = e.appendLog(st.log, f)
}

// cutOff ends the paths that have reached what the rule does not look beyond.
func (e *Engine) cutOff(sts []*State) []*State {
	var out []*State
	for _, s := range sts {
		if s.cut {
			e.cuts = append(e.cuts, &Outcome{entry: e.entry, st: s})
			continue
		}
		out = append(out, s)
	}
	return out
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	n := f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nm, ok := t.(*types.Named); ok {
			return nm.Obj().Name() + "." + n
		}
	}
	if f.Parent() != nil {
		return fnName(f.Parent()) + "$" + n[strings.LastIndex(n, "$")+1:]
	}
	return n
}

// ---- merging ----

// leaves lists the model fields and symbols an atom talks about.
func (e *Engine) leaves(t *Term) map[string]bool {
	if m, ok := e.leafM[t]; ok {
		return m
	}
	m := map[string]bool{}
	switch t.op {
	case OInit:
		a := t.args[0]
		for a.op == OIndex || a.op == OMapC {
			if a.op == OIndex {
				m["elem"] = true
			}
			a = a.args[0]
			if a.op == OInit {
				a = a.args[0]
			}
		}
		if a.op == OField {
			m[fieldName(a.fv)] = true
		}
	case OSel:
		m[fieldName(t.fv)] = true
		if t.args[0].op == OSym {
			m["param:"+t.args[0].name] = true
		}
	case OSym:
		m["sym:"+t.name] = true
	case OConst, ONil:
	default:
		for _, a := range t.args {
			for k := range e.leaves(a) {
				m[k] = true
			}
		}
	}
	e.leafM[t] = m
	return m
}

func (e *Engine) tracked(t *Term) bool {
	if e.cfg.TrackAll {
		if e.cfg.Untrack == nil {
			return true
		}
		if v, ok := e.trackM[t]; ok {
			return v
		}
		v := true
		for l := range e.leaves(t) {
			if e.cfg.Untrack(l) {
				v = false
			}
		}
		e.trackM[t] = v
		return v
	}
	if v, ok := e.trackM[t]; ok {
		return v
	}
	v := e.cfg.TrackTerm != nil && e.cfg.TrackTerm(e, t)
	for l := range e.leaves(t) {
		if e.cfg.Track[l] {
			v = true
		}
	}
	e.trackM[t] = v
	return v
}

func (e *Engine) allocsIn(t *Term) map[*Term]bool {
	if m, ok := e.allocM[t]; ok {
		return m
	}
	var m map[*Term]bool
	if t.op == OAlloc {
		m = map[*Term]bool{t: true}
	} else {
		for _, a := range t.args {
			for k := range e.allocsIn(a) {
				if m == nil {
					m = map[*Term]bool{}
				}
				m[k] = true
			}
		}
	}
	e.allocM[t] = m
	return m
}

// gc removes memory of objects that are no longer reachable.
func (e *Engine) gc(st *State, live map[ssa.Value]bool) {
	if e.cfg.NoGC {
		return
	}
	mark := map[*Term]bool{}
	var work []*Term
	add := func(t *Term) {
		for a := range e.allocsIn(t) {
			if !mark[a] {
				mark[a] = true
				work = append(work, a)
			}
		}
	}
	if live != nil {
		for v := range st.env {
			if _, isPar := v.(*ssa.Parameter); isPar {
				continue
			}
			if _, isFV := v.(*ssa.FreeVar); isFV {
				continue
			}
			if !live[v] {
				delete(st.env, v)
			}
		}
	}
	for _, t := range st.env {
		add(t)
	}
	for _, env := range st.envs {
		for _, t := range env {
			add(t)
		}
	}
	for _, ds := range st.defers {
		for _, d := range ds {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, t := range st.ret {
		add(t)
	}
	byRoot := map[*Term][]*Term{}
	for a, v := range st.mem {
		if r := root(a); r.op == OAlloc {
			byRoot[r] = append(byRoot[r], v)
		} else {
			add(v)
			add(a)
		}
	}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		for _, v := range byRoot[a] {
			add(v)
		}
	}
	for a := range st.mem {
		if r := root(a); r.op == OAlloc && !mark[r] {
			delete(st.mem, a)
		}
	}
}

// modelField: exported field of an exported struct type of the analysed packages.
func (e *Engine) mergeableAddr(a *Term) bool {
	if a.op != OField {
		return false
	}
	if root(a).op == OAlloc {
		return false
	}
	fn := fieldName(a.fv)
	return !e.cfg.StoreTrack[fn] && e.W.modelField[a.fv]
}

func (e *Engine) stateKey(st *State) string {
	var parts []string
	for v, t := range st.env {
		parts = append(parts, fmt.Sprintf("e%p=%d", v, t.id))
	}
	for a, v := range st.mem {
		if e.mergeableAddr(a) {
			continue
		}
		parts = append(parts, fmt.Sprintf("m%d=%d", a.id, v.id))
	}
	for t, iv := range st.facts.iv {
		if e.tracked(t) {
			parts = append(parts, fmt.Sprintf("i%d=%d:%d:%v", t.id, iv.lo, iv.hi, iv.ne))
		}
	}
	for t, s := range st.facts.set {
		if e.tracked(t) {
			var ks []string
			for k := range s.allowed {
				ks = append(ks, fmt.Sprintf("+%d", k.id))
			}
			for k := range s.excl {
				ks = append(ks, fmt.Sprintf("-%d", k.id))
			}
			sort.Strings(ks)
			parts = append(parts, fmt.Sprintf("s%d=%v", t.id, ks))
		}
	}
	for t, b := range st.facts.atoms {
		if e.tracked(t) {
			parts = append(parts, fmt.Sprintf("b%d=%v", t.id, b))
		}
	}
	sort.Strings(parts)
	lid := 0
	if st.log != nil {
		lid = st.log.id
	}
	ret := ""
	for _, r := range st.ret {
		ret += fmt.Sprintf(",%d", r.id)
	}
	return fmt.Sprintf("%d|%d|%s|%s", lid, st.genAll, ret, strings.Join(parts, ";"))
}

func (e *Engine) mergeInto(a, b *State) {
	// memory: differing mergeable entries become unknown
	for ad, v := range a.mem {
		if w, ok := b.mem[ad]; !ok || w != v {
			if !ok {
				w = e.tt.Init(ad, b.genOf(classOf(ad)), v.typ)
			}
			if w != v {
				a.mem[ad] = e.mergeVal(v, w)
			}
		}
	}
	for ad, w := range b.mem {
		if _, ok := a.mem[ad]; !ok {
			v := e.tt.Init(ad, a.genOf(classOf(ad)), w.typ)
			a.mem[ad] = e.mergeVal(v, w)
		}
	}
	// generations: take a generation newer than both
	for c, g := range b.gen {
		if a.gen[c] != g {
			a.gen[c] = e.newGen(a.gen[c], fmt.Sprintf("m%d", g))
			// keep entries in a.mem: they are joined above
		}
	}
	for c, g := range a.gen {
		if _, has := b.gen[c]; !has && g != 0 {
			a.gen[c] = e.newGen(g, fmt.Sprintf("m%d", b.gen[c]))
		}
	}
	a.facts = joinFacts(a.facts, b.facts)
	e.merges++
}

func (e *Engine) mergeVal(a, b *Term) *Term {
	key := fmt.Sprintf("mg%d:%d", a.id, b.id)
	t, ok := e.symTab[key]
	if !ok {
		ty := a.typ
		if ty == nil {
			ty = b.typ
		}
		t = e.tt.Sym("merge", ty)
		e.symTab[key] = t
	}
	return e.noteBorn(t)
}

func (e *Engine) merge(sts []*State, live map[ssa.Value]bool) []*State {
	for _, s := range sts {
		e.gc(s, live)
	}
	if len(sts) < 2 {
		return sts
	}
	idx := map[string]*State{}
	var out []*State
	for _, s := range sts {
		k := e.stateKey(s)
		if o, ok := idx[k]; ok {
			e.mergeInto(o, s)
			continue
		}
		idx[k] = s
		out = append(out, s)
	}
	if len(out) > e.cfg.MaxStates {
		e.abort("more than %d states in %s", e.cfg.MaxStates, e.where())
	}
	return out
}

func (e *Engine) where() string {
	var r []string
	for _, f := range e.stack {
		r = append(r, fnName(f.fn))
	}
	return strings.Join(r, " > ")
}
