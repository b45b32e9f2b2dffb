package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow-sensitive, context-sensitive abstract interpretation over typed SSA.
// States are joined at every control-flow join unless they differ in a tracked
// value, guard fact or logged effect (property simulation); loops are analysed
// as one generic iteration over a havocked state whose modified locations are
// found by fixpoint.

type edge struct {
	st   *State
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

type regionOut struct {
	exits []edge
	backs []edge
	rets  []*State
}

func (e *Engine) tick() {
	e.steps++
	if e.steps > e.cfg.MaxSteps {
		e.abort("analysis budget exceeded in %s", e.where())
	}
}

// callFn analyses fn inline for one state; the resulting states carry st.ret.
func (e *Engine) callFn(st *State, fn *ssa.Function, args, binds []*Term, site any, live map[ssa.Value]bool) []*State {
	if len(fn.Blocks) == 0 {
		e.abort("no body for %s", fn)
	}
	act := fmt.Sprintf("%s|%p|%p", e.act(), site, fn)
	id, ok := e.actIDs[act]
	if !ok {
		id = fmt.Sprintf("a%d", len(e.actIDs))
		e.actIDs[act] = id
	}
	e.fnsSeen[fn] = true
	st.envs = append(st.envs, st.env)
	st.env = map[ssa.Value]*Term{}
	st.defers = append(st.defers, nil)
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		st.env[f] = binds[i]
	}
	e.stack = append(e.stack, &frame{fn, id})
	fi := infoOf(fn)
	out := e.runRegion(fn, fi, nil, nil, []edge{{st, nil, fn.Blocks[0]}})
	e.stack = e.stack[:len(e.stack)-1]
	for _, s := range out.rets {
		caller := s.envs[len(s.envs)-1]
		s.env = make(map[ssa.Value]*Term, len(caller)+8)
		for k, v := range caller {
			s.env[k] = v
		}
		s.envs = s.envs[: len(s.envs)-1 : len(s.envs)-1]
		s.defers = s.defers[: len(s.defers)-1 : len(s.defers)-1]
	}
	return e.merge(out.rets, live)
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (e *Engine) applyPhis(ed edge) {
	if ed.from == nil {
		return
	}
	idx := predIndex(ed.to, ed.from)
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range ed.to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.operand(ed.st, ph.Edges[idx]))
	}
	for i, ph := range phis {
		ed.st.env[ph] = vals[i]
	}
}

func (e *Engine) runRegion(fn *ssa.Function, fi *fnInfo, l *natLoop, header *ssa.BasicBlock, start []edge) regionOut {
	var out regionOut
	pending := map[*ssa.BasicBlock][]edge{}
	for _, s := range start {
		pending[s.to] = append(pending[s.to], s)
	}
	dispatch := func(ed edge) {
		switch {
		case header != nil && ed.to == header:
			out.backs = append(out.backs, ed)
		case l != nil && !l.blocks[ed.to]:
			out.exits = append(out.exits, ed)
		default:
			pending[ed.to] = append(pending[ed.to], ed)
		}
	}
	for _, b := range fi.order {
		eds := pending[b]
		if len(eds) == 0 {
			continue
		}
		delete(pending, b)
		if lp := fi.loops[b]; lp != nil && b != header {
			ro := e.runLoop(fn, fi, lp, eds)
			out.rets = append(out.rets, ro.rets...)
			for _, ed := range ro.exits {
				dispatch(ed)
			}
			continue
		}
		var sts []*State
		for _, ed := range eds {
			e.applyPhis(ed)
			sts = append(sts, ed.st)
		}
		if b == header {
			// states were prepared by runLoop
		} else {
			sts = e.merge(sts, fi.liveIn[b])
		}
		for _, s := range sts {
			outs, rets := e.runBlock(s, b)
			out.rets = append(out.rets, rets...)
			for _, ed := range outs {
				dispatch(ed)
			}
		}
	}
	return out
}

func (e *Engine) runBlock(st *State, b *ssa.BasicBlock) (outs []edge, rets []*State) {
	cur := []*State{st}
	for _, in := range b.Instrs {
		e.tick()
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			for _, s := range cur {
				c := e.operand(s, x.Cond)
				switch e.eval(s.facts, c) {
				case 1:
					outs = append(outs, edge{s, b, b.Succs[0]})
				case -1:
					outs = append(outs, edge{s, b, b.Succs[1]})
				default:
					f := s.clone()
					if e.assume(s.facts, c, true) {
						outs = append(outs, edge{s, b, b.Succs[0]})
					}
					if e.assume(f.facts, c, false) {
						outs = append(outs, edge{f, b, b.Succs[1]})
					}
				}
			}
			return
		case *ssa.Jump:
			for _, s := range cur {
				outs = append(outs, edge{s, b, b.Succs[0]})
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				s.ret = nil
				for _, r := range x.Results {
					s.ret = append(s.ret, e.operand(s, r))
				}
				rets = append(rets, s)
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				e.emit(s, &Effect{kind: "panic", name: "panic", pos: x.Pos(), args: []*Term{e.operand(s, x.X)}, inst: x})
			}
			return
		}
		var next []*State
		for _, s := range cur {
			next = append(next, e.step(s, in)...)
		}
		if e.cfg.Cut != nil {
			next = e.cutOff(next)
		}
		cur = next
		if len(cur) == 0 {
			return
		}
	}
	return
}

func (e *Engine) operand(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, isT := x.Type().Underlying().(*types.Struct); isT {
				return e.tt.Zero(x.Type())
			}
			if b, isB := x.Type().Underlying().(*types.Basic); isB && b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer {
				return e.tt.Zero(x.Type())
			}
			return e.tt.Nil()
		}
		if x.Value.Kind() == constant.Float || isFloatType(x.Type()) {
			return e.tt.Const(x.Value, x.Type())
		}
		return e.tt.Const(x.Value, x.Type())
	case *ssa.Global:
		return e.tt.Global(x)
	case *ssa.Function:
		return e.tt.Closure(x, nil)
	case *ssa.Builtin:
		return e.tt.Str("builtin " + x.Name())
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	e.abort("value %s (%s) undefined in %s", v.Name(), v, e.where())
	return nil
}

func (e *Engine) set(st *State, v ssa.Value, t *Term) []*State {
	st.env[v] = t
	return []*State{st}
}

func (e *Engine) isShared(addr *Term) bool {
	return !e.private(root(addr))
}

func (e *Engine) step(st *State, in ssa.Instruction) []*State {
	one := []*State{st}
	switch x := in.(type) {
	case *ssa.Alloc:
		ty := x.Type().Underlying().(*types.Pointer).Elem()
		a := e.allocAt(x, "", x.Comment, ty)
		for ad := range st.mem {
			if root(ad) == a {
				delete(st.mem, ad)
			}
		}
		return e.set(st, x, a)
	case *ssa.BinOp:
		return e.set(st, x, e.binop(st, x.Op, e.operand(st, x.X), e.operand(st, x.Y), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		v := e.operand(st, x.X)
		switch x.Op {
		case token.MUL:
			var outs []*State
			for _, s := range e.materialize(st, v, x) {
				outs = append(outs, e.set(s, x, e.load(s, v, x.Type()))...)
			}
			return outs
		case token.NOT:
			return e.set(st, x, e.tt.Not(v))
		case token.SUB:
			if isIntType(x.Type()) {
				return e.set(st, x, e.tt.Scale(v, -1))
			}
			return e.set(st, x, e.tt.mk(OBin, "neg", x.Type(), v))
		case token.ARROW:
			e.emit(st, &Effect{kind: "recv", name: "recv", pos: x.Pos(), recv: v, inst: x})
			return e.set(st, x, e.symAt(x, "", "recv", x.Type()))
		}
		return e.set(st, x, e.tt.mk(OBin, x.Op.String(), x.Type(), v))
	case *ssa.ChangeType:
		return e.set(st, x, e.operand(st, x.X))
	case *ssa.ChangeInterface:
		return e.set(st, x, e.operand(st, x.X))
	case *ssa.MakeInterface:
		return e.set(st, x, e.operand(st, x.X))
	case *ssa.Convert:
		return e.set(st, x, e.convert(e.operand(st, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		return e.set(st, x, e.operand(st, x.X))
	case *ssa.TypeAssert:
		v := e.operand(st, x.X)
		if x.CommaOk {
			return e.set(st, x, e.tt.Tuple([]*Term{v, e.tt.mk(OCall, "isType:"+types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], v)}))
		}
		return e.set(st, x, v)
	case *ssa.Extract:
		v := e.operand(st, x.Tuple)
		if v.op == OTuple {
			return e.set(st, x, v.args[x.Index])
		}
		return e.set(st, x, e.tt.mk(OCall, fmt.Sprintf("extract%d", x.Index), x.Type(), v))
	case *ssa.FieldAddr:
		b := e.operand(st, x.X)
		if b.op == ONil || e.inSet(st.facts, b, []*Term{e.tt.Nil()}) == 1 {
			e.emit(st, &Effect{kind: "panic", name: "nilderef", pos: x.Pos(), recv: b, inst: x})
			return nil
		}
		if b.op != OAlloc {
			// past this point the pointer is known not to be nil
			if !e.assume(st.facts, e.eqTerm(b, e.tt.Nil(), x.X.Type()), false) {
				return nil
			}
		}
		fv := structOf(x.X.Type()).Field(x.Field)
		return e.set(st, x, e.tt.Field(b, fv))
	case *ssa.Field:
		fv := structOf(x.X.Type()).Field(x.Field)
		return e.set(st, x, e.sel(e.operand(st, x.X), fv, x.Field))
	case *ssa.IndexAddr:
		if e.fillStep(st, x) {
			return one
		}
		return e.set(st, x, e.indexAddr(e.operand(st, x.X), e.operand(st, x.Index), x.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.Index:
		return e.set(st, x, e.tt.mk(OBin, "index", x.Type(), e.operand(st, x.X), e.operand(st, x.Index)))
	case *ssa.Store:
		if e.fillStep(st, x) {
			return one
		}
		ad, v := e.operand(st, x.Addr), e.operand(st, x.Val)
		if root(ad).op == ONil {
			return nil
		}
		e.storeEff(st, ad, v, x.Val.Type(), x)
		return one
	case *ssa.MakeMap:
		a := e.allocAt(x, "", "map", x.Type())
		for ad := range st.mem {
			if root(ad) == a {
				delete(st.mem, ad)
			}
		}
		return e.set(st, x, a)
	case *ssa.MakeChan:
		return e.set(st, x, e.allocAt(x, "", "chan", x.Type()))
	case *ssa.MakeSlice:
		n := e.operand(st, x.Len)
		if k, ok := n.intVal(); ok && k <= 64 {
			a := e.allocAt(x, "", "makeslice", types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), k))
			for ad := range st.mem {
				if root(ad) == a {
					delete(st.mem, ad)
				}
			}
			return e.set(st, x, e.tt.mkN(OSliceOf, int(k), x.Type(), a))
		}
		s := e.symAt(x, "", "makeslice", x.Type())
		if e.mkLen == nil {
			e.mkLen = map[*Term]*Term{}
		}
		e.mkLen[s] = n
		e.assume(st.facts, e.tt.Eq(e.lenOf(s), n, types.Typ[types.Int]), true)
		return e.set(st, x, s)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.operand(st, b))
		}
		return e.set(st, x, e.tt.Closure(x.Fn.(*ssa.Function), bs))
	case *ssa.Slice:
		return e.set(st, x, e.slice(st, x))
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MapUpdate:
		m, k, v := e.operand(st, x.Map), e.operand(st, x.Key), e.operand(st, x.Value)
		c := e.tt.MapC(m, x.Map.Type())
		cont := e.load(st, c, x.Map.Type())
		nv := e.tt.mk(OMapPut, "", x.Map.Type(), cont, k, v)
		if e.isShared(c) || e.cfg.LocalMaps {
			e.emit(st, &Effect{kind: "mapput", name: e.contName(m), pos: x.Pos(), addr: m, args: []*Term{k, v}, inst: x})
		}
		e.storeScalar(st, c, nv)
		return one
	case *ssa.Range:
		v := e.operand(st, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			v = e.load(st, e.tt.MapC(v, x.X.Type()), x.X.Type())
		}
		return e.set(st, x, e.tt.mk(OCall, "range", x.Type(), v))
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.Send:
		e.emit(st, &Effect{kind: "send", name: "send", pos: x.Pos(), recv: e.operand(st, x.Chan), args: []*Term{e.operand(st, x.X)}, inst: x})
		return one
	case *ssa.Select:
		e.emit(st, &Effect{kind: "select", name: "select", pos: x.Pos(), inst: x})
		tup := x.Type().(*types.Tuple)
		var ts []*Term
		for i := 0; i < tup.Len(); i++ {
			ts = append(ts, e.symAt(x, fmt.Sprint(i), "select", tup.At(i).Type()))
		}
		return e.set(st, x, e.tt.Tuple(ts))
	case *ssa.Call:
		if e.fillStep(st, x) {
			return one
		}
		return e.doCall(st, &x.Call, x, x)
	case *ssa.Defer:
		d := deferred{call: &x.Call, inst: x}
		d.fn, d.args = e.callOperands(st, &x.Call)
		n := len(st.defers) - 1
		st.defers[n] = append(append([]deferred{}, st.defers[n]...), d)
		return one
	case *ssa.RunDefers:
		n := len(st.defers) - 1
		ds := st.defers[n]
		st.defers[n] = nil
		cur := one
		for i := len(ds) - 1; i >= 0; i-- {
			var nx []*State
			for _, s := range cur {
				nx = append(nx, e.invoke(s, ds[i].call, ds[i].fn, ds[i].args, ds[i].inst, nil, true)...)
			}
			cur = nx
		}
		for _, s := range cur {
			s.ret = nil
		}
		return cur
	case *ssa.Go:
		fn, args := e.callOperands(st, &x.Call)
		if e.cfg.LogGo {
			e.emit(st, &Effect{kind: "go", name: "go", pos: x.Pos(), inst: x, val: fn, args: args})
		}
		e.spawn(st, "go", fn, args, &x.Call, x, nil)
		return one
	}
	e.abort("unsupported instruction %T in %s", in, e.where())
	return nil
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct)
}

func (e *Engine) contName(m *Term) string {
	if m.op == OInit && m.args[0].op == OField {
		return fieldName(m.args[0].fv)
	}
	return "map"
}

// storeEff stores and reports stores to model objects or shared memory.
func (e *Engine) storeEff(st *State, ad, v *Term, typ types.Type, in ssa.Instruction) {
	if s, ok := typ.Underlying().(*types.Struct); ok && !opaqueStruct(typ) && (e.isShared(ad) || e.cfg.LocalStores) {
		// whole-struct store: one effect per field that changes
		e.structStoreEff(st, ad, v, s, in)
	} else if e.isShared(ad) || e.cfg.LocalStores && ad.op == OField {
		old := e.load(st, ad, typ)
		e.emit(st, &Effect{kind: "store", name: addrName(ad), pos: in.Pos(), addr: ad, val: v, old: old, inst: in})
	}
	e.store(st, ad, v, typ)
}

// opaqueStruct: types of the standard library are reported as one value.
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), ".")
}

func (e *Engine) structStoreEff(st *State, ad, v *Term, s *types.Struct, in ssa.Instruction) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fa := e.tt.Field(ad, f)
		fv := e.sel(v, f, i)
		if sub, ok := f.Type().Underlying().(*types.Struct); ok && !opaqueStruct(f.Type()) {
			e.structStoreEff(st, fa, fv, sub, in)
			continue
		}
		old := e.load(st, fa, f.Type())
		if old == fv {
			continue
		}
		e.emit(st, &Effect{kind: "store", name: fieldName(f), pos: in.Pos(), addr: fa, val: fv, old: old, inst: in})
	}
}

func addrName(ad *Term) string {
	switch ad.op {
	case OField:
		return fieldName(ad.fv)
	case OIndex:
		b := ad.args[0]
		if b.op == OInit && b.args[0].op == OField {
			return fieldName(b.args[0].fv) + "[]"
		}
		return "elem:" + typeKey(ad.typ)
	case OGlobal:
		return ad.name
	}
	return "deref:" + typeKey(ad.typ)
}

func (e *Engine) indexAddr(b, i *Term, elem types.Type) *Term {
	switch b.op {
	case OSliceOf:
		return e.tt.Index(b.args[0], i, elem)
	case OSlice:
		return e.indexAddr(b.args[0], e.tt.Add(i, b.args[1]), elem)
	}
	return e.tt.Index(b, i, elem)
}

// shifted is where it is noted which element copy(s[i:], s[i+1:]) shifted out.
func (e *Engine) shifted(s *Term) *Term { return e.tt.mk(OCall, "shifted", types.Typ[types.Int], s) }

func (e *Engine) slice(st *State, x *ssa.Slice) *Term {
	b := e.operand(st, x.X)
	var lo, hi *Term
	lo = e.tt.Int(0)
	if x.Low != nil {
		lo = e.operand(st, x.Low)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr := p.Elem().Underlying().(*types.Array)
		if x.High == nil && x.Low == nil {
			return e.tt.mkN(OSliceOf, int(arr.Len()), x.Type(), b)
		}
		if hv, ok := func() (int64, bool) {
			if x.High == nil {
				return 0, false
			}
			return e.operand(st, x.High).intVal()
		}(); ok && x.Low == nil {
			return e.tt.mkN(OSliceOf, int(hv), x.Type(), b)
		}
		b = e.tt.mkN(OSliceOf, int(arr.Len()), x.Type(), b)
	}
	if x.High == nil && x.Low == nil {
		return b
	}
	if x.High != nil {
		hi = e.operand(st, x.High)
	} else {
		hi = e.lenOf(b)
	}
	if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
		return e.tt.mk(OBin, "substr", x.Type(), b, lo, hi)
	}
	if l, ok := lo.intVal(); ok && l == 0 && hi == e.lenOf(b) {
		return b
	}
	// one element was shifted out before
	if i := st.mem[e.shifted(b)]; i != nil && hi == e.tt.Sub(e.lenOf(b), e.tt.Int(1)) {
		if l, ok := lo.intVal(); ok && l == 0 {
			cut := func(lo, hi *Term) *Term { return e.tt.mk(OSlice, "", x.Type(), b, lo, hi) }
			return e.tt.mk(OAppend, "", x.Type(), cut(lo, i), e.tt.mk(OSpread, "", x.Type(), cut(e.tt.Add(i, e.tt.Int(1)), e.lenOf(b))))
		}
	}
	if l, ok := lo.intVal(); ok && l == 0 {
		if h, ok := hi.intVal(); ok && h == 0 && b.op != OSliceOf {
			return e.tt.mk(OSlice, "", x.Type(), b, lo, hi)
		}
	}
	return e.tt.mk(OSlice, "", x.Type(), b, lo, hi)
}

func (e *Engine) lenOf(s *Term) *Term {
	switch s.op {
	case ONil, OMapEmpty:
		return e.tt.Int(0)
	case OConst:
		if v, ok := s.strVal(); ok {
			return e.tt.Int(int64(len(v)))
		}
	case OSliceOf:
		return e.tt.Int(int64(s.n))
	case OAppend:
		r := e.lenOf(s.args[0])
		for _, a := range s.args[1:] {
			if a.op == OSpread {
				r = e.tt.Add(r, e.lenOf(a.args[0]))
			} else {
				r = e.tt.Add(r, e.tt.Int(1))
			}
		}
		return r
	case OSlice:
		return e.tt.Sub(s.args[2], s.args[1])
	case OSym:
		if n := e.mkLen[s]; n != nil {
			return n
		}
	case OClone:
		if s.typ != nil {
			if _, ok := s.typ.Underlying().(*types.Slice); ok {
				return e.lenOf(s.args[0])
			}
		}
	}
	return e.tt.mk(OLen, "", types.Typ[types.Int], s)
}

func (e *Engine) convert(v *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		if v.op != OConst && !keepsEvery(fb, tb) {
			return e.tt.mk(OCall, "narrowed", to, v)
		}
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return e.tt.mk(OCall, "runestr", to, v)
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return v
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			if isIntType(v.typ) || v.op == OConst {
				return v
			}
			return e.tt.mk(OCall, "toint", to, v)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return v
		}
		return v
	}
	return v // string <-> []byte and pointer conversions keep the content
}

// keepsEvery tells whether every whole number the program counts with comes
// out of the conversion as it went in: a narrower integer, an unsigned one or
// a single-precision float may not hold it.
func keepsEvery(from, to *types.Basic) bool {
	fi, ti := from.Info(), to.Info()
	num := types.IsInteger | types.IsFloat
	if fi&num == 0 || ti&num == 0 {
		return true
	}
	size := func(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }
	switch {
	case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
		if ti&types.IsUnsigned != 0 && fi&types.IsUnsigned == 0 {
			return false
		}
		if fi&types.IsUnsigned != 0 && ti&types.IsUnsigned == 0 {
			return size(to) > size(from)
		}
		return size(to) >= size(from)
	case fi&types.IsInteger != 0:
		return size(to) == 8 || size(from) <= 2
	case ti&types.IsFloat != 0:
		return size(to) >= size(from)
	}
	return ti&types.IsUnsigned == 0 && size(to) == 8
}

func (e *Engine) binop(st *State, op token.Token, a, b *Term, opnd, res types.Type) *Term {
	isInt := isIntType(opnd)
	switch op {
	case token.EQL:
		return e.eqTerm(a, b, opnd)
	case token.NEQ:
		return e.tt.Not(e.eqTerm(a, b, opnd))
	case token.LSS:
		return e.tt.Less(a, b, opnd)
	case token.GTR:
		return e.tt.Less(b, a, opnd)
	case token.LEQ:
		if isInt {
			return e.tt.Not(e.tt.Less(b, a, opnd))
		}
		return e.tt.Not(e.tt.Less(b, a, opnd))
	case token.GEQ:
		return e.tt.Not(e.tt.Less(a, b, opnd))
	}
	if isInt {
		switch op {
		case token.ADD:
			return e.tt.addLin(a, b, 1, res)
		case token.SUB:
			return e.tt.addLin(a, b, -1, res)
		case token.MUL:
			if k, ok := a.intVal(); ok {
				return e.tt.Scale(b, k)
			}
			if k, ok := b.intVal(); ok {
				return e.tt.Scale(a, k)
			}
			if a.id > b.id {
				a, b = b, a
			}
			return e.mulDistribute(a, b, res)
		case token.QUO:
			if k, ok := b.intVal(); ok && k != 0 {
				if r, ok := e.tt.DivExact(a, k); ok {
					return r
				}
			}
		}
	}
	if op == token.ADD {
		if x, ok := a.strVal(); ok {
			if y, ok := b.strVal(); ok {
				return e.tt.Str(x + y)
			}
		}
	}
	if a.op == OConst && b.op == OConst && a.cv.Kind() != constant.String && (op == token.ADD || op == token.SUB || op == token.MUL) {
		return e.tt.Const(constant.BinaryOp(a.cv, op, b.cv), res)
	}
	if (op == token.ADD || op == token.MUL) && isFloatType(opnd) && a.id > b.id {
		a, b = b, a
	}
	return e.tt.mk(OBin, op.String(), res, a, b)
}

// mulDistribute normalises products of linear forms to sums of products.
func (e *Engine) mulDistribute(a, b *Term, typ types.Type) *Term {
	la, lb := e.tt.toLin(a), e.tt.toLin(b)
	if len(la.m)+len(lb.m) > 8 {
		return e.tt.mk(OBin, "*", typ, a, b)
	}
	r := e.tt.Int(la.k * lb.k)
	add := func(t *Term, c int64) {
		if c != 0 {
			r = e.tt.addLin(r, e.tt.Scale(t, c), 1, typ)
		}
	}
	for x, c := range la.m {
		add(x, c*lb.k)
		for y, d := range lb.m {
			p, q := x, y
			if p.id > q.id {
				p, q = q, p
			}
			add(e.tt.mk(OBin, "*", typ, p, q), c*d)
		}
	}
	for y, d := range lb.m {
		add(y, d*la.k)
	}
	return r
}

func (e *Engine) eqTerm(a, b *Term, typ types.Type) *Term {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		r := e.tt.Bool(true)
		for i := 0; i < s.NumFields(); i++ {
			c := e.eqTerm(e.sel(a, s.Field(i), i), e.sel(b, s.Field(i), i), s.Field(i).Type())
			if v, ok := c.boolVal(); ok && v {
				continue
			}
			if v, ok := r.boolVal(); ok && v {
				r = c
				continue
			}
			r = e.tt.mk(OBin, "&&", types.Typ[types.Bool], r, c)
		}
		return r
	}
	return e.tt.Eq(a, b, typ)
}

// callOperands evaluates the function value and the arguments of a call.
func (e *Engine) callOperands(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var fn *Term
	var args []*Term
	if c.IsInvoke() {
		fn = e.operand(st, c.Value)
	} else {
		fn = e.operand(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.operand(st, a))
	}
	return fn, args
}

func (e *Engine) doCall(st *State, c *ssa.CallCommon, in ssa.Instruction, res ssa.Value) []*State {
	fn, args := e.callOperands(st, c)
	f := e.stack[len(e.stack)-1].fn
	live := infoOf(f).liveAft[in]
	outs := e.invoke(st, c, fn, args, in, live, false)
	for _, s := range outs {
		switch len(s.ret) {
		case 0:
			s.env[res] = e.tt.Tuple(nil)
		case 1:
			s.env[res] = s.ret[0]
		default:
			s.env[res] = e.tt.Tuple(s.ret)
		}
		s.ret = nil
	}
	return outs
}

func (e *Engine) inStack(fn *ssa.Function) bool {
	for _, f := range e.stack {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// invoke performs a call; results are left in st.ret.
func (e *Engine) invoke(st *State, c *ssa.CallCommon, fn *Term, args []*Term, in ssa.Instruction, live map[ssa.Value]bool, isDefer bool) []*State {
	st.ret = nil
	if c.IsInvoke() {
		if tgt := e.devirt(fn, c); tgt != nil && !e.inStack(tgt) {
			return e.callFn(st, tgt, append([]*Term{fn}, args...), nil, in, live)
		}
		name := ifaceName(c.Value.Type()) + "." + c.Method.Name()
		return e.envCall(st, "invoke", name, fn, args, c.Signature(), in)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b, args, c, in)
	}
	if fn.op == OClosure {
		f := fn.fn
		if e.W.inRepo(f) && len(f.Blocks) > 0 {
			if e.cfg.Opaque != nil && e.cfg.Opaque(f) {
				return e.envCall(st, "opaque", fnName(f), nil, args, c.Signature(), in)
			}
			if e.inStack(f) {
				n := 0
				for _, fr := range e.stack {
					if fr.fn == f {
						n++
					}
				}
				if f.Parent() == nil || n > 3 {
					s := e.envCall(st, "recursive", fnName(f), nil, args, c.Signature(), in)
					for _, x := range s {
						e.havocShared(x)
					}
					return s
				}
			}
			return e.callFn(st, f, args, fn.args, in, live)
		}
		return e.extCall(st, f, args, c, in, live)
	}
	// call of an unknown function value
	name := "func"
	if fn.op == OInit && fn.args[0].op == OField {
		name = fieldName(fn.args[0].fv)
		if s, ok := e.W.slots[fn.args[0].fv]; ok {
			name = s
		}
	} else if fn.op == OSym {
		name = fn.name
	} else if fn.op == OInit && fn.args[0].op == OGlobal {
		name = fn.args[0].name
	} else if fn.op == OSel {
		name = fieldName(fn.fv)
	}
	if fn.op == ONil {
		e.emit(st, &Effect{kind: "panic", name: "nilcall", pos: in.Pos(), inst: in})
		return nil
	}
	return e.envCall(st, "callback", name, fn, args, c.Signature(), in)
}

func ifaceName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

// devirt resolves an interface call on an object created on the path.
func (e *Engine) devirt(recv *Term, c *ssa.CallCommon) *ssa.Function {
	if recv.op != OAlloc || recv.typ == nil {
		return nil
	}
	nt, ok := recv.typ.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || e.W.ssaPkgs[nt.Obj().Pkg()] == nil {
		return nil
	}
	f := e.W.method(nt, c.Method.Name())
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

func (e *Engine) freshResults(st *State, name string, sig *types.Signature, in ssa.Instruction) []*Term {
	var rs []*Term
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, e.symAt(in, fmt.Sprintf("r%d", i), fmt.Sprintf("%s#%d", name, i), res.At(i).Type()))
	}
	return rs
}

// envCall is a call into code that is not analysed at this point.
func (e *Engine) envCall(st *State, kind, name string, recv *Term, args []*Term, sig *types.Signature, in ssa.Instruction) []*State {
	rs := e.freshResults(st, name, sig, in)
	// a result of an earlier execution of this instruction is forgotten
	for _, r := range rs {
		e.forget(st, r)
	}
	ef := &Effect{kind: kind, name: name, pos: in.Pos(), recv: recv, args: args, inst: in}
	if len(rs) == 1 {
		ef.res = rs[0]
	} else if len(rs) > 1 {
		ef.res = e.tt.Tuple(rs)
	}
	e.emit(st, ef)
	for i, a := range args {
		if a.op == OClosure && e.W.inRepo(a.fn) {
			e.spawn(st, name, a, nil, nil, in, args)
		}
		_ = i
	}
	e.escape(st, args, in)
	if e.cfg.EnvHavoc {
		e.havocShared(st)
	}
	st.ret = rs
	return []*State{st}
}

// forget drops facts about a symbol that is being redefined.
func (e *Engine) forget(st *State, r *Term) {
	mentions := func(t *Term) bool { return e.mentions(t, r) }
	for k := range st.facts.iv {
		if mentions(k) {
			delete(st.facts.iv, k)
		}
	}
	for k := range st.facts.set {
		if mentions(k) {
			delete(st.facts.set, k)
		}
	}
	for k := range st.facts.atoms {
		if mentions(k) {
			delete(st.facts.atoms, k)
		}
	}
}

func (e *Engine) mentions(t, r *Term) bool {
	if t == r {
		return true
	}
	for _, a := range t.args {
		if e.mentions(a, r) {
			return true
		}
	}
	return false
}

// escape: memory of local objects handed to unknown code by pointer may change.
func (e *Engine) escape(st *State, args []*Term, in ssa.Instruction) {
	for _, a := range args {
		if a.op == OAlloc && e.cfg.EscapeHavoc {
			e.havocRoot(st, a, in)
		}
	}
}

func shortFn(f *ssa.Function) string {
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	pk := ""
	if o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pk = o.Object().Pkg().Path()
	}
	if i := strings.LastIndex(pk, "/"); i >= 0 {
		pk = pk[i+1:]
	}
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nm, ok := t.(*types.Named); ok {
			return pk + "." + nm.Obj().Name() + "." + o.Name()
		}
	}
	n := o.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return pk + "." + n
}
