package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A fill is a slice made with the length of the loop that stores one element
// into it per iteration, at the loop's index: the same list as one grown by
// append, and analysed as such.
type fill struct {
	first *ssa.IndexAddr
	last  *ssa.Store // completes the element
	mk    *ssa.MakeSlice
	cell  *ssa.Alloc // variable that holds the slice, nil: a register
	bound ssa.Value  // the index stays below it
	of    ssa.Value  // or below the length of this
	ofLen *ssa.Call  // which the header takes
	n     *Term      // the length it was made with
}

// fillsOf finds the fills of a loop by the shape of its code.
func fillsOf(fi *fnInfo, l *natLoop) []*fill {
	h := l.header
	if len(h.Instrs) == 0 {
		return nil
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[h.Succs[0]] || l.blocks[h.Succs[1]] {
		return nil
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || cond.Block() != h {
		return nil
	}
	for b := range l.blocks {
		for _, s := range b.Succs {
			if b != h && !l.blocks[s] {
				return nil // left before the end
			}
		}
		if len(b.Succs) == 0 {
			return nil
		}
	}
	if !upByOne(h, l, cond.X) {
		return nil
	}
	var out []*fill
	bases := map[ssa.Value][]*ssa.IndexAddr{}
	var order []ssa.Value
	for _, b := range fi.order {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				x := ia.X
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
					x = u.X
				}
				if len(bases[x]) == 0 {
					order = append(order, x)
				}
				bases[x] = append(bases[x], ia)
			}
		}
	}
	for _, x := range order {
		if f := fillOf(fi, l, cond, x, bases[x]); f != nil {
			out = append(out, f)
		}
	}
	return out
}

func fillOf(fi *fnInfo, l *natLoop, cond *ssa.BinOp, base ssa.Value, ias []*ssa.IndexAddr) *fill {
	h := l.header
	f := &fill{first: ias[0]}
	b := f.first.Block()
	if !everyTime(fi, l, b) {
		return nil
	}
	pos := map[ssa.Instruction]int{}
	for i, in := range b.Instrs {
		pos[in] = i
	}
	own := map[ssa.Instruction]bool{}
	stored := func(u ssa.Instruction, at ssa.Value) bool {
		st, ok := u.(*ssa.Store)
		if !ok || st.Addr != at || st.Block() != b {
			return false
		}
		if f.last == nil || pos[f.last] < pos[st] {
			f.last = st
		}
		return true
	}
	for _, ia := range ias {
		if ia.Index != cond.X || ia.Block() != b {
			return nil
		}
		own[ia] = true
		if u, ok := ia.X.(*ssa.UnOp); ok {
			if len(used(u)) != 1 {
				return nil
			}
			own[u] = true
		}
		for _, u := range used(ia) {
			if stored(u, ia) {
				continue
			}
			fa, ok := u.(*ssa.FieldAddr)
			if !ok {
				return nil
			}
			for _, u := range used(fa) {
				if !stored(u, fa) {
					return nil
				}
			}
		}
	}
	if f.last == nil {
		return nil
	}
	switch y := cond.Y.(type) {
	case *ssa.Call:
		bi, ok := y.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return nil
		}
		if y.Block() == h {
			f.of, f.ofLen = y.Call.Args[0], y
		} else {
			f.bound = y
		}
	default:
		f.bound = y
	}
	if v, ok := f.bound.(ssa.Instruction); ok && l.blocks[v.Block()] {
		return nil
	}
	switch x := base.(type) {
	case *ssa.MakeSlice:
		f.mk = x
		if l.blocks[x.Block()] || !after(x, h, l, own) {
			return nil
		}
	case *ssa.Alloc:
		if l.blocks[x.Block()] {
			return nil
		}
		f.cell = x
		for _, r := range used(x) {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x && !l.blocks[s.Block()] && s.Block().Dominates(h) {
				mk, ok := s.Val.(*ssa.MakeSlice)
				if !ok || f.mk != nil || len(used(mk)) != 1 {
					return nil
				}
				f.mk = mk
				own[s] = true
			}
		}
		if f.mk == nil || !after(x, h, l, own) {
			return nil
		}
	default:
		return nil
	}
	if f.mk.Cap != f.mk.Len && !sameConst(f.mk.Cap, f.mk.Len) {
		return nil
	}
	return f
}

func sameConst(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

func used(v ssa.Value) []ssa.Instruction {
	var l []ssa.Instruction
	for _, r := range *v.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); !dbg {
			l = append(l, r)
		}
	}
	return l
}

// after: apart from own uses the value is used only when the loop is over.
func after(v ssa.Value, h *ssa.BasicBlock, l *natLoop, own map[ssa.Instruction]bool) bool {
	for _, r := range used(v) {
		if own[r] {
			continue
		}
		if l.blocks[r.Block()] || !h.Dominates(r.Block()) {
			// its own length may bound the loop
			if c, ok := r.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
			}
			return false
		}
	}
	return true
}

// everyTime: the block is passed exactly once by every iteration.
func everyTime(fi *fnInfo, l *natLoop, b *ssa.BasicBlock) bool {
	for h2, l2 := range fi.loops {
		if h2 != l.header && l.blocks[h2] && l2.blocks[b] {
			return false
		}
	}
	for _, p := range l.header.Preds {
		if l.blocks[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// upByOne: the value runs 0, 1, 2, … over the iterations.
func upByOne(h *ssa.BasicBlock, l *natLoop, idx ssa.Value) bool {
	is := func(v ssa.Value, k int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == k
	}
	plus := func(v ssa.Value, ph *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == ph && is(b.Y, 1)
	}
	check := func(ph *ssa.Phi, first int64, next func(v ssa.Value) bool) bool {
		if ph.Block() != h || !isIntType(ph.Type()) {
			return false
		}
		for i, p := range h.Preds {
			if l.blocks[p] && !next(ph.Edges[i]) || !l.blocks[p] && !is(ph.Edges[i], first) {
				return false
			}
		}
		return true
	}
	switch x := idx.(type) {
	case *ssa.Phi:
		return check(x, 0, func(v ssa.Value) bool { return plus(v, x) })
	case *ssa.BinOp:
		if ph, ok := x.X.(*ssa.Phi); ok && x.Block() == h && plus(x, ph) {
			return check(ph, -1, func(v ssa.Value) bool { return v == x })
		}
	}
	return false
}

// startFill turns the slice made for the fill into the empty list, if its
// length is the number of iterations.
func (e *Engine) startFill(st *State, f *fill) *Term {
	var m *Term
	if f.cell == nil {
		m = st.env[f.mk]
	} else if c := st.env[f.cell]; c != nil {
		m = e.load(st, c, f.mk.Type())
	}
	n := e.mkLen[m]
	if m == nil || n == nil {
		return nil
	}
	has := func(v ssa.Value) bool {
		if _, isC := v.(*ssa.Const); isC {
			return true
		}
		_, ok := st.env[v]
		return ok
	}
	var k *Term
	switch {
	case f.bound != nil && has(f.bound):
		k = e.operand(st, f.bound)
	case f.of != nil && has(f.of):
		k = e.lenOf(e.operand(st, f.of))
	}
	if k != n {
		return nil
	}
	f.n = n
	a := e.allocAt(f.mk, "", "makeslice", types.NewArray(f.mk.Type().Underlying().(*types.Slice).Elem(), 0))
	empty := e.tt.mkN(OSliceOf, 0, f.mk.Type(), a)
	if f.cell == nil {
		st.env[f.mk] = empty
	} else {
		st.mem[st.env[f.cell]] = empty
	}
	return n
}

// fillStep gives the step of a fill its element to write, and adds it when
// it is complete.
func (e *Engine) fillStep(st *State, in ssa.Instruction) bool {
	for _, f := range e.fills {
		switch x := in.(type) {
		case *ssa.Call:
			if x == f.ofLen && f.ownLen() {
				st.env[x] = f.n
				return true
			}
		case *ssa.IndexAddr:
			b := x.X
			if u, ok := b.(*ssa.UnOp); ok {
				b = u.X
			}
			if b != f.mk && b != f.cell || x.Block() != f.first.Block() {
				continue
			}
			ty := x.Type().Underlying().(*types.Pointer).Elem()
			a := e.allocAt(f.first, "fill", "elem", ty)
			if x == f.first {
				for ad := range st.mem {
					if root(ad) == a {
						delete(st.mem, ad)
					}
				}
			}
			st.env[x] = a
			return true
		case *ssa.Store:
			if x != f.last {
				continue
			}
			ad := e.operand(st, x.Addr)
			e.store(st, ad, e.operand(st, x.Val), x.Val.Type())
			ty := f.mk.Type().Underlying().(*types.Slice).Elem()
			v := e.load(st, e.allocAt(f.first, "fill", "elem", ty), ty)
			add := func(l *Term) *Term {
				if l.op == OAppend {
					return e.tt.mk(OAppend, "", f.mk.Type(), append(append([]*Term{}, l.args...), v)...)
				}
				return e.tt.mk(OAppend, "", f.mk.Type(), l, v)
			}
			if f.cell == nil {
				st.env[f.mk] = add(st.env[f.mk])
				return true
			}
			c := st.env[f.cell]
			e.storeEff(st, c, add(e.load(st, c, f.mk.Type())), f.mk.Type(), x)
			return true
		}
	}
	return false
}

// ownLen: the fill runs to the length of the very slice.
func (f *fill) ownLen() bool {
	b := f.of
	if u, ok := b.(*ssa.UnOp); ok {
		b = u.X
	}
	return b == f.mk || f.cell != nil && b == f.cell
}
