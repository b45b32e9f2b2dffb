package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) private(r *Term) bool {
	if r.op == OAlloc {
		return true
	}
	if s := e.sums[r]; s != nil && s.priv {
		return true
	}
	if r.op == OAppend {
		return e.private(rootSlice(r))
	}
	return false
}

// rootSlice walks to the base container of a slice value.
func rootSlice(t *Term) *Term {
	for {
		switch t.op {
		case OAppend, OSlice, OSliceOf:
			t = t.args[0]
		default:
			return root(t)
		}
	}
}

type phiRef struct {
	phi *ssa.Phi
	sym *Term
}

// runLoop analyses a natural loop for every state that reaches its header.
func (e *Engine) runLoop(fn *ssa.Function, fi *fnInfo, l *natLoop, eds []edge) regionOut {
	var sts []*State
	for _, ed := range eds {
		e.applyPhis(ed)
		sts = append(sts, ed.st)
	}
	sts = e.merge(sts, fi.liveIn[l.header])
	var out regionOut
	for _, s := range sts {
		if ro, ok := e.unrollConst(fn, fi, l, s); ok {
			out.exits = append(out.exits, ro.exits...)
			out.rets = append(out.rets, ro.rets...)
			continue
		}
		ro := e.runLoopOne(fn, fi, l, s)
		out.exits = append(out.exits, ro.exits...)
		out.rets = append(out.rets, ro.rets...)
	}
	return out
}

// unrollConst peels loops over literal collections, whose trip count is a
// constant of the source.
func (e *Engine) unrollConst(fn *ssa.Function, fi *fnInfo, l *natLoop, st *State) (regionOut, bool) {
	var out regionOut
	h := l.header
	if len(h.Instrs) == 0 {
		return out, false
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return out, false
	}
	// the condition must evaluate on constants only: an induction variable
	// against a constant bound
	decided := func(s *State) (bool, bool) {
		p := s.clone()
		var cur = p
		for _, in := range h.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.If:
				continue
			case *ssa.BinOp, *ssa.Call:
				if c, isC := in.(*ssa.Call); isC {
					b, isB := c.Call.Value.(*ssa.Builtin)
					if !isB || b.Name() != "len" {
						return false, false
					}
				}
				_ = x
				r := e.step(cur, in)
				if len(r) != 1 {
					return false, false
				}
				cur = r[0]
			default:
				return false, false
			}
		}
		c := e.operand(cur, iff.Cond)
		v, ok := c.boolVal()
		return v, ok
	}
	if _, ok := iff.Cond.(*ssa.BinOp); !ok {
		return out, false
	}
	if _, ok := decided(st); !ok {
		return out, false
	}
	work := []*State{st}
	for iter := 0; iter < 40 && len(work) > 0; iter++ {
		var next []*State
		for _, s := range work {
			if _, ok := decided(s); !ok {
				return regionOut{}, false
			}
			act := fmt.Sprintf("%s#%d", e.act(), iter)
			e.stack = append(e.stack, &frame{fn, act})
			ro := e.runRegion(fn, fi, l, h, []edge{{s.clone(), nil, h}})
			e.stack = e.stack[:len(e.stack)-1]
			out.exits = append(out.exits, ro.exits...)
			out.rets = append(out.rets, ro.rets...)
			for _, b := range ro.backs {
				e.applyPhis(b)
				next = append(next, b.st)
			}
		}
		work = e.merge(next, fi.liveIn[h])
	}
	if len(work) > 0 {
		return regionOut{}, false
	}
	return out, true
}

func (e *Engine) runLoopOne(fn *ssa.Function, fi *fnInfo, l *natLoop, st *State) regionOut {
	h := l.header
	e.nloop++
	id := e.nloop
	li := &LoopInfo{id: id, fn: fn, header: h}
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			li.pos = in.Pos()
			break
		}
	}
	act := fmt.Sprintf("%s~L%d", e.act(), id)
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	mod := newModSet()
	variant := map[*ssa.Phi]bool{}
	siteMark, asyncMark := len(e.sites), len(e.asyncQ)
	outer := st.log
	var out regionOut
	var start *State
	var phiSyms []phiRef
	memInit := map[*Term]*Term{}
	memSym := map[*Term]*Term{}
	var accs []*fill
	lens := map[*fill]*Term{}
	nfills := len(e.fills)
	for _, f := range fillsOf(fi, l) {
		if n := e.startFill(st, f); n != nil {
			lens[f] = n
			e.fills = append(e.fills, f)
			if f.cell == nil {
				accs = append(accs, f)
			}
		}
	}
	accSym := map[*fill]*Term{}
	for iter := 0; ; iter++ {
		if iter > 12 {
			e.abort("loop fixpoint not reached in %s", e.where())
		}
		e.sites = e.sites[:siteMark]
		e.asyncQ = e.asyncQ[:asyncMark]
		s := st.clone()
		s.log = nil
		li.born = map[*Term]bool{}
		li.gens = map[string]bool{}
		li.conts = nil
		e.born = append(e.born, li.born)
		e.bornGens = append(e.bornGens, li.gens)
		e.stack = append(e.stack, &frame{fn, act})
		phiSyms = nil
		for _, ph := range phis {
			if !variant[ph] {
				continue
			}
			nm := ph.Comment
			if nm == "" {
				nm = ph.Name()
			}
			sym := e.symAt(ph, "phi", nm, ph.Type())
			phiSyms = append(phiSyms, phiRef{ph, sym})
			init := st.env[ph]
			s.env[ph] = sym
			if d, ok := mod.induct[ph.Name()]; ok && isIntType(ph.Type()) {
				if d >= 0 {
					e.assume(s.facts, e.tt.Less(sym, init, types.Typ[types.Int]), false)
				}
				if d <= 0 {
					e.assume(s.facts, e.tt.Less(init, sym, types.Typ[types.Int]), false)
				}
			}
		}
		for _, f := range accs {
			sym := e.symAt(f.mk, "fill", "filled", f.mk.Type())
			s.env[f.mk] = sym
			accSym[f] = sym
		}
		// havoc what the loop may have modified
		if mod.all {
			e.havocShared(s)
		}
		var cs []string
		byKey := map[string]any{}
		for c := range mod.classes {
			k := fmt.Sprintf("%v|%p", c, c)
			if fv, ok := c.(*types.Var); ok {
				k = fmt.Sprintf("%s|%d", fv.Name(), fv.Pos())
			}
			cs = append(cs, k)
			byKey[k] = c
		}
		sort.Strings(cs)
		for _, k := range cs {
			e.bumpClass(s, byKey[k])
		}
		memSym = map[*Term]*Term{}
		memInit = map[*Term]*Term{}
		for ad := range mod.addrs {
			r := root(ad)
			if !li.born[r] && !e.private(r) && r.op != OClone && !mod.classes[classOf(ad)] {
				e.bumpClass(s, classOf(ad)) // escaped after it was written
			}
			if li.born[r] || e.mentionsAny(ad, li.born) {
				continue
			}
			if e.private(r) || r.op == OClone {
				init := e.load(st, ad, ad.typ)
				sym := e.symAt(ad, "mem", "loopmem", ad.typ)
				s.mem[ad] = sym
				memSym[ad] = sym
				memInit[ad] = init
				if d, ok := mod.induct[fmt.Sprint("m", ad.id)]; ok && isIntType(ad.typ) {
					if d >= 0 {
						e.assume(s.facts, e.tt.Less(sym, init, types.Typ[types.Int]), false)
					}
					if d <= 0 {
						e.assume(s.facts, e.tt.Less(init, sym, types.Typ[types.Int]), false)
					}
				}
			}
		}
		for r := range mod.slots {
			if r.op == OAlloc && !li.born[r] {
				e.dirty(s, r) // unknown slot of an outer object
			}
		}
		for _, p := range phiSyms {
			e.sums[p.sym] = &Summary{init: st.env[p.phi], sym: p.sym, loop: li, priv: e.privateVal(st.env[p.phi])}
		}
		for f, sym := range accSym {
			e.sums[sym] = &Summary{init: st.env[f.mk], sym: sym, loop: li, priv: true}
		}
		for ad, sym := range memSym {
			e.sums[sym] = &Summary{init: memInit[ad], sym: sym, loop: li, priv: e.privateVal(memInit[ad])}
		}
		start = s.clone()
		inner := newModSet()
		e.mods = append(e.mods, inner)
		e.logStack = append(e.logStack, outer)
		out = e.runRegion(fn, fi, l, h, []edge{{s, nil, h}})
		e.leaveEarly(l, &out)
		e.logStack = e.logStack[:len(e.logStack)-1]
		e.mods = e.mods[:len(e.mods)-1]
		e.stack = e.stack[:len(e.stack)-1]
		e.born = e.born[:len(e.born)-1]
		e.bornGens = e.bornGens[:len(e.bornGens)-1]
		changed := false
		for c := range inner.classes {
			if !mod.classes[c] {
				mod.classes[c] = true
				changed = true
			}
		}
		for r := range inner.slots {
			if !li.born[r] && !mod.slots[r] {
				mod.slots[r] = true
				changed = true
			}
		}
		for a := range inner.addrs {
			if li.born[root(a)] {
				continue
			}
			if e.mentionsAny(a, li.born) {
				if r := root(a); r.op == OAlloc && !mod.slots[r] {
					mod.slots[r] = true
					changed = true
				}
				continue
			}
			if !mod.addrs[a] {
				mod.addrs[a] = true
				changed = true
			}
		}
		if inner.all && !mod.all {
			mod.all = true
			changed = true
		}
		// next values
		stepOf := map[string][]int64{}
		known := map[string]bool{}
		note := func(key string, sym, next *Term) {
			d := e.tt.Sub(next, sym)
			if v, ok := d.intVal(); ok {
				stepOf[key] = append(stepOf[key], v)
			} else {
				known[key] = true // not a constant step
			}
		}
		for _, b := range out.backs {
			pi := predIndex(h, b.from)
			for _, ph := range phis {
				next := e.operand(b.st, ph.Edges[pi])
				cur := st.env[ph]
				if variant[ph] {
					cur = start.env[ph]
				}
				if !variant[ph] {
					if next != cur {
						variant[ph] = true
						changed = true
					}
					if d, ok := e.tt.Sub(next, cur).intVal(); ok && d != 0 && isIntType(ph.Type()) {
						note(ph.Name(), cur, next)
					}
					continue
				}
				if isIntType(ph.Type()) {
					note(ph.Name(), cur, next)
				}
			}
			for ad, sym := range memSym {
				if isIntType(ad.typ) {
					note(fmt.Sprint("m", ad.id), sym, e.load(b.st, ad, ad.typ))
				}
			}
		}
		for key, ds := range stepOf {
			if known[key] {
				continue
			}
			lo, hi := ds[0], ds[0]
			for _, d := range ds {
				lo, hi = min64(lo, d), max64(hi, d)
			}
			dir, ok := 0, false
			if lo >= 0 {
				dir, ok = 1, true
			} else if hi <= 0 {
				dir, ok = -1, true
			}
			old, had := mod.induct[key]
			if ok && !had {
				mod.induct[key] = dir
				changed = true
			} else if had && (!ok || old != dir) && !mod.noInd[key] {
				delete(mod.induct, key)
				mod.noInd[key] = true
				changed = true
			}
		}
		for key := range known {
			if _, had := mod.induct[key]; had {
				delete(mod.induct, key)
				mod.noInd[key] = true
				changed = true
			}
		}
		for key := range mod.noInd {
			delete(mod.induct, key)
		}
		if !changed {
			break
		}
	}
	e.loops[id] = li
	// the enclosing loops see the modifications as well
	for _, m := range e.mods {
		for c := range mod.classes {
			m.classes[c] = true
		}
		for a := range mod.addrs {
			m.addrs[a] = true
		}
		for r := range mod.slots {
			m.slots[r] = true
		}
		if mod.all {
			m.all = true
		}
	}
	for _, b := range e.born {
		for t := range li.born {
			b[t] = true
		}
	}
	for _, b := range e.bornGens {
		for t := range li.gens {
			b[t] = true
		}
	}
	any := false
	for _, b := range out.backs {
		pi := predIndex(h, b.from)
		c := &Cont{st: b.st, log: b.st.log, next: map[*Term]*Term{}}
		for _, p := range phiSyms {
			c.next[p.sym] = e.operand(b.st, p.phi.Edges[pi])
		}
		for ad, sym := range memSym {
			c.next[sym] = e.load(b.st, ad, ad.typ)
		}
		for f, sym := range accSym {
			c.next[sym] = b.st.env[f.mk]
		}
		if b.st.log != nil {
			any = true
		}
		li.conts = append(li.conts, c)
	}
	li.start = start
	e.findSeq(li, h, start, phiSyms, out)
	e.fills = e.fills[:nfills]
	li.exh = e.tt.mk(OCall, fmt.Sprintf("exhausted:%d", id), types.Typ[types.Bool])
	e.exhLoop[li.exh] = li
	relog := func(s *State, inner *LogNode) {
		lg := outer
		if any {
			lg = e.appendLog(lg, &Effect{kind: "loop", name: "loop", loop: li, pos: li.pos, fn: fn})
		}
		if inner != nil {
			li.early = append(li.early, s)
			for _, f := range inner.effects() {
				lg = e.appendLog(lg, f)
			}
		}
		s.log = lg
	}
	for _, ed := range out.exits {
		for _, f := range accs {
			if v := ed.st.env[f.mk]; v != nil {
				e.assume(ed.st.facts, e.tt.Eq(e.lenOf(v), lens[f], types.Typ[types.Int]), true)
			}
		}
	}
	lw := e.lastWriters(li, l, phiSyms, memSym)
	var exits []edge
	for _, ed := range out.exits {
		if ed.from == h {
			ed.st.facts.atoms[li.exh] = true
		} else {
			ed.st.facts.atoms[li.exh] = false
			li.breaks++
			li.brk = append(li.brk, ed.st.facts.clone())
		}
		relog(ed.st, ed.st.log)
		if ed.from == h && len(lw) > 0 {
			for _, s := range e.splitLastWriter(li, ed.st, lw) {
				exits = append(exits, edge{s, ed.from, ed.to})
			}
			continue
		}
		exits = append(exits, ed)
	}
	out.exits = exits
	for _, r := range out.rets {
		li.breaks++
		li.brk = append(li.brk, r.facts.clone())
		r.facts.atoms[li.exh] = false
		relog(r, r.log)
	}
	return regionOut{exits: out.exits, rets: out.rets}
}

// leaveEarly turns passes after which a second condition of the loop
// (for i < n && !found) is known to fail into passes that leave the loop.
func (e *Engine) leaveEarly(l *natLoop, out *regionOut) {
	h := l.header
	split := func(b *ssa.BasicBlock) (in, ex *ssa.BasicBlock) {
		if len(b.Succs) != 2 {
			return nil, nil
		}
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.If:
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
					return nil, nil
				}
			default:
				return nil, nil
			}
		}
		for _, t := range b.Succs {
			if l.blocks[t] {
				in = t
			} else {
				ex = t
			}
		}
		return in, ex
	}
	g, x := split(h)
	if g == nil || x == nil || g == h || len(g.Preds) != 1 || len(e.fills) > 0 {
		return
	}
	if in, ex := split(g); in == nil || ex != x {
		return
	}
	for _, in := range x.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph.Edges[predIndex(x, h)] != ph.Edges[predIndex(x, g)] {
			return
		}
	}
	var backs []edge
	for _, b := range out.backs {
		c := b.st.clone()
		e.applyPhis(edge{c, b.from, h})
		var env map[ssa.Value]*Term
		stays := false
		hs, _ := e.runBlock(c.clone(), h)
		for _, o := range hs {
			if o.to != g {
				continue
			}
			gs, _ := e.runBlock(o.st, g)
			for _, p := range gs {
				stays = stays || p.to != x
				env = p.st.env
			}
		}
		if stays || env == nil {
			backs = append(backs, b)
			continue
		}
		c.env = env
		out.exits = append(out.exits, edge{c, g, x})
	}
	out.backs = backs
}

func (e *Engine) privateVal(v *Term) bool {
	switch v.op {
	case ONil, OMapEmpty:
		return true
	}
	return e.private(rootSlice(v))
}

// lenOperand is the sequence whose length a comparison is made with.
func (e *Engine) lenOperand(st *State, cond ssa.Value) *Term {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{bo.Y, bo.X} {
		call, ok := v.(*ssa.Call)
		if !ok {
			continue
		}
		if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			continue
		}
		for _, f := range e.fills {
			if f.ofLen == call && f.ownLen() {
				return nil
			}
		}
		a := call.Call.Args[0]
		if _, has := st.env[a]; !has {
			if _, isC := a.(*ssa.Const); !isC {
				return nil
			}
		}
		return e.operand(st, a)
	}
	return nil
}

// findSeq recognises loops that visit every element of a sequence once.
func (e *Engine) findSeq(li *LoopInfo, h *ssa.BasicBlock, start *State, phis []phiRef, out regionOut) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	// evaluate the header condition on the generic state
	s := start.clone()
	e.born = append(e.born, map[*Term]bool{})
	e.bornGens = append(e.bornGens, map[string]bool{})
	e.stack = append(e.stack, &frame{li.fn, fmt.Sprintf("seq%d", li.id)})
	defer func() {
		e.born = e.born[:len(e.born)-1]
		e.bornGens = e.bornGens[:len(e.bornGens)-1]
		e.stack = e.stack[:len(e.stack)-1]
	}()
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.Next:
			v := e.operand(s, x.Iter)
			if v.op == OCall && v.name == "range" {
				li.seq = v.args[0]
				li.mapSeq = !x.IsString
				li.full = true
			}
			return
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Call, *ssa.Field:
			if c, isC := in.(*ssa.Call); isC {
				b, isB := c.Call.Value.(*ssa.Builtin)
				if !isB || b.Name() != "len" {
					return
				}
			}
			r := e.step(s, in)
			if len(r) != 1 {
				return
			}
			s = r[0]
		default:
			return
		}
	}
	c := e.operand(s, iff.Cond)
	li.cond = c
	if l := infoOf(li.fn).loops[h]; l != nil && !l.blocks[h.Succs[0]] {
		li.cond = e.tt.Not(c)
	}
	neg := false
	if c.op == ONot {
		c, neg = c.args[0], true
	}
	if c.op != OLess {
		return
	}
	lin := e.tt.toLin(c.args[0])
	for _, p := range phis {
		co, has := lin.m[p.sym]
		if !has {
			continue
		}
		init := e.sums[p.sym].init
		var step int64
		okStep := len(li.conts) > 0
		for i, ct := range li.conts {
			d, ok := e.tt.Sub(ct.next[p.sym], p.sym).intVal()
			if !ok || i > 0 && d != step {
				okStep = false
				break
			}
			step = d
		}
		if !okStep {
			continue
		}
		switch {
		case !neg && co == 1 && step == 1:
			// phi + k - len(S) < 0
			if seq := e.lenOperand(s, iff.Cond); seq != nil {
				if k, ok := e.tt.Sub(e.tt.Add(c.args[0], e.lenOf(seq)), p.sym).intVal(); ok {
					first, ok := e.tt.Add(init, e.tt.Int(k)).intVal()
					li.seq = seq
					li.idx = e.tt.Add(p.sym, e.tt.Int(k))
					li.full = ok && first == 0
					return
				}
			}
			var seq *Term
			for t, x := range lin.m {
				if t == p.sym {
					continue
				}
				if t.op == OLen && x == -1 && seq == nil {
					seq = t.args[0]
				} else {
					return
				}
			}
			if seq == nil {
				return
			}
			first, ok := e.tt.Add(init, e.tt.Int(lin.k)).intVal()
			li.seq = seq
			li.idx = e.tt.Add(p.sym, e.tt.Int(lin.k))
			li.full = ok && first == 0
			return
		case neg && co == 1 && step == -1 && len(lin.m) == 1:
			// !(phi + k < 0), counting down from len-1
			li.idx = e.tt.Add(p.sym, e.tt.Int(lin.k))
			if init.op == OLin && len(init.args) == 1 && init.args[0].op == OLen && init.coef[0] == 1 && init.k+lin.k == -1 {
				li.seq = init.args[0].args[0]
				li.full = true
				li.reverse = true
			}
			return
		}
	}
}

func (e *Engine) mentionsAny(t *Term, set map[*Term]bool) bool {
	if set[t] {
		return true
	}
	for _, a := range t.args {
		if e.mentionsAny(a, set) {
			return true
		}
	}
	return false
}

func (e *Engine) dirty(st *State, r *Term) {
	st.mem[e.tt.mk(OCall, "dirty", nil, r)] = e.tt.Bool(true)
	for a := range st.mem {
		if a.op != OCall && root(a) == r && a.op == OIndex {
			delete(st.mem, a)
		}
	}
}

// ---- substitution ----

type renaming struct {
	m    map[*Term]*Term
	gens map[string]bool
	suf  string
	memo map[*Term]*Term
}

func (e *Engine) subst(t *Term, r *renaming) *Term {
	if x, ok := r.m[t]; ok {
		return x
	}
	if x, ok := r.memo[t]; ok {
		return x
	}
	out := t
	switch t.op {
	case OConst, ONil, OSym, OAlloc, OGlobal:
	default:
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = e.subst(a, r)
			if args[i] != a {
				ch = true
			}
		}
		gen := t.name
		if t.op == OInit && genBorn(t.name, r.gens) {
			gen = t.name + r.suf
			ch = true
		}
		if ch {
			out = e.rebuild(t, args, gen)
		}
	}
	r.memo[t] = out
	return out
}

func (e *Engine) rebuild(t *Term, a []*Term, gen string) *Term {
	tt := e.tt
	switch t.op {
	case OField:
		return tt.Field(a[0], t.fv)
	case OIndex:
		return tt.Index(a[0], a[1], t.typ)
	case OMapC:
		return tt.MapC(a[0], t.typ)
	case OInit:
		return tt.Init(a[0], gen, t.typ)
	case OSel:
		if a[0].op == OStruct {
			st := a[0].typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == t.fv {
					return a[0].args[i]
				}
			}
		}
		return tt.Sel(a[0], t.fv)
	case OStruct:
		return e.mkStruct(t.typ, a)
	case OTuple:
		return tt.Tuple(a)
	case OLin:
		r := tt.Int(t.k)
		for i := range a {
			r = tt.addLin(r, tt.Scale(a[i], t.coef[i]), 1, t.typ)
		}
		return r
	case OEq:
		if t.name == "int" {
			return tt.Eq(a[0], a[1], types.Typ[types.Int])
		}
		return tt.Eq(a[0], a[1], nil)
	case OLess:
		return tt.Less(a[0], tt.Int(0), types.Typ[types.Int])
	case ONot:
		return tt.Not(a[0])
	case OLen:
		return e.lenOf(a[0])
	case OClosure:
		return tt.Closure(t.fn, a)
	case OSliceOf, OClone:
		return tt.mkN(t.op, t.n, t.typ, a...)
	}
	return tt.mk(t.op, t.name, t.typ, a...)
}

// ---- elements of summarised collections ----

type elemCase struct {
	vals []*Term // element value (slices), or key and value (maps)
	cont *Cont
	loop *LoopInfo
	unk  bool
}

// sumCases lists the ways an element can have entered the collection.
func (e *Engine) sumCases(s *Summary, depth int) []elemCase {
	var r []elemCase
	if depth > 4 {
		return []elemCase{{unk: true}}
	}
	for _, c := range s.loop.conts {
		nv, ok := c.next[s.sym]
		if !ok {
			continue
		}
		r = append(r, e.chainCases(s, nv, c, depth)...)
	}
	r = append(r, e.valueCases(s.init, nil, nil, depth)...)
	return r
}

// valueCases lists the elements of a collection value.
func (e *Engine) valueCases(v *Term, c *Cont, li *LoopInfo, depth int) []elemCase {
	switch v.op {
	case ONil, OMapEmpty:
		return nil
	case OSliceOf:
		if v.n == 0 {
			return nil
		}
	case OSpread:
		return e.valueCases(v.args[0], c, li, depth)
	case OAppend:
		r := e.valueCases(v.args[0], c, li, depth)
		for _, a := range v.args[1:] {
			if a.op == OSpread {
				r = append(r, e.valueCases(a.args[0], c, li, depth)...)
			} else {
				r = append(r, elemCase{vals: []*Term{a}, cont: c, loop: li})
			}
		}
		return r
	case OMapPut:
		r := e.valueCases(v.args[0], c, li, depth)
		return append(r, elemCase{vals: []*Term{v.args[1], v.args[2]}, cont: c, loop: li})
	case OMapDel:
		return e.valueCases(v.args[0], c, li, depth)
	case OSym:
		if s := e.sums[v]; s != nil {
			if li == s.loop {
				return nil
			}
			return e.sumCases(s, depth+1)
		}
	}
	return []elemCase{{unk: true, vals: []*Term{v}, cont: c, loop: li}}
}

func (e *Engine) chainCases(s *Summary, nv *Term, c *Cont, depth int) []elemCase {
	if nv == s.sym {
		return nil
	}
	return e.valueCases(nv, c, s.loop, depth)
}

// instantiate adds to st that some iteration of the loop ended in cont, and
// returns the renamed values; false when that is impossible here.
func (e *Engine) instantiate(st *State, cs elemCase, tag string, at any) ([]*Term, bool) {
	if cs.cont == nil {
		return cs.vals, true
	}
	r := &renaming{m: map[*Term]*Term{}, gens: cs.loop.gens, memo: map[*Term]*Term{}, suf: "'" + tag}
	var bs []*Term
	for b := range cs.loop.born {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	for _, b := range bs {
		if b.op == OSym {
			r.m[b] = e.symAt(at, tag+fmt.Sprint(":", b.id), b.name, b.typ)
			if s, ok := e.sums[b]; ok {
				e.sums[r.m[b]] = s
			}
		} else if b.op == OAlloc {
			r.m[b] = e.allocAt(at, tag+fmt.Sprint(":", b.id), b.name, b.typ)
		}
	}
	// an outer instance of the same renaming must be forgotten
	var out []*Term
	for _, v := range cs.vals {
		out = append(out, e.subst(v, r))
	}
	if !e.addFacts(st.facts, cs.cont.st.facts, r) {
		return nil, false
	}
	for a, v := range cs.cont.st.mem {
		if rt := root(a); rt.op == OAlloc && cs.loop.born[rt] {
			st.mem[e.subst(a, r)] = e.subst(v, r)
		}
	}
	// the element the iteration visited keeps the identity it had there
	if li := cs.loop; li.seq != nil && li.idx != nil && e.sums[li.seq] != nil {
		if sl, ok := seqElem(li); ok {
			if _, ptr := sl.Underlying().(*types.Pointer); ptr {
				ad := e.indexAddr(li.seq, li.idx, sl)
				if v, ok := cs.cont.st.mem[ad]; ok {
					na := e.subst(ad, r)
					if _, has := st.mem[na]; !has {
						st.mem[na] = e.subst(v, r)
					}
				}
			}
		}
	}
	return out, true
}

func (e *Engine) addFacts(dst, src *Facts, r *renaming) bool {
	for t, iv := range src.iv {
		n := e.subst(t, r)
		ok := e.assumeIv(dst, n, func(x *Iv) {
			if iv.lo > x.lo {
				x.lo = iv.lo
			}
			if iv.hi < x.hi {
				x.hi = iv.hi
			}
			x.ne = append(append([]int64{}, x.ne...), iv.ne...)
		})
		if v, c := n.intVal(); c {
			ok = v >= iv.lo && v <= iv.hi
		}
		if !ok {
			return false
		}
	}
	for t, s := range src.set {
		n := e.subst(t, r)
		var cs []*Term
		if s.allowed != nil {
			for k := range s.allowed {
				cs = append(cs, k)
			}
			switch e.inSet(dst, n, cs) {
			case 1:
				continue
			case -1:
				return false
			}
			if n.op == OConst {
				return false
			}
			if !e.restrict(dst, n, cs, true) {
				return false
			}
		} else {
			for k := range s.excl {
				cs = append(cs, k)
			}
			if n.op == OConst || n.op == ONil {
				if s.excl[n] {
					return false
				}
				continue
			}
			if !e.restrict(dst, n, cs, false) {
				return false
			}
		}
	}
	for t, v := range src.atoms {
		n := e.subst(t, r)
		switch e.eval(dst, n) {
		case 1:
			if !v {
				return false
			}
			continue
		case -1:
			if v {
				return false
			}
			continue
		}
		if !e.assume(dst, n, v) {
			return false
		}
	}
	return true
}

// putRaw records the contents of a private or freshly materialised location.
func (e *Engine) putRaw(st *State, addr, v *Term, typ types.Type) {
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				e.putRaw(st, e.tt.Field(addr, s.Field(i)), e.sel(v, s.Field(i), i), s.Field(i).Type())
			}
			return
		}
	}
	st.mem[addr] = v
}

// materialize splits on how the addressed element entered its collection.
func (e *Engine) materialize(st *State, addr *Term, at ssa.Instruction) []*State {
	var chain []*Term
	for a := addr; a.op == OField || a.op == OIndex; a = a.args[0] {
		if a.op == OIndex {
			chain = append(chain, a)
		}
	}
	sts := []*State{st}
	for i := len(chain) - 1; i >= 0; i-- {
		var nx []*State
		for _, s := range sts {
			nx = append(nx, e.matIndex(s, chain[i], at)...)
		}
		sts = nx
	}
	return sts
}

func (e *Engine) matMark(ix *Term) *Term { return e.tt.mk(OCall, "mat", nil, ix) }

func (e *Engine) matIndex(st *State, ix *Term, at any) []*State {
	c, i := ix.args[0], ix.args[1]
	mark := e.matMark(ix)
	if _, ok := st.mem[mark]; ok {
		return []*State{st}
	}
	if _, ok := st.mem[ix]; ok {
		return []*State{st}
	}
	elem := ix.typ
	switch {
	case c.op == OAlloc:
		// literal array, symbolic index
		arr, ok := c.typ.Underlying().(*types.Array)
		if !ok || arr.Len() > 16 {
			return []*State{st}
		}
		if _, isC := i.intVal(); isC {
			return []*State{st}
		}
		if _, d := st.mem[e.tt.mk(OCall, "dirty", nil, c)]; d {
			return []*State{st}
		}
		var outs []*State
		for k := int64(0); k < arr.Len(); k++ {
			s := st.clone()
			if !e.assume(s.facts, e.tt.Eq(i, e.tt.Int(k), types.Typ[types.Int]), true) {
				continue
			}
			e.putRaw(s, ix, e.load(s, e.tt.Index(c, e.tt.Int(k), elem), elem), elem)
			s.mem[mark] = e.tt.Bool(true)
			outs = append(outs, s)
		}
		return outs
	case c.op == OAppend:
		var outs []*State
		base := c.args[0]
		bl := e.lenOf(base)
		s := st.clone()
		if e.assume(s.facts, e.tt.Less(i, bl, types.Typ[types.Int]), true) {
			bi := e.indexAddr(base, i, elem)
			for _, s2 := range e.materialize(s, bi, nil) {
				e.putRaw(s2, ix, e.load(s2, bi, elem), elem)
				s2.mem[mark] = e.tt.Bool(true)
				outs = append(outs, s2)
			}
		}
		off := bl
		for k, a := range c.args[1:] {
			s := st.clone()
			if a.op == OSpread {
				ln := e.lenOf(a.args[0])
				if e.assume(s.facts, e.tt.Less(i, off, types.Typ[types.Int]), false) && e.assume(s.facts, e.tt.Less(i, e.tt.Add(off, ln), types.Typ[types.Int]), true) {
					bi := e.indexAddr(a.args[0], e.tt.Sub(i, off), elem)
					for _, s2 := range e.materialize(s, bi, nil) {
						e.putRaw(s2, ix, e.load(s2, bi, elem), elem)
						s2.mem[mark] = e.tt.Bool(true)
						outs = append(outs, s2)
					}
				}
				off = e.tt.Add(off, ln)
				continue
			}
			if e.assume(s.facts, e.tt.Eq(i, off, types.Typ[types.Int]), true) {
				e.putRaw(s, ix, a, elem)
				s.mem[mark] = e.tt.Bool(true)
				outs = append(outs, s)
			}
			off = e.tt.Add(off, e.tt.Int(1))
			_ = k
		}
		return outs
	case e.sums[c] != nil:
		cases := e.sumCases(e.sums[c], 0)
		var outs []*State
		for n, cs := range cases {
			s := st.clone()
			tag := fmt.Sprintf("el%d:%d:%d", c.id, i.id, n)
			if cs.unk {
				// element of an unknown initial part
				v := cs.vals
				if len(v) == 1 && cs.cont == nil {
					j := e.symAt(mark, tag, "j", types.Typ[types.Int])
					bi := e.indexAddr(v[0], j, elem)
					e.assume(s.facts, e.tt.Less(j, e.tt.Int(0), types.Typ[types.Int]), false)
					e.assume(s.facts, e.tt.Less(j, e.lenOf(v[0]), types.Typ[types.Int]), true)
					e.putRaw(s, ix, e.load(s, bi, elem), elem)
				}
				s.mem[mark] = e.tt.Bool(true)
				outs = append(outs, s)
				continue
			}
			vs, ok := e.instantiate(s, cs, tag, mark)
			if !ok {
				continue
			}
			e.putRaw(s, ix, vs[0], elem)
			s.mem[mark] = e.tt.Bool(true)
			outs = append(outs, s)
		}
		return outs
	}
	return []*State{st}
}

// dropElems forgets materialised elements of a container (in-place reordering).
func (e *Engine) dropElems(st *State, c *Term) {
	r := c
	for r.op == OSlice || r.op == OSliceOf {
		r = r.args[0]
	}
	for a := range st.mem {
		x := a
		if x.op == OCall && (x.name == "mat") {
			x = x.args[0]
		}
		if x.op == OCall && x.name == "shifted" && x.args[0] == r {
			delete(st.mem, a)
			continue
		}
		for x.op == OField || x.op == OIndex {
			if x.op == OIndex && x.args[0] == r {
				delete(st.mem, a)
				break
			}
			x = x.args[0]
		}
	}
}

// ---- maps ----

type mapHit struct {
	st    *State
	val   *Term
	found int // 1 yes, -1 no, 0 unknown
	key   *Term
}

func (e *Engine) mapGet(st *State, c, k *Term, vt types.Type, at any) []mapHit {
	switch c.op {
	case OMapEmpty, ONil:
		return []mapHit{{st, e.tt.Zero(vt), -1, k}}
	case OMapPut:
		eq := e.tt.Eq(c.args[1], k, c.args[1].typ)
		switch e.eval(st.facts, eq) {
		case 1:
			return []mapHit{{st, c.args[2], 1, k}}
		case -1:
			return e.mapGet(st, c.args[0], k, vt, at)
		}
		s := st.clone()
		var r []mapHit
		if e.assume(s.facts, eq, true) {
			r = append(r, mapHit{s, c.args[2], 1, k})
		}
		if e.assume(st.facts, eq, false) {
			r = append(r, e.mapGet(st, c.args[0], k, vt, at)...)
		}
		return r
	case OMapDel:
		eq := e.tt.Eq(c.args[1], k, c.args[1].typ)
		switch e.eval(st.facts, eq) {
		case 1:
			return []mapHit{{st, e.tt.Zero(vt), -1, k}}
		case -1:
			return e.mapGet(st, c.args[0], k, vt, at)
		}
		s := st.clone()
		var r []mapHit
		if e.assume(s.facts, eq, true) {
			r = append(r, mapHit{s, e.tt.Zero(vt), -1, k})
		}
		if e.assume(st.facts, eq, false) {
			r = append(r, e.mapGet(st, c.args[0], k, vt, at)...)
		}
		return r
	}
	if sm := e.sums[c]; sm != nil {
		has := e.tt.mk(OCall, "maphas", types.Typ[types.Bool], c, k)
		var r []mapHit
		known := e.eval(st.facts, has)
		memo := e.tt.mk(OCall, "mapget", vt, c, k)
		if v, ok := st.mem[memo]; ok && known == 1 {
			return []mapHit{{st, v, 1, k}}
		}
		if known >= 0 {
			for n, cs := range e.sumCases(sm, 0) {
				s := st.clone()
				if cs.unk {
					// initial content
					if e.assume(s.facts, has, true) {
						r = append(r, mapHit{s, memo, 1, k})
					}
					continue
				}
				vs, ok := e.instantiate(s, cs, fmt.Sprintf("mp%d:%d:%d", c.id, k.id, n), has)
				if !ok || len(vs) != 2 {
					continue
				}
				if !e.assume(s.facts, e.tt.Eq(vs[0], k, vs[0].typ), true) || !e.assume(s.facts, has, true) {
					continue
				}
				s.mem[memo] = vs[1]
				r = append(r, mapHit{s, vs[1], 1, k})
			}
		}
		if known <= 0 {
			s := st.clone()
			if e.assume(s.facts, has, false) {
				r = append(r, mapHit{s, e.tt.Zero(vt), -1, k})
			}
		}
		return r
	}
	has := e.tt.mk(OCall, "maphas", types.Typ[types.Bool], c, k)
	if e.eval(st.facts, has) == -1 {
		return []mapHit{{st, e.tt.Zero(vt), -1, k}}
	}
	return []mapHit{{st, e.tt.mk(OCall, "mapget", vt, c, k), 0, k}}
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) []*State {
	m, k := e.operand(st, x.X), e.operand(st, x.Index)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return e.set(st, x, e.tt.mk(OBin, "index", x.Type(), m, k))
	}
	c := e.load(st, e.tt.MapC(m, x.X.Type()), x.X.Type())
	if m.op == ONil {
		c = e.tt.mk(OMapEmpty, "", x.X.Type())
	}
	var outs []*State
	for _, h := range e.mapGet(st, c, k, mt.Elem(), x) {
		if !x.CommaOk {
			outs = append(outs, e.set(h.st, x, h.val)...)
			continue
		}
		switch h.found {
		case 1:
			outs = append(outs, e.set(h.st, x, e.tt.Tuple([]*Term{h.val, e.tt.Bool(true)}))...)
		case -1:
			outs = append(outs, e.set(h.st, x, e.tt.Tuple([]*Term{h.val, e.tt.Bool(false)}))...)
		default:
			has := e.tt.mk(OCall, "maphas", types.Typ[types.Bool], c, k)
			s := h.st.clone()
			if e.assume(s.facts, has, true) {
				outs = append(outs, e.set(s, x, e.tt.Tuple([]*Term{h.val, e.tt.Bool(true)}))...)
			}
			if e.assume(h.st.facts, has, false) {
				outs = append(outs, e.set(h.st, x, e.tt.Tuple([]*Term{e.tt.Zero(mt.Elem()), e.tt.Bool(false)}))...)
			}
		}
	}
	return outs
}

func (e *Engine) next(st *State, x *ssa.Next) []*State {
	it := e.operand(st, x.Iter)
	tup := x.Type().(*types.Tuple)
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	var outs []*State
	done := st.clone()
	outs = append(outs, e.set(done, x, e.tt.Tuple([]*Term{e.tt.Bool(false), e.tt.Nil(), e.tt.Nil()}))...)
	c := it.args[0]
	if x.IsString {
		k := e.symAt(x, "k", "k", kt)
		v := e.symAt(x, "v", "v", vt)
		return append(outs, e.set(st, x, e.tt.Tuple([]*Term{e.tt.Bool(true), k, v}))...)
	}
	var cases []elemCase
	if c.op == OMapPut || c.op == OMapEmpty || c.op == OMapDel || e.sums[c] != nil {
		if s := e.sums[c]; s != nil {
			cases = e.sumCases(s, 0)
		} else {
			cases = e.valueCases(c, nil, nil, 0)
		}
	} else {
		cases = []elemCase{{unk: true}}
	}
	for n, cs := range cases {
		s := st.clone()
		if cs.unk {
			k := e.symAt(x, fmt.Sprint("k", n), "key", kt)
			v := e.tt.mk(OCall, "mapget", vt, c, k)
			if !e.assume(s.facts, e.tt.mk(OCall, "maphas", types.Typ[types.Bool], c, k), true) {
				continue
			}
			outs = append(outs, e.set(s, x, e.tt.Tuple([]*Term{e.tt.Bool(true), k, v}))...)
			continue
		}
		vs, ok := e.instantiate(s, cs, fmt.Sprintf("nx%d:%d", c.id, n), x)
		if !ok || len(vs) != 2 {
			continue
		}
		outs = append(outs, e.set(s, x, e.tt.Tuple([]*Term{e.tt.Bool(true), vs[0], vs[1]}))...)
	}
	return outs
}
