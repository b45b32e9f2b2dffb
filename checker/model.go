package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) done(st *State, rs ...*Term) []*State {
	st.ret = rs
	return []*State{st}
}

func (e *Engine) builtin(st *State, b *ssa.Builtin, args []*Term, c *ssa.CallCommon, in ssa.Instruction) []*State {
	switch b.Name() {
	case "len":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return e.done(st, e.lenOf(e.load(st, e.tt.MapC(args[0], mt), c.Args[0].Type())))
		}
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			return e.done(st, e.tt.Int(p.Elem().Underlying().(*types.Array).Len()))
		}
		return e.done(st, e.lenOf(args[0]))
	case "cap":
		return e.done(st, e.tt.mk(OCall, "cap", types.Typ[types.Int], args[0]))
	case "append":
		base := args[0]
		if len(args) == 1 || args[1].op == ONil {
			return e.done(st, base)
		}
		var add []*Term
		x := args[1]
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if x.op == OSliceOf && x.n <= 32 {
			for i := 0; i < x.n; i++ {
				add = append(add, e.load(st, e.tt.Index(x.args[0], e.tt.Int(int64(i)), et), et))
			}
		} else {
			add = append(add, e.tt.mk(OSpread, "", c.Args[0].Type(), x))
		}
		if len(add) == 0 {
			return e.done(st, base)
		}
		if rootSlice(base).op != OAlloc && base.op == OSlice {
			// may overwrite the tail of the shared backing array
			cl := "idx:" + types.TypeString(et, nil)
			for _, m := range e.mods {
				m.classes[cl] = true
			}
			e.bumpClass(st, cl)
		}
		if base.op == OAppend {
			add = append(append([]*Term{}, base.args[1:]...), add...)
			base = base.args[0]
		}
		return e.done(st, e.tt.mk(OAppend, "", c.Args[0].Type(), append([]*Term{base}, add...)...))
	case "copy":
		e.emit(st, &Effect{kind: "copy", name: e.contName(args[0]), pos: in.Pos(), args: args, inst: in})
		e.dropElems(st, args[0])
		if d, s := args[0], args[1]; s.op == OSlice && (d.op == OSlice && d.args[0] == s.args[0]) && d.args[2] == e.lenOf(s.args[0]) && s.args[2] == d.args[2] && s.args[1] == e.tt.Add(d.args[1], e.tt.Int(1)) {
			st.mem[e.shifted(s.args[0])] = d.args[1]
		}
		if et, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			cl := "idx:" + types.TypeString(et.Elem(), nil)
			for _, m := range e.mods {
				m.classes[cl] = true
			}
			if r := rootSlice(args[0]); r.op == OAlloc {
				e.dirty(st, r)
			} else {
				e.bumpClass(st, cl)
			}
		}
		return e.done(st, e.symAt(in, "copy", "copied", types.Typ[types.Int]))
	case "delete":
		m := args[0]
		ct := e.tt.MapC(m, c.Args[0].Type())
		cont := e.load(st, ct, c.Args[0].Type())
		if e.isShared(ct) || e.cfg.LocalMaps {
			e.emit(st, &Effect{kind: "mapdel", name: e.contName(m), pos: in.Pos(), addr: m, args: []*Term{args[1]}, inst: in})
		}
		e.storeScalar(st, ct, e.tt.mk(OMapDel, "", c.Args[0].Type(), cont, args[1]))
		return e.done(st)
	case "clear":
		m := args[0]
		ct := e.tt.MapC(m, c.Args[0].Type())
		e.emit(st, &Effect{kind: "mapclear", name: e.contName(m), pos: in.Pos(), addr: m, inst: in})
		e.storeScalar(st, ct, e.tt.mk(OMapEmpty, "", c.Args[0].Type()))
		return e.done(st)
	case "ssa:wrapnilchk":
		return e.done(st, args[0])
	case "print", "println", "close", "panic", "recover":
		e.emit(st, &Effect{kind: "builtin", name: b.Name(), pos: in.Pos(), args: args, inst: in})
		if b.Name() == "panic" {
			return nil
		}
		return e.done(st, e.tt.Nil())
	case "min", "max":
		if len(args) == 2 && isIntType(c.Signature().Results().At(0).Type()) {
			lt := e.tt.Less(args[0], args[1], types.Typ[types.Int])
			small, big := args[0], args[1]
			pick := func(less bool) *Term {
				if (b.Name() == "min") == less {
					return small
				}
				return big
			}
			switch e.eval(st.facts, lt) {
			case 1:
				return e.done(st, pick(true))
			case -1:
				return e.done(st, pick(false))
			}
			s := st.clone()
			var outs []*State
			if e.assume(s.facts, lt, true) {
				outs = append(outs, e.done(s, pick(true))...)
			}
			if e.assume(st.facts, lt, false) {
				outs = append(outs, e.done(st, pick(false))...)
			}
			return outs
		}
	}
	var rt types.Type
	if r := c.Signature().Results(); r.Len() == 1 {
		rt = r.At(0).Type()
	}
	return e.done(st, e.tt.mk(OCall, "builtin:"+b.Name(), rt, args...))
}

func (e *Engine) spawn(st *State, name string, fn *Term, args []*Term, call *ssa.CallCommon, in ssa.Instruction, reg []*Term) {
	if e.cfg.NoAsync || e.silent {
		return
	}
	var f *ssa.Function
	if call != nil && call.IsInvoke() {
		return
	}
	if fn.op != OClosure || !e.W.inRepo(fn.fn) || len(fn.fn.Blocks) == 0 {
		return
	}
	f = fn.fn
	for _, c := range e.chain {
		if c == in {
			return
		}
	}
	key := fmt.Sprintf("%p|%p|%d", in, f, len(e.chain))
	s := st.clone()
	s.envs, s.env, s.ret = nil, map[ssa.Value]*Term{}, nil
	s.defers = nil
	for _, a := range e.asyncQ {
		if a.key == key && a.closure == fn && slices.Equal(a.params, args) {
			a.starts = append(a.starts, s)
			return
		}
	}
	a := &Async{label: e.entry + " → " + name, key: key, fn: f, closure: fn, args: reg, params: args, pos: in.Pos(), entry: e.entry, starts: []*State{s}, name: name,
		chain: append(append([]ssa.Instruction{}, e.chain...), in)}
	e.asyncQ = append(e.asyncQ, a)
}

// runAsyncs analyses the functions registered for later execution.
func (e *Engine) runAsyncs() {
	for n := 0; len(e.asyncQ) > 0 && n < 200; n++ {
		a := e.asyncQ[0]
		e.asyncQ = e.asyncQ[1:]
		e.entry = a.label
		e.chain = a.chain
		saved := e.stack
		e.stack = []*frame{{a.fn, fmt.Sprintf("async%d", n)}}
		for _, s := range a.starts {
			s.log = nil
			e.havocShared(s)
			s.env[nil] = e.tt.Tuple(append(append([]*Term{a.closure}, a.closure.args...), a.params...))
		}
		starts := e.merge(a.starts, nil)
		if a.params == nil {
			for i, p := range a.fn.Params {
				a.params = append(a.params, e.symAt(p, fmt.Sprint("ap", i), p.Name(), p.Type()))
			}
		}
		for _, s := range starts {
			s.env = map[ssa.Value]*Term{}
			if e.cfg.AsyncSetup != nil && !e.cfg.AsyncSetup(e, a, s) {
				continue
			}
			if a.st0 == nil {
				a.st0 = s.clone()
			}
			for _, o := range e.callFn(s, a.fn, a.params, a.closure.args, a.fn, nil) {
				a.outcomes = append(a.outcomes, &Outcome{entry: a.label, st: o, ret: o.ret, args: a.params})
			}
		}
		e.stack = saved
		e.chain = nil
		e.asyncs = append(e.asyncs, a)
	}
}

var purePkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "errors": true, "math": true, "unicode": true, "bytes": true, "regexp": true, "uuid": true, "maps": true}

func (e *Engine) extCall(st *State, f *ssa.Function, args []*Term, c *ssa.CallCommon, in ssa.Instruction, live map[ssa.Value]bool) []*State {
	name := shortFn(f)
	sig := f.Signature
	resT := func(i int) types.Type {
		if i < sig.Results().Len() {
			return sig.Results().At(i).Type()
		}
		return nil
	}
	switch name {
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "log.Println", "log.Printf", "log.Print":
		return e.done(st, e.symAt(in, "n", "n", resT(0)), e.tt.Nil())
	case "time.Now":
		return e.done(st, e.tt.mk(OCall, "time.Time", resT(0), e.nowSym(in)))
	case "time.Unix":
		if k, ok := args[1].intVal(); ok && k == 0 {
			return e.done(st, e.tt.mk(OCall, "time.Time", resT(0), args[0]))
		}
	case "time.Time.Unix":
		if args[0].op == OCall && args[0].name == "time.Time" {
			return e.done(st, args[0].args[0])
		}
	case "time.Time.Add":
		if args[0].op == OCall && args[0].name == "time.Time" {
			if d, ok := e.tt.DivExact(args[1], 1000000000); ok {
				return e.done(st, e.tt.mk(OCall, "time.Time", resT(0), e.tt.Add(args[0].args[0], d)))
			}
			d := e.tt.mk(OBin, "durfrac", types.Typ[types.Int64], args[1])
			return e.done(st, e.tt.mk(OCall, "time.Time", resT(0), e.tt.Add(args[0].args[0], d)))
		}
	case "time.Time.Before", "time.Time.After":
		if args[0].op == OCall && args[0].name == "time.Time" && args[1].op == OCall && args[1].name == "time.Time" {
			a, b := args[0].args[0], args[1].args[0]
			if name == "time.Time.After" {
				a, b = b, a
			}
			return e.done(st, e.tt.Less(a, b, types.Typ[types.Int64]))
		}
	case "time.Duration.Seconds":
		if d, ok := e.tt.DivExact(args[0], 1000000000); ok {
			return e.done(st, d)
		}
	case "time.Until", "time.Time.Sub":
		if args[0].op == OCall && args[0].name == "time.Time" {
			b := e.nowSym(in)
			if len(args) > 1 && args[1].op == OCall && args[1].name == "time.Time" {
				b = args[1].args[0]
			}
			return e.done(st, e.tt.Scale(e.tt.Sub(args[0].args[0], b), 1000000000))
		}
	case "go-funk.Contains", "slices.Contains", "go-funk.ContainsString", "go-funk.ContainsInt", "go-funk.ContainsInt64":
		return e.done(st, e.containsTerm(st, args[0], args[1], c, in))
	case "go-funk.Filter", "go-funk.Map", "go-funk.FilterString", "go-funk.FilterInt", "go-funk.FilterInt64":
		return e.higher(st, name, args, c, in)
	case "go-funk.Reverse":
		if _, ok := argType(c.Args[0]).Underlying().(*types.Slice); ok {
			return e.higher(st, name, args, c, in)
		}
	case "slices.Clone":
		return e.done(st, e.tt.mk(OAppend, "", args[0].typ, e.tt.Nil(), e.tt.mk(OSpread, "", c.Args[0].Type(), args[0])))
	case "slices.Delete":
		cl := "idx:" + types.TypeString(c.Args[0].Type().Underlying().(*types.Slice).Elem(), nil)
		for _, m := range e.mods {
			m.classes[cl] = true
		}
		e.bumpClass(st, cl)
		cut := func(lo, hi *Term) *Term { return e.tt.mk(OSlice, "", c.Args[0].Type(), args[0], lo, hi) }
		return e.done(st, e.tt.mk(OAppend, "", c.Args[0].Type(), cut(e.tt.Int(0), args[1]),
			e.tt.mk(OSpread, "", c.Args[0].Type(), cut(args[2], e.lenOf(args[0])))))
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints":
		ef := &Effect{kind: "sort", name: name, pos: in.Pos(), args: args, inst: in}
		if len(args) > 1 && args[1].op == OClosure && !e.silent {
			ef.cmp = e.recordComparator(st, args[0], args[1], strings.HasPrefix(name, "slices."), c, in)
		}
		e.emit(st, ef)
		e.dropElems(st, args[0])
		return e.done(st)
	case "json.Marshal":
		err := e.symAt(in, "err", "json.Marshal#1", resT(1))
		v := args[0]
		t := argType(c.Args[0])
		if _, isI := t.Underlying().(*types.Interface); isI && v.typ != nil && v.op != OAlloc {
			t = v.typ
		} else if isI && v.op == OAlloc {
			t = types.NewPointer(v.typ)
		}
		return e.done(st, e.tt.mk(OCall, "json", t, v), err)
	case "json.Unmarshal":
		err := e.symAt(in, "err", "json.Unmarshal#0", resT(0))
		e.emit(st, &Effect{kind: "ext", name: name, pos: in.Pos(), args: args, inst: in})
		e.unjson(st, args[0], args[1], c.Args[1], in)
		return e.done(st, err)
	case "rand.Intn", "rand.Int63n", "rand.Int31n":
		r := e.symAt(in, "rand", name, resT(0))
		e.forget(st, r)
		e.assume(st.facts, e.tt.Less(r, e.tt.Int(0), types.Typ[types.Int64]), false)
		e.assume(st.facts, e.tt.Less(r, args[0], types.Typ[types.Int64]), true)
		e.emit(st, &Effect{kind: "ext", name: name, pos: in.Pos(), args: args, res: r, inst: in})
		return e.done(st, r)
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		kind := strings.ToLower(f.Name())
		e.emit(st, &Effect{kind: kind, name: addrName(args[0]), pos: in.Pos(), addr: args[0], inst: in})
		if e.cfg.Atomic && st.genAll == preLock && (kind == "lock" || kind == "rlock") {
			e.havocShared(st)
			st.genAll = 0
		}
		if e.cfg.LockHavoc && (kind == "lock" || kind == "rlock") {
			e.havocShared(st)
		}
		return e.done(st)
	}
	if strings.HasPrefix(name, "sync.Once.Do") && len(args) == 2 && args[1].op == OClosure && e.W.inRepo(args[1].fn) {
		return e.callFn(st, args[1].fn, nil, args[1].args, in, live)
	}
	pk := name[:strings.IndexByte(name, '.')]
	// deep copies through the dependency's own encoder
	if f.Name() == "GetJSON" && sig.Recv() != nil {
		err := e.symAt(in, "err", name+"#1", resT(1))
		return e.done(st, e.tt.mk(OCall, "json", args[0].typ, args[0]), err)
	}
	if purePkgs[pk] && !strings.HasPrefix(name, "fmt.F") {
		n := sig.Results().Len()
		if pk == "uuid" {
			return e.done(st, e.freshResults(st, name, sig, in)...)
		}
		// variadic arguments are expanded to their elements
		var as []*Term
		for i, a := range args {
			if a.op == OSliceOf && i == len(args)-1 && sig.Variadic() {
				et := c.Args[i].Type().Underlying().(*types.Slice).Elem()
				for k := 0; k < a.n; k++ {
					as = append(as, e.load(st, e.tt.Index(a.args[0], e.tt.Int(int64(k)), et), et))
				}
				continue
			}
			as = append(as, a)
		}
		if name == "fmt.Errorf" || name == "errors.New" {
			return e.done(st, e.tt.mk(OCall, name, resT(0), as...))
		}
		if n == 1 {
			return e.done(st, e.tt.mk(OCall, name, resT(0), as...))
		}
		var rs []*Term
		for i := 0; i < n; i++ {
			rs = append(rs, e.tt.mk(OCall, fmt.Sprintf("%s#%d", name, i), resT(i), as...))
		}
		return e.done(st, rs...)
	}
	// readers of the dependency's data types: equal arguments and unchanged
	// memory give equal results
	if sig.Recv() != nil && (pk == "pokertable" || pk == "pokerface") && sig.Results().Len() > 0 {
		ef := &Effect{kind: "ext", name: name, pos: in.Pos(), args: args, inst: in}
		var rs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, e.tt.mk(OCall, fmt.Sprintf("%s#%d@%d.%d", name, i, st.genAll, st.gen["ext:"+pk]), resT(i), args...))
		}
		ef.res = rs[0]
		e.emit(st, ef)
		return e.done(st, rs...)
	}
	if sig.Recv() != nil && (pk == "pokertable" || pk == "pokerface") {
		st.gen["ext:pokerface"] = e.newGen(st.gen["ext:pokerface"], "ext")
		st.gen["ext:pokertable"] = e.newGen(st.gen["ext:pokertable"], "ext")
	}
	return e.envCall(st, "ext", name, nil, args, sig, in)
}

func (e *Engine) nowSym(in ssa.Instruction) *Term {
	return e.symAt(in, "now", "now", types.Typ[types.Int64])
}

func argType(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		return v.Type()
	}
}

// unjson models decoding what was encoded from a known value: a deep copy.
func (e *Engine) unjson(st *State, data, dst *Term, dv ssa.Value, in ssa.Instruction) {
	dt := argType(dv)
	if _, isI := dt.Underlying().(*types.Interface); isI && dst.op == OAlloc {
		dt = types.NewPointer(dst.typ)
	}
	p, ok := dt.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	et := p.Elem()
	if data.op == OCall && data.name == "json" {
		src := data.args[0]
		n := e.symAt(in, "clone", "clone", types.Typ[types.Int]).n
		st0 := src.typ
		if data.typ != nil {
			st0 = data.typ
		}
		var v *Term
		if ep, ok := et.Underlying().(*types.Pointer); ok && types.Identical(st0, et) && e.load(st, dst, et).op == ONil {
			// an empty pointer is given a new object
			if obj := e.load(st, src, ep.Elem()); obj != nil {
				a := e.allocAt(in, "decoded", "decoded", ep.Elem())
				for ad := range st.mem {
					if root(ad) == a {
						delete(st.mem, ad)
					}
				}
				e.store(st, a, e.cloneWrap(e.explode(obj, ep.Elem()), n, ep.Elem()), ep.Elem())
				e.store(st, dst, a, et)
				return
			}
		}
		if sp, ok := st0.Underlying().(*types.Pointer); ok && types.Identical(sp.Elem(), et) {
			v = e.load(st, src, et)
		} else if types.Identical(st0, et) {
			v = src
		}
		if v != nil {
			e.store(st, dst, e.cloneWrap(e.explode(v, et), n, et), et)
			return
		}
	}
	// unknown content
	if dst.op == OAlloc {
		e.store(st, dst, e.symAt(in, "decoded", "decoded", et), et)
	}
}

func (e *Engine) containsTerm(st *State, s, x *Term, c *ssa.CallCommon, in ssa.Instruction) *Term {
	sl, isSl := argType(c.Args[0]).Underlying().(*types.Slice)
	if isSl && s.op == OSliceOf && s.n <= 32 {
		if s.n == 0 {
			return e.tt.Bool(false)
		}
		var cs []*Term
		ok := true
		for i := 0; i < s.n; i++ {
			v := e.load(st, e.tt.Index(s.args[0], e.tt.Int(int64(i)), sl.Elem()), sl.Elem())
			if s.n == 1 && types.Identical(sl.Elem().Underlying(), types.Typ[types.String]) {
				return e.tt.Eq(v, x, sl.Elem())
			}
			if v.op != OConst {
				ok = false
				break
			}
			cs = append(cs, v)
		}
		if ok {
			return e.inTerm(x, cs)
		}
	}
	return e.tt.mk(OCall, "contains", types.Typ[types.Bool], s, x)
}

func (e *Engine) inTerm(x *Term, cs []*Term) *Term {
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	var u []*Term
	for i, c := range cs {
		if i == 0 || c != cs[i-1] {
			u = append(u, c)
		}
	}
	if x.op == OConst {
		for _, c := range u {
			if c == x {
				return e.tt.Bool(true)
			}
		}
		return e.tt.Bool(false)
	}
	if len(u) == 1 {
		return e.tt.Eq(x, u[0], x.typ)
	}
	return e.tt.mk(OIn, "", types.Typ[types.Bool], append([]*Term{x}, u...)...)
}

// higher models Filter and Map over a slice as one generic iteration.
func (e *Engine) higher(st *State, name string, args []*Term, c *ssa.CallCommon, in ssa.Instruction) []*State {
	sl, ok := argType(c.Args[0]).Underlying().(*types.Slice)
	rev := name == "go-funk.Reverse"
	fn := &Term{fn: in.Parent()}
	if !rev {
		fn = args[1]
		if !ok || fn.op != OClosure || !e.W.inRepo(fn.fn) {
			return e.envCall(st, "ext", name, nil, args, c.Signature(), in)
		}
	}
	e.nloop++
	li := &LoopInfo{id: e.nloop, born: map[*Term]bool{}, gens: map[string]bool{}, seq: args[0], full: true, reverse: rev, pos: in.Pos(), fn: fn.fn}
	act := fmt.Sprintf("%s~L%d", e.act(), li.id)
	e.born = append(e.born, li.born)
	e.bornGens = append(e.bornGens, li.gens)
	e.stack = append(e.stack, &frame{fn.fn, act})
	i := e.symAt(in, "i", "i", types.Typ[types.Int])
	resT := types.Type(sl)
	if name == "go-funk.Map" {
		if sg, ok := argType(c.Args[1]).Underlying().(*types.Signature); ok && sg.Results().Len() == 1 {
			resT = types.NewSlice(sg.Results().At(0).Type())
		}
	}
	sym := e.symAt(in, "res", strings.TrimPrefix(name, "go-funk."), resT)
	s := st.clone()
	outerLog := s.log
	s.log = nil
	e.logStack = append(e.logStack, outerLog)
	defer func() { e.logStack = e.logStack[:len(e.logStack)-1] }()
	e.assume(s.facts, e.tt.Less(i, e.tt.Int(0), types.Typ[types.Int]), false)
	e.assume(s.facts, e.tt.Less(i, e.lenOf(args[0]), types.Typ[types.Int]), true)
	li.idx = i
	ad := e.indexAddr(args[0], i, sl.Elem())
	li.start = s.clone()
	for _, m := range e.materialize(s, ad, in) {
		x := e.load(m, ad, sl.Elem())
		if rev {
			li.conts = append(li.conts, &Cont{st: m, log: m.log, next: map[*Term]*Term{sym: e.tt.mk(OAppend, "", nil, sym, x)}})
			continue
		}
		for _, o := range e.callFn(m, fn.fn, []*Term{x}, fn.args, in, nil) {
			r := o.ret[0]
			o.ret = nil
			if name == "go-funk.Map" {
				li.conts = append(li.conts, &Cont{st: o, log: o.log, next: map[*Term]*Term{sym: e.tt.mk(OAppend, "", nil, sym, r)}})
				continue
			}
			f := o.clone()
			if e.assume(o.facts, r, true) {
				li.conts = append(li.conts, &Cont{st: o, log: o.log, next: map[*Term]*Term{sym: e.tt.mk(OAppend, "", nil, sym, x)}})
			}
			if e.assume(f.facts, r, false) {
				li.conts = append(li.conts, &Cont{st: f, log: f.log, next: map[*Term]*Term{sym: sym}})
			}
		}
	}
	e.stack = e.stack[:len(e.stack)-1]
	e.born = e.born[:len(e.born)-1]
	e.bornGens = e.bornGens[:len(e.bornGens)-1]
	for _, b := range e.born {
		for t := range li.born {
			b[t] = true
		}
	}
	e.loops[li.id] = li
	e.sums[sym] = &Summary{init: e.tt.Nil(), sym: sym, loop: li, priv: true}
	any := false
	for _, ct := range li.conts {
		if ct.log != nil {
			any = true
		}
	}
	st.log = outerLog
	if any {
		st.log = e.appendLog(outerLog, &Effect{kind: "loop", name: "loop", loop: li, pos: li.pos, fn: fn.fn})
	}
	if name == "go-funk.Map" || rev {
		e.assume(st.facts, e.tt.Eq(e.lenOf(sym), e.lenOf(args[0]), types.Typ[types.Int]), true)
	}
	return e.done(st, sym)
}

// recordComparator analyses the less function of a sort for two generic
// positions (by index for package sort, by value for package slices).
func (e *Engine) recordComparator(st *State, s, cmp *Term, byVal bool, c *ssa.CallCommon, in ssa.Instruction) *Comparator {
	sl, ok := argType(c.Args[0]).Underlying().(*types.Slice)
	if !ok || !e.W.inRepo(cmp.fn) {
		return nil
	}
	r := &Comparator{coll: s, elem: sl.Elem()}
	born, gens := map[*Term]bool{}, map[string]bool{}
	e.born = append(e.born, born)
	e.bornGens = append(e.bornGens, gens)
	defer func() {
		e.born = e.born[:len(e.born)-1]
		e.bornGens = e.bornGens[:len(e.bornGens)-1]
		for _, b := range e.born {
			for t := range born {
				b[t] = true
			}
		}
	}()
	r.i = e.symAt(in, "cmpi", "i", types.Typ[types.Int])
	r.j = e.symAt(in, "cmpj", "j", types.Typ[types.Int])
	work := st.clone()
	work.log = nil
	was := e.silent
	e.silent = true
	defer func() { e.silent = was }()
	for _, x := range []*Term{r.i, r.j} {
		e.assume(work.facts, e.tt.Less(x, e.tt.Int(0), types.Typ[types.Int]), false)
		e.assume(work.facts, e.tt.Less(x, e.lenOf(s), types.Typ[types.Int]), true)
	}
	ai, aj := e.indexAddr(s, r.i, r.elem), e.indexAddr(s, r.j, r.elem)
	for _, m := range e.materialize(work, ai, in) {
		for _, m2 := range e.materialize(m, aj, in) {
			args := []*Term{r.i, r.j}
			if byVal {
				args = []*Term{e.load(m2, ai, r.elem), e.load(m2, aj, r.elem)}
			}
			for _, o := range e.callFn(m2, cmp.fn, args, cmp.args, in, nil) {
				r.outs = append(r.outs, &Outcome{entry: e.entry, st: o, ret: o.ret})
			}
		}
	}
	return r
}

// initGlobals runs the package initialisers abstractly so that package-level
// tables have known contents.
func (e *Engine) initGlobals() {
	mut := map[*ssa.Global]bool{}
	for _, sp := range e.W.ssaPkgs {
		for _, m := range sp.Members {
			_ = m
		}
	}
	for fn := range e.W.repoFns {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, isLoad := in.(*ssa.UnOp); isLoad && u.X == g {
						continue
					}
					if fa, isFA := in.(*ssa.IndexAddr); isFA && onlyLoaded(fa) {
						continue
					}
					if fa, isFA := in.(*ssa.FieldAddr); isFA && onlyLoaded(fa) {
						continue
					}
					mut[g] = true
				}
			}
		}
	}
	for _, sp := range e.W.ssaPkgs {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(engineAbort); !ok {
						panic(r)
					}
				}
			}()
			st := newState()
			e.silent = true
			e.stack = []*frame{{init, "init" + sp.Pkg.Path()}}
			if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
				st.mem[e.tt.Global(g)] = e.tt.Bool(false)
			}
			for _, o := range e.callFn(st, init, nil, nil, init, nil) {
				for a, v := range o.mem {
					e.globalMem[a] = v
				}
			}
		}()
		e.silent = false
		e.stack = nil
	}
	for g := range mut {
		e.globalMut[e.tt.Global(g)] = true
	}
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.X != v {
			return false
		}
	}
	return true
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, gen: map[any]int{}, facts: newFacts()}
}

// Run analyses one function with symbolic arguments.
func (e *Engine) Run(label string, fn *ssa.Function, args []*Term, st *State) []*Outcome {
	e.entry = label
	e.stack = []*frame{{fn, "entry:" + label}}
	var outs []*Outcome
	for _, o := range e.callFn(st, fn, args, nil, fn, nil) {
		outs = append(outs, &Outcome{entry: label, st: o, ret: o.ret, args: args})
	}
	e.stack = nil
	e.runAsyncs()
	e.entry = label
	return outs
}

func constStr(t *Term) string {
	if t != nil && t.op == OConst && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv)
	}
	return ""
}
