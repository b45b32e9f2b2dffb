package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C40: failures of other components are passed on ----

// errFlow follows the error of every call to another component through the
// program: on every path on which it may not be nil it has to reach the
// listener of errors or be returned, and then the same holds at the callers.
type errFlow struct {
	w        *World
	c        *Ctx
	sinks    map[*types.Var]bool      // callback fields that take an error
	transfer map[*ssa.Function]string // functions that return another component's error
	params   map[*ssa.Function]map[int]*flowEnd
	closures []*ssa.Function
	caught   map[*ssa.Function]map[ssa.Value]bool // cells an enclosing function reads
}

// flowEnd: where a failure may end up.
type flowEnd struct {
	lost     token.Pos // a path on which it is lost
	isLost   bool
	returned bool
	busy     bool
}

var errType = types.Universe.Lookup("error").Type()

func isErrT(t types.Type) bool { return t != nil && types.Identical(t, errType) }

// errResult: the position of the error among the results, or -1.
func errResult(s *types.Signature) int {
	for i := 0; i < s.Results().Len(); i++ {
		if isErrT(s.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// source describes a call whose failure is one of another component ("" if
// it is not).
func (a *errFlow) source(ci ssa.CallInstruction) string {
	cc := ci.Common()
	if errResult(cc.Signature()) < 0 {
		return ""
	}
	if cc.IsInvoke() {
		n, _ := types.Unalias(cc.Value.Type()).(*types.Named)
		if n == nil || n.Obj().Pkg() == nil {
			return ""
		}
		m := cc.Method.Name()
		// releasing the tables of an ended competition is best effort
		if m == "ReleaseTable" {
			return ""
		}
		switch n.Obj().Pkg().Name() + "." + n.Obj().Name() {
		case "pokercompetition.TableManagerBackend", "pokertable.Manager", "pokertable.TableEngine":
			return n.Obj().Name() + "." + m
		}
		if n.Obj().Pkg().Name() == "regulator" {
			return n.Obj().Name() + "." + m
		}
		if n.Obj().Pkg() == a.w.blind {
			return n.Obj().Name() + "." + m
		}
		// a component of the repository behind an interface
		if p := n.Obj().Pkg(); a.w.ssaPkgs[p] != nil {
			if impl := a.c.implOf(p, n.Obj().Name()); impl != nil {
				if f := a.w.method(impl, m); f != nil {
					return a.transfer[f]
				}
			}
		}
		return ""
	}
	if f := cc.StaticCallee(); f != nil {
		if strings.HasSuffix(f.String(), "timebank.TimeBank).NewTaskWithDeadline") {
			return "TimeBank.NewTaskWithDeadline"
		}
		if strings.Contains(f.String(), "weedbox/pokerface") || strings.Contains(f.String(), "regulator.") && !a.w.inRepo(f) {
			return f.Name()
		}
		return a.transfer[f]
	}
	// a function value: what the repository may put there
	for _, f := range a.closures {
		if a.transfer[f] != "" && types.Identical(f.Signature.Results(), cc.Signature().Results()) && types.Identical(f.Signature.Params(), cc.Signature().Params()) {
			return a.transfer[f]
		}
	}
	return ""
}

// sink: the call hands the value to a listener of errors.
func (a *errFlow) sink(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return false
	}
	u, ok := cc.Value.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return ok && a.sinks[st.Field(fa.Field)]
}

type vset map[ssa.Value]bool

func (s vset) key() string {
	var l []string
	for v := range s {
		l = append(l, v.Name()+"|"+v.Parent().Name())
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (s vset) with(v ssa.Value, in bool) vset {
	if s[v] == in {
		return s
	}
	n := vset{}
	for x := range s {
		n[x] = true
	}
	if in {
		n[v] = true
	} else {
		delete(n, v)
	}
	return n
}

// follow walks all paths of fn from an instruction on; held are the values
// and variables that hold the failure.
func (a *errFlow) follow(b *ssa.BasicBlock, at int, held vset) *flowEnd {
	end := &flowEnd{}
	seen := map[string]bool{}
	var walk func(b, from *ssa.BasicBlock, at int, held vset)
	lost := func(p token.Pos) {
		if !end.isLost {
			end.isLost, end.lost = true, p
		}
	}
	edge := func(b, to *ssa.BasicBlock, held vset) {
		// the variables of the next block
		n := held
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range to.Preds {
				if p == b {
					n = n.with(phi, held[phi.Edges[i]])
				}
			}
		}
		walk(to, b, 0, n)
	}
	walk = func(b, from *ssa.BasicBlock, at int, held vset) {
		k := itoa(b.Index) + "/" + itoa(at) + "/" + held.key()
		if seen[k] {
			return
		}
		seen[k] = true
		for i := at; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi:
			case *ssa.Store:
				switch addr := in.Addr.(type) {
				case *ssa.Alloc:
					held = held.with(addr, held[in.Val])
				case *ssa.FreeVar:
					if held[in.Val] {
						if !a.readOutside(b.Parent(), addr) {
							lost(in.Pos())
						}
						return // the enclosing function has it
					}
					held = held.with(addr, false)
				case *ssa.IndexAddr:
					if held[in.Val] {
						held = held.with(addr.X, true)
					}
				case *ssa.FieldAddr:
					if held[in.Val] {
						held = held.with(addr.X, true)
					}
				}
			case *ssa.Return:
				for _, r := range in.Results {
					if held[r] {
						end.returned = true
						return
					}
				}
				lost(in.Pos())
				return
			case *ssa.Panic:
				lost(in.Pos())
				return
			case *ssa.RunDefers:
				for _, ob := range b.Parent().Blocks {
					for _, oi := range ob.Instrs {
						if d, ok := oi.(*ssa.Defer); ok && a.closureReports(&d.Call, held) {
							return
						}
					}
				}
			case *ssa.If:
				t, f := a.branch(in.Cond, held)
				if t {
					edge(b, b.Succs[0], held)
				}
				if f {
					edge(b, b.Succs[1], held)
				}
				return
			case *ssa.Jump:
				edge(b, b.Succs[0], held)
				return
			case ssa.CallInstruction:
				cc := in.Common()
				var hit []int
				for j, arg := range cc.Args {
					if held[arg] {
						hit = append(hit, j)
					}
				}
				res := false
				if len(hit) > 0 || a.capturesHeld(cc, held) {
					if _, isDefer := in.(*ssa.Defer); !isDefer || len(hit) > 0 {
						if a.sink(cc) && len(hit) > 0 || a.closureReports(cc, held) {
							return
						}
						if f := cc.StaticCallee(); f != nil && a.w.inRepo(f) {
							for _, j := range hit {
								e := a.param(f, j)
								if !e.isLost {
									if !e.returned {
										return
									}
									res = true
								}
							}
						} else if len(hit) > 0 {
							// wrapped, joined, appended
							res = true
						}
					}
				}
				if v, ok := in.(ssa.Value); ok {
					t := v.Type()
					_, tuple := t.(*types.Tuple)
					_, slice := t.Underlying().(*types.Slice)
					held = held.with(v, res && (isErrT(t) || tuple || slice))
				}
			case ssa.Value:
				res := false
				switch x := in.(type) {
				case *ssa.UnOp:
					res = x.Op == token.MUL && held[x.X]
				case *ssa.IndexAddr:
					res = held[x.X]
				case *ssa.FieldAddr:
					res = held[x.X]
				case *ssa.Extract:
					res = held[x.Tuple] && (isErrT(x.Type()) || !a.hasErr(x.Tuple))
				case *ssa.Slice:
					res = held[x.X]
				case *ssa.MakeInterface:
					res = held[x.X]
				case *ssa.ChangeInterface:
					res = held[x.X]
				case *ssa.ChangeType:
					res = held[x.X]
				case *ssa.TypeAssert:
					res = held[x.X]
				case *ssa.Field:
					res = held[x.X]
				case *ssa.Range:
					res = held[x.X]
				case *ssa.Next:
					res = held[x.Iter]
				case *ssa.Alloc:
					// a new variable
				}
				held = held.with(in, res)
			}
		}
	}
	walk(b, nil, at, held)
	return end
}

func (a *errFlow) hasErr(v ssa.Value) bool {
	t, ok := v.Type().(*types.Tuple)
	for i := 0; ok && i < t.Len(); i++ {
		if isErrT(t.At(i).Type()) {
			return true
		}
	}
	return false
}

// branch: which outcomes of a condition leave the failure to be handled.
func (a *errFlow) branch(cond ssa.Value, held vset) (onTrue, onFalse bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			f, t := a.branch(x.X, held)
			return t, f
		}
	case *ssa.BinOp:
		l, r := x.X, x.Y
		if held[r] {
			l, r = r, l
		}
		if held[l] && (x.Op == token.EQL || x.Op == token.NEQ) {
			// no failure, or one of the own errors
			own := false
			if k, ok := r.(*ssa.Const); ok && k.IsNil() {
				own = true
			}
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				g, isG := u.X.(*ssa.Global)
				own = isG && g.Pkg != nil && a.w.ssaPkgs[g.Pkg.Pkg] != nil
			}
			if own {
				return x.Op == token.NEQ, x.Op == token.EQL
			}
		}
		// a pass over a list of failures: its end is reached after all of them
		if n, ok := x.Y.(*ssa.Call); ok && x.Op == token.LSS {
			if bi, ok := n.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && held[n.Call.Args[0]] {
				return true, false
			}
		}
		// a list of failures that is empty
		if n, ok := x.X.(*ssa.Call); ok {
			if bi, ok := n.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && held[n.Call.Args[0]] {
				if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0 {
					switch x.Op {
					case token.GTR, token.NEQ:
						return true, false
					case token.EQL, token.LEQ:
						return false, true
					}
				}
			}
		}
	case *ssa.Call:
		// errors.Is(err, one of the own errors)
		if f := x.Call.StaticCallee(); f != nil && f.String() == "errors.Is" && held[x.Call.Args[0]] {
			if u, ok := x.Call.Args[1].(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && a.w.ssaPkgs[g.Pkg.Pkg] != nil {
					return false, true
				}
			}
		}
	}
	return true, true
}

// capturesHeld: a closure that is called captures a variable that holds it.
func (a *errFlow) capturesHeld(cc *ssa.CallCommon, held vset) bool {
	m, ok := cc.Value.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	for _, b := range m.Bindings {
		if held[b] {
			return true
		}
	}
	return false
}

// closureReports: the called closure passes on what a captured variable holds.
func (a *errFlow) closureReports(cc *ssa.CallCommon, held vset) bool {
	m, ok := cc.Value.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	fn := m.Fn.(*ssa.Function)
	in := vset{}
	for i, b := range m.Bindings {
		if held[b] {
			in[fn.FreeVars[i]] = true
		}
	}
	if len(in) == 0 || len(fn.Blocks) == 0 {
		return false
	}
	e := a.follow(fn.Blocks[0], 0, in)
	return !e.isLost && !e.returned
}

// readOutside: an enclosing function passes on what the captured variable
// holds.
func (a *errFlow) readOutside(fn *ssa.Function, fv *ssa.FreeVar) bool {
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	p := fn.Parent()
	if p == nil || idx < 0 {
		return false
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			m, ok := in.(*ssa.MakeClosure)
			if !ok || m.Fn != fn {
				continue
			}
			switch cell := m.Bindings[idx].(type) {
			case *ssa.FreeVar:
				return a.readOutside(p, cell)
			case *ssa.Alloc:
				for i, x := range b.Instrs {
					if x == in {
						e := a.follow(b, i+1, vset{cell: true})
						if e.returned {
							a.transferTo(p, "a task")
						}
						return !e.isLost
					}
				}
			}
		}
	}
	return false
}

func (a *errFlow) transferTo(fn *ssa.Function, what string) {
	if a.transfer[fn] == "" {
		a.transfer[fn] = what
	}
}

// param: what a function does with a failure it is given.
func (a *errFlow) param(fn *ssa.Function, i int) *flowEnd {
	m := a.params[fn]
	if m == nil {
		m = map[int]*flowEnd{}
		a.params[fn] = m
	}
	if e := m[i]; e != nil {
		return e
	}
	m[i] = &flowEnd{busy: true}
	if len(fn.Blocks) == 0 || i >= len(fn.Params) {
		m[i] = &flowEnd{isLost: true}
		return m[i]
	}
	e := a.follow(fn.Blocks[0], 0, vset{fn.Params[i]: true})
	m[i] = e
	return e
}

// ruleC40: no failure of another component is lost.
func ruleC40(c *Ctx) {
	w := c.w
	a := &errFlow{w: w, c: c, sinks: map[*types.Var]bool{}, transfer: map[*ssa.Function]string{}, params: map[*ssa.Function]map[int]*flowEnd{}}
	takesErr := func(s *types.Signature) bool {
		for i := 0; i < s.Params().Len(); i++ {
			if isErrT(s.Params().At(i).Type()) {
				return true
			}
		}
		return false
	}
	for fv := range w.slots {
		if s, ok := fv.Type().Underlying().(*types.Signature); ok && takesErr(s) {
			a.sinks[fv] = true
		}
	}
	if !c.need(len(a.sinks) >= 2, "the listeners of errors") {
		return
	}
	fns := w.allFns()
	var mine []*ssa.Function
	for _, f := range fns {
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg == nil || p.Pkg.Pkg != w.root && p.Pkg.Pkg != w.blind {
			continue
		}
		mine = append(mine, f)
		if f.Parent() != nil {
			a.closures = append(a.closures, f)
		}
	}
	type lostAt struct {
		pos  token.Pos
		fn   *ssa.Function
		what string
	}
	// until no more functions are found to return failures
	var losses []lostAt
	sources := 0
	for round := 0; ; round++ {
		n := len(a.transfer)
		a.params = map[*ssa.Function]map[int]*flowEnd{}
		losses, sources = nil, 0
		for _, f := range mine {
			for _, b := range f.Blocks {
				for i, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					what := a.source(ci)
					if what == "" {
						continue
					}
					sources++
					v, isCall := in.(*ssa.Call)
					if !isCall {
						losses = append(losses, lostAt{in.Pos(), f, what})
						continue
					}
					e := a.follow(b, i+1, vset{v: true})
					if e.returned {
						a.transferTo(f, what)
					}
					if e.isLost {
						losses = append(losses, lostAt{in.Pos(), f, what})
					}
				}
			}
		}
		if len(a.transfer) == n {
			break
		}
	}
	for _, l := range losses {
		c.fail("lost:"+l.what, l.pos, l.fn.String(), "a failure of %s is neither returned nor reported on some path", l.what)
	}
	// a failure the blind clock reports reaches the competition's listener
	listeners := 0
	for _, f := range mine {
		if f.Parent() == nil || !takesErr(f.Signature) || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() || !strings.HasPrefix(ci.Common().Method.Name(), "On") {
					continue
				}
				for _, arg := range ci.Common().Args {
					if ct, ok := arg.(*ssa.ChangeType); ok {
						arg = ct.X
					}
					if m, ok := arg.(*ssa.MakeClosure); ok {
						arg = m.Fn
					}
					if arg == f {
						listeners++
						for i, p := range f.Params {
							if isErrT(p.Type()) && a.param(f, i).isLost {
								c.fail("lost:"+ci.Common().Method.Name(), f.Pos(), f.String(), "a failure the clock reports is not passed on")
							}
						}
					}
				}
			}
		}
	}
	c.need(sources >= 20, "calls of other components")
	c.count("calls of other components", sources)
	c.count("functions that return their failures", len(a.transfer))
	c.count("obligations", sources+listeners)
	c.errorsReal()
}

// errorsReal: only failures are reported.
func (c *Ctx) errorsReal() {
	n := 0
	for _, m := range allOps {
		cfg := siteCfg([]string{"CompetitionMeta.Mode"}, "callback:OnCompetitionErrorUpdated")
		r := c.op(cfg, m, nil)
		if r == nil {
			continue
		}
		for _, s := range r.e.sites {
			f := s.eff
			n++
			c.count("obligations", 1)
			q := r.e.q(s.facts)
			handed := false // the failure a listener is told
			for _, a := range r.e.asyncs {
				for _, x := range a.params {
					handed = handed || len(f.args) == 2 && f.args[1] == x && isErrT(x.typ)
				}
			}
			if len(f.args) != 2 || !handed && !q.isErr(f.args[1]) {
				c.fail("report:nothing", f.pos, stackStr(f), "something that is no failure is reported as one")
			}
			if f.args[0] != r.theComp(r.st0) && r.e.pathOf(f.args[0]) != r.e.pathOf(r.theComp(r.st0)) && !strings.HasPrefix(s.entry, "CreateCompetition") {
				c.fail("report:other", f.pos, stackStr(f), "a failure of another competition is reported (%s)", f.args[0])
			}
		}
	}
	c.need(n > 0, "reports of failures")
	c.count("reports", n)
}
