package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the type-checked program under analysis.
type World struct {
	repo       string
	pkgs       []*packages.Package
	prog       *ssa.Program
	ssaPkgs    map[*types.Package]*ssa.Package
	root       *types.Package // pokercompetition
	blind      *types.Package
	actor      *types.Package
	modelField map[*types.Var]bool
	slots      map[*types.Var]string // callback field -> registering API method
	nfuncs     int
	nfiles     int
	repoFns    map[*ssa.Function]bool
	writes     map[*types.Var]bool
}

func LoadWorld(repo string) (*World, error) {
	cfg := &packages.Config{Dir: repo, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes | packages.NeedModule,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{repo: repo, pkgs: ps, ssaPkgs: map[*types.Package]*ssa.Package{}, modelField: map[*types.Var]bool{}, repoFns: map[*ssa.Function]bool{}, slots: map[*types.Var]string{}}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
		w.nfiles += len(p.CompiledGoFiles)
	}
	prog, spk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for i, p := range ps {
		w.ssaPkgs[p.Types] = spk[i]
		switch p.Types.Name() {
		case "pokercompetition":
			w.root = p.Types
		case "pokerblind":
			w.blind = p.Types
		case "actor":
			w.actor = p.Types
		}
	}
	if w.root == nil || w.blind == nil || w.actor == nil {
		return nil, fmt.Errorf("expected packages not found")
	}
	// struct field owners, also for the direct dependencies
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package, d int)
	visit = func(p *types.Package, d int) {
		if p == nil || seen[p] || d > 2 {
			return
		}
		seen[p] = true
		inRepo := w.ssaPkgs[p] != nil
		for _, n := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				pre := ""
				if !inRepo || p != w.root {
					pre = p.Name() + "."
				}
				fieldOwners[st.Field(i)] = pre + tn.Name()
				if inRepo && tn.Exported() && st.Field(i).Exported() {
					w.modelField[st.Field(i)] = true
				}
			}
		}
		for _, im := range p.Imports() {
			visit(im, d+1)
		}
	}
	for _, p := range ps {
		visit(p.Types, 0)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if w.inRepo(fn) && len(fn.Blocks) > 0 {
			w.nfuncs++
			w.repoFns[fn] = true
		}
	}
	w.findSlots()
	return w, nil
}

func (w *World) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return w.ssaPkgs[f.Pkg.Pkg] != nil
		}
		if o := f.Origin(); o != nil && o != f {
			if o.Pkg != nil {
				return w.ssaPkgs[o.Pkg.Pkg] != nil
			}
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return w.ssaPkgs[fn.Object().Pkg()] != nil
	}
	// synthetic wrappers (bound methods, thunks)
	return fn.Synthetic != "" && len(fn.Blocks) > 0
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.prog.Fset.Position(p)
	f := ps.Filename
	if strings.HasPrefix(f, w.repo+"/") {
		f = f[len(w.repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// namedType looks a type up by exported name.
func (w *World) namedType(p *types.Package, name string) *types.Named {
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// implementers returns concrete named types of p whose pointer implements iface.
func (w *World) implementers(p *types.Package, iface *types.Interface) []*types.Named {
	var r []*types.Named
	for _, n := range p.Scope().Names() {
		tn, ok := p.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(types.NewPointer(nt), iface) {
			r = append(r, nt)
		}
	}
	return r
}

func (w *World) method(t *types.Named, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return w.prog.MethodValue(s)
		}
	}
	return nil
}

func (w *World) fn(p *types.Package, name string) *ssa.Function {
	sp := w.ssaPkgs[p]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// fieldVar returns the field "Struct.Field" of the root package (or pkg.Struct.Field).
func (w *World) fieldVar(p *types.Package, strct, field string) *types.Var {
	n := w.namedType(p, strct)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	return nil
}

// findSlots discovers where the On... registration methods keep their listener.
func (w *World) findSlots() {
	for _, p := range []*types.Package{w.root, w.blind, w.actor} {
		for _, n := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			ms := w.prog.MethodSets.MethodSet(types.NewPointer(nt))
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i)
				if !strings.HasPrefix(m.Obj().Name(), "On") {
					continue
				}
				fn := w.prog.MethodValue(m)
				if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
					continue
				}
				if _, isF := fn.Params[1].Type().Underlying().(*types.Signature); !isF {
					continue
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(engineAbort); !ok {
								panic(r)
							}
						}
					}()
					e := NewEngine(w, &Config{NoAsync: true})
					par := e.tt.Sym("fn", fn.Params[1].Type())
					e.Run("slot", fn, []*Term{e.tt.Sym("recv", fn.Params[0].Type()), par}, newState())
					for _, s := range e.sites {
						if s.eff.kind == "store" && s.eff.val == par && s.eff.addr.op == OField {
							w.slots[s.eff.addr.fv] = m.Obj().Name()
						}
					}
				}()
			}
		}
	}
}

// written: the field is stored to in an object that was not just made, once
// the competition is there.
func (w *World) written(fv *types.Var) bool {
	if w.writes == nil {
		w.writes = map[*types.Var]bool{}
		for fn := range w.repoFns {
			top := fn
			for top.Parent() != nil {
				top = top.Parent()
			}
			// before there are any operations
			if n := top.Name(); n == "CreateCompetition" || strings.HasPrefix(n, "On") || strings.HasPrefix(n, "With") || strings.HasPrefix(n, "New") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					for _, r := range *fa.Referrers() {
						switch x := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr, *ssa.IndexAddr:
							// parts have their own class
						case *ssa.Store:
							if x.Addr == fa {
								w.writes[st.Field(fa.Field)] = true
							}
						default:
							w.writes[st.Field(fa.Field)] = true
						}
					}
				}
			}
		}
	}
	return w.writes[fv]
}

// allFns lists the functions of the repository in a fixed order.
func (w *World) allFns() []*ssa.Function {
	var l []*ssa.Function
	for f := range w.repoFns {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].Pos() != l[j].Pos() {
			return l[i].Pos() < l[j].Pos()
		}
		return l[i].String() < l[j].String()
	})
	return l
}
