package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed value numbers (a Herbrand domain with linear integer
// normalisation).  Two SSA values that carry the same term are equal on every
// execution; distinct terms may or may not be equal.

type Op uint8

const (
	OConst     Op = iota
	ONil          // typed nil / zero reference
	OSym          // unknown
	OAlloc        // address of an object created on the path
	OGlobal       // address of a package variable
	OField        // address of a field: base address, aux *types.Var
	OIndex        // address of an element: container, index
	OMapC         // pseudo address of a map's content
	OInit         // contents of an address at a memory generation
	OSel          // field of an opaque struct value
	OStruct       // struct value, args are the fields
	OTuple        // multiple results
	OLin          // integer linear form
	OBin          // other binary operation
	OEq           // equality atom
	OLess         // linear form < 0 atom  (args[0] < 0)
	OLessX        // opaque <
	OIn           // membership of args[0] in constant set args[1:]
	ONot          // negation
	OLen          // length
	OCall         // pure external function
	OClosure      // function value with bindings
	OAppend       // append(args[0], args[1:]...)
	OSpread       // spread argument of an append
	OSliceOf      // slice covering a whole array allocation; n = length
	OSlice        // sub-slice
	OClone        // deep copy number n of args[0]
	OMapEmpty     // empty map content
	OMapPut       // content, key, value
	OMapDel       // content, key
	OZero         // zero value of a type without a simpler form
	OMergeable    // unused
)

type Term struct {
	id   int
	op   Op
	args []*Term
	cv   constant.Value
	fv   *types.Var
	fn   *ssa.Function
	typ  types.Type
	name string
	n    int
	coef []int64 // OLin: parallel to args; k in n64
	k    int64
}

type TermTable struct {
	m    map[string]*Term
	next int
	nsym int
}

func newTermTable() *TermTable { return &TermTable{m: map[string]*Term{}} }

func (tt *TermTable) intern(key string, mk func() *Term) *Term {
	if t, ok := tt.m[key]; ok {
		return t
	}
	t := mk()
	tt.next++
	t.id = tt.next
	tt.m[key] = t
	return t
}

func ids(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func (tt *TermTable) Const(v constant.Value, typ types.Type) *Term {
	if v.Kind() == constant.Float {
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			v = iv
		}
	}
	return tt.intern("c:"+v.Kind().String()+":"+v.ExactString(), func() *Term { return &Term{op: OConst, cv: v, typ: typ} })
}
func (tt *TermTable) Int(k int64) *Term {
	return tt.Const(constant.MakeInt64(k), types.Typ[types.Int])
}
func (tt *TermTable) Bool(b bool) *Term { return tt.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (tt *TermTable) Str(s string) *Term {
	return tt.Const(constant.MakeString(s), types.Typ[types.String])
}
func (tt *TermTable) Nil() *Term {
	return tt.intern("nil", func() *Term { return &Term{op: ONil} })
}
func (tt *TermTable) Sym(name string, typ types.Type) *Term {
	tt.nsym++
	n := tt.nsym
	return tt.intern(fmt.Sprintf("s:%d", n), func() *Term { return &Term{op: OSym, name: name, typ: typ, n: n} })
}
func (tt *TermTable) Alloc(name string, typ types.Type) *Term {
	tt.nsym++
	n := tt.nsym
	return tt.intern(fmt.Sprintf("a:%d", n), func() *Term { return &Term{op: OAlloc, name: name, typ: typ, n: n} })
}
func (tt *TermTable) Global(g *ssa.Global) *Term {
	return tt.intern(fmt.Sprintf("g:%p", g), func() *Term { return &Term{op: OGlobal, name: g.Pkg.Pkg.Name() + "." + g.Name(), typ: g.Type()} })
}
func (tt *TermTable) Field(base *Term, fv *types.Var) *Term {
	return tt.intern(fmt.Sprintf("f:%d:%p", base.id, fv), func() *Term { return &Term{op: OField, args: []*Term{base}, fv: fv, typ: fv.Type()} })
}
func (tt *TermTable) Index(base, idx *Term, elem types.Type) *Term {
	return tt.intern(fmt.Sprintf("i:%d:%d", base.id, idx.id), func() *Term { return &Term{op: OIndex, args: []*Term{base, idx}, typ: elem} })
}
func (tt *TermTable) MapC(m *Term, typ types.Type) *Term {
	return tt.intern(fmt.Sprintf("mc:%d", m.id), func() *Term { return &Term{op: OMapC, args: []*Term{m}, typ: typ} })
}
func (tt *TermTable) Init(addr *Term, gen string, typ types.Type) *Term {
	return tt.intern(fmt.Sprintf("ld:%d:%s", addr.id, gen), func() *Term { return &Term{op: OInit, args: []*Term{addr}, name: gen, typ: typ} })
}
func (tt *TermTable) Struct(typ types.Type, fields []*Term) *Term {
	return tt.intern("st:"+types.TypeString(typ, nil)+ids(fields), func() *Term { return &Term{op: OStruct, args: fields, typ: typ} })
}
func (tt *TermTable) Tuple(args []*Term) *Term {
	return tt.intern("tu"+ids(args), func() *Term { return &Term{op: OTuple, args: args} })
}
func (tt *TermTable) Sel(v *Term, fv *types.Var) *Term {
	return tt.intern(fmt.Sprintf("sel:%d:%p", v.id, fv), func() *Term { return &Term{op: OSel, args: []*Term{v}, fv: fv, typ: fv.Type()} })
}
func (tt *TermTable) mk(op Op, name string, typ types.Type, args ...*Term) *Term {
	return tt.intern(fmt.Sprintf("o%d:%s%s", op, name, ids(args)), func() *Term { return &Term{op: op, args: args, name: name, typ: typ} })
}
func (tt *TermTable) mkN(op Op, n int, typ types.Type, args ...*Term) *Term {
	return tt.intern(fmt.Sprintf("n%d:%d%s", op, n, ids(args)), func() *Term { return &Term{op: op, args: args, n: n, typ: typ} })
}
func (tt *TermTable) Closure(fn *ssa.Function, binds []*Term) *Term {
	return tt.intern(fmt.Sprintf("cl:%p%s", fn, ids(binds)), func() *Term { return &Term{op: OClosure, fn: fn, args: binds, typ: fn.Signature} })
}
func (tt *TermTable) Zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool(false)
		case u.Info()&types.IsString != 0:
			return tt.Str("")
		case u.Info()&types.IsNumeric != 0:
			return tt.Int(0)
		}
		return tt.Nil()
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = tt.Zero(u.Field(i).Type())
		}
		return tt.Struct(typ, fs)
	case *types.Array:
		return tt.mk(OZero, types.TypeString(typ, nil), typ)
	}
	return tt.Nil()
}

// ---- linear integer arithmetic ----

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

type lin struct {
	m map[*Term]int64
	k int64
}

func (tt *TermTable) toLin(t *Term) lin {
	switch t.op {
	case OConst:
		if v, ok := constant.Int64Val(constant.ToInt(t.cv)); ok && t.cv.Kind() == constant.Int {
			return lin{map[*Term]int64{}, v}
		}
	case OLin:
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.coef[i]
		}
		return lin{m, t.k}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}

func (tt *TermTable) fromLin(l lin, typ types.Type) *Term {
	var ts []*Term
	for t, c := range l.m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return tt.Int(l.k)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.m[ts[0]] == 1 && l.k == 0 {
		return ts[0]
	}
	co := make([]int64, len(ts))
	var b strings.Builder
	for i, t := range ts {
		co[i] = l.m[t]
		fmt.Fprintf(&b, ",%d*%d", co[i], t.id)
	}
	return tt.intern(fmt.Sprintf("lin:%d%s", l.k, b.String()), func() *Term {
		return &Term{op: OLin, args: ts, coef: co, k: l.k, typ: typ}
	})
}

func (tt *TermTable) addLin(a, b *Term, sb int64, typ types.Type) *Term {
	la, lb := tt.toLin(a), tt.toLin(b)
	r := lin{map[*Term]int64{}, la.k + sb*lb.k}
	for t, c := range la.m {
		r.m[t] += c
	}
	for t, c := range lb.m {
		r.m[t] += sb * c
	}
	return tt.fromLin(r, typ)
}
func (tt *TermTable) Add(a, b *Term) *Term { return tt.addLin(a, b, 1, a.typ) }
func (tt *TermTable) Sub(a, b *Term) *Term { return tt.addLin(a, b, -1, a.typ) }
func (tt *TermTable) Scale(a *Term, c int64) *Term {
	la := tt.toLin(a)
	r := lin{map[*Term]int64{}, la.k * c}
	for t, x := range la.m {
		r.m[t] = x * c
	}
	return tt.fromLin(r, a.typ)
}

// DivExact divides every coefficient when possible.
func (tt *TermTable) DivExact(a *Term, c int64) (*Term, bool) {
	la := tt.toLin(a)
	if la.k%c != 0 {
		return nil, false
	}
	r := lin{map[*Term]int64{}, la.k / c}
	for t, x := range la.m {
		if x%c != 0 {
			return nil, false
		}
		r.m[t] = x / c
	}
	return tt.fromLin(r, a.typ), true
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.cv.Kind() == constant.Int {
		v, ok := constant.Int64Val(t.cv)
		return v, ok
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == OConst && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) boolVal() (bool, bool) {
	if t.op == OConst && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

func (tt *TermTable) Not(a *Term) *Term {
	if v, ok := a.boolVal(); ok {
		return tt.Bool(!v)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return tt.mk(ONot, "", types.Typ[types.Bool], a)
}

// Eq builds an equality atom.
func (tt *TermTable) Eq(a, b *Term, typ types.Type) *Term {
	if a == b {
		return tt.Bool(true)
	}
	if a.op == OConst && b.op == OConst {
		if a.cv.Kind() == b.cv.Kind() {
			return tt.Bool(a.cv.ExactString() == b.cv.ExactString())
		}
	}
	if isIntType(typ) || isIntType(a.typ) && isIntType(b.typ) {
		d := tt.Sub(a, b)
		if v, ok := d.intVal(); ok {
			return tt.Bool(v == 0)
		}
		// normalise sign
		l := tt.toLin(d)
		if tt.leadNeg(l) {
			d = tt.Scale(d, -1)
		}
		return tt.mk(OEq, "int", types.Typ[types.Bool], d, tt.Int(0))
	}
	// booleans: x == true
	if v, ok := b.boolVal(); ok {
		if v {
			return a
		}
		return tt.Not(a)
	}
	if v, ok := a.boolVal(); ok {
		if v {
			return b
		}
		return tt.Not(b)
	}
	if a.op == OConst || a.op == ONil {
		a, b = b, a
	}
	if b.op == ONil && nonNil(a) {
		return tt.Bool(false)
	}
	if b.op != OConst && b.op != ONil && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, "", types.Typ[types.Bool], a, b)
}

func nonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OGlobal, OField, OIndex, OClosure, OSliceOf, OStruct, OConst:
		return true
	case OCall:
		return t.name == "errors.New" || t.name == "fmt.Errorf" || strings.HasPrefix(t.name, "nonnil:")
	}
	return false
}

func (tt *TermTable) leadNeg(l lin) bool {
	var best *Term
	for t, c := range l.m {
		if c != 0 && (best == nil || t.id < best.id) {
			best = t
		}
	}
	return best != nil && l.m[best] < 0
}

// Less builds a<b.
func (tt *TermTable) Less(a, b *Term, typ types.Type) *Term {
	if isIntType(typ) {
		d := tt.Sub(a, b)
		if v, ok := d.intVal(); ok {
			return tt.Bool(v < 0)
		}
		return tt.mk(OLess, "", types.Typ[types.Bool], d)
	}
	if a == b {
		return tt.Bool(false)
	}
	if a.op == OConst && b.op == OConst && a.cv.Kind() == b.cv.Kind() && a.cv.Kind() == constant.String {
		return tt.Bool(constant.StringVal(a.cv) < constant.StringVal(b.cv))
	}
	return tt.mk(OLessX, "", types.Typ[types.Bool], a, b)
}

func fieldOwner(fv *types.Var) string {
	if n, ok := fieldOwners[fv]; ok {
		return n
	}
	return "?"
}

var fieldOwners = map[*types.Var]string{}

// fieldName is "Struct.Field".
func fieldName(fv *types.Var) string { return fieldOwner(fv) + "." + fv.Name() }

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 14 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	list := func(xs []*Term) string {
		var r []string
		for _, x := range xs {
			r = append(r, x.str(d+1))
		}
		return strings.Join(r, ", ")
	}
	switch t.op {
	case OConst:
		return t.cv.String()
	case ONil:
		return "nil"
	case OSym:
		return fmt.Sprintf("%s'%d", t.name, t.n)
	case OAlloc:
		return fmt.Sprintf("&new(%s)'%d", t.name, t.n)
	case OGlobal:
		return "&" + t.name
	case OField:
		return a(0) + "." + t.fv.Name()
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OMapC:
		return "content(" + a(0) + ")"
	case OInit:
		g := t.name
		if g == "0.0" {
			g = ""
		} else {
			g = "@" + g
		}
		return strings.TrimPrefix(a(0), "&") + g
	case OSel:
		return a(0) + "." + t.fv.Name()
	case OStruct:
		tn := types.TypeString(t.typ, func(*types.Package) string { return "" })
		if len(t.args) > 8 {
			return tn + "{…" + strconv.Itoa(t.id) + "}"
		}
		return tn + "{" + list(t.args) + "}"
	case OTuple:
		return "(" + list(t.args) + ")"
	case OLin:
		var b strings.Builder
		for i := range t.args {
			c := t.coef[i]
			if i > 0 || c < 0 {
				if c < 0 {
					b.WriteString("-")
				} else {
					b.WriteString("+")
				}
			}
			if c < 0 {
				c = -c
			}
			if c != 1 {
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(t.args[i].str(d + 1))
		}
		if t.k != 0 {
			fmt.Fprintf(&b, "%+d", t.k)
		}
		return "(" + b.String() + ")"
	case OEq:
		return a(0) + " == " + a(1)
	case OLess:
		return a(0) + " < 0"
	case OLessX:
		return a(0) + " < " + a(1)
	case ONot:
		return "!(" + a(0) + ")"
	case OLen:
		return "len(" + a(0) + ")"
	case OIn:
		return a(0) + " in {" + list(t.args[1:]) + "}"
	case OClosure:
		return "func " + t.fn.Name()
	case OClone:
		return "copy" + strconv.Itoa(t.n) + "(" + a(0) + ")"
	}
	nm := map[Op]string{OBin: "bin", OCall: "", OAppend: "append", OSpread: "...", OSliceOf: "slice", OSlice: "sub", OMapEmpty: "emptymap", OMapPut: "put", OMapDel: "del", OZero: "zero"}[t.op]
	return nm + t.name + "(" + list(t.args) + ")"
}
