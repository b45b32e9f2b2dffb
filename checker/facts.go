package main

import (
	"go/types"
	"math"
	"sort"
)

// Facts is the guard-fact domain: integer intervals (with excluded points) on
// linear forms, allowed / excluded constant sets on other terms, and truth
// values for opaque atoms.

type Iv struct {
	lo, hi int64
	ne     []int64
}

const inf = math.MaxInt64 / 4

func top() Iv { return Iv{-inf, inf, nil} }

func (v *Iv) norm() bool {
	for {
		ch := false
		for _, n := range v.ne {
			if n == v.lo {
				v.lo++
				ch = true
			}
			if n == v.hi {
				v.hi--
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return v.lo <= v.hi
}

type VSet struct {
	allowed map[*Term]bool // nil: any
	excl    map[*Term]bool
}

type Facts struct {
	iv    map[*Term]Iv
	set   map[*Term]*VSet
	atoms map[*Term]bool
}

func newFacts() *Facts {
	return &Facts{map[*Term]Iv{}, map[*Term]*VSet{}, map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{make(map[*Term]Iv, len(f.iv)+4), make(map[*Term]*VSet, len(f.set)+4), make(map[*Term]bool, len(f.atoms)+4)}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.set {
		g.set[k] = v
	}
	for k, v := range f.atoms {
		g.atoms[k] = v
	}
	return g
}

// base returns the normalised linear base of t (no constant, leading
// coefficient positive), with t = s*base + k.
func (tt *TermTable) base(t *Term) (b *Term, s, k int64) {
	l := tt.toLin(t)
	k = l.k
	s = 1
	if tt.leadNeg(l) {
		s = -1
	}
	m := map[*Term]int64{}
	for x, c := range l.m {
		m[x] = c * s
	}
	return tt.fromLin(lin{m, 0}, t.typ), s, k
}

func (e *Engine) ivBase(f *Facts, b *Term) Iv {
	if v, ok := b.intVal(); ok {
		return Iv{v, v, nil}
	}
	r, ok := f.iv[b]
	if !ok {
		r = top()
	}
	if b.op == OLen || b.op == OCall && b.name == "cap" {
		if r.lo < 0 {
			r.lo = 0
		}
	}
	if b.op == OLin {
		lo, hi := b.k, b.k
		for i, a := range b.args {
			x := e.ivBase(f, a)
			c := b.coef[i]
			l, h := x.lo, x.hi
			if c < 0 {
				l, h = h, l
			}
			lo = satAdd(lo, satMul(l, c))
			hi = satAdd(hi, satMul(h, c))
		}
		if lo > r.lo {
			r.lo = lo
		}
		if hi < r.hi {
			r.hi = hi
		}
	}
	return r
}
func satMul(a, c int64) int64 {
	if a >= inf {
		if c > 0 {
			return inf
		}
		return -inf
	}
	if a <= -inf {
		if c > 0 {
			return -inf
		}
		return inf
	}
	return a * c
}
func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		if a <= -inf || b <= -inf {
			return 0
		}
		return inf
	}
	if a <= -inf || b <= -inf {
		return -inf
	}
	return a + b
}

// ivOf returns the interval of an integer term.
func (e *Engine) ivOf(f *Facts, t *Term) Iv {
	b, s, k := e.tt.base(t)
	r := e.ivBase(f, b)
	if s < 0 {
		r.lo, r.hi = -r.hi, -r.lo
		ne := make([]int64, len(r.ne))
		for i, x := range r.ne {
			ne[i] = -x
		}
		r.ne = ne
	}
	out := Iv{satAdd(r.lo, k), satAdd(r.hi, k), nil}
	for _, x := range r.ne {
		out.ne = append(out.ne, x+k)
	}
	return out
}

// eval returns 1 true, -1 false, 0 unknown.
func (e *Engine) eval(f *Facts, t *Term) int {
	switch t.op {
	case OConst:
		if v, ok := t.boolVal(); ok {
			if v {
				return 1
			}
			return -1
		}
	case ONot:
		return -e.eval(f, t.args[0])
	case OEq:
		if t.name == "int" {
			v := e.ivOf(f, t.args[0])
			if v.lo == 0 && v.hi == 0 {
				return 1
			}
			if v.lo > 0 || v.hi < 0 {
				return -1
			}
			for _, n := range v.ne {
				if n == 0 {
					return -1
				}
			}
			return 0
		}
		a, b := t.args[0], t.args[1]
		if b.op == OConst || b.op == ONil {
			return e.inSet(f, a, []*Term{b})
		}
		if v, ok := f.atoms[t]; ok {
			return tri(v)
		}
		// both pinned to constants
		sa, sb := f.set[a], f.set[b]
		if sa != nil && sb != nil && sa.allowed != nil && sb.allowed != nil {
			common := false
			for k := range sa.allowed {
				if sb.allowed[k] {
					common = true
				}
			}
			if !common {
				return -1
			}
			if len(sa.allowed) == 1 && len(sb.allowed) == 1 {
				return 1
			}
		}
		return 0
	case OLess:
		v := e.ivOf(f, t.args[0])
		if v.hi < 0 {
			return 1
		}
		if v.lo >= 0 {
			return -1
		}
		return 0
	case OIn:
		return e.inSet(f, t.args[0], t.args[1:])
	}
	if v, ok := f.atoms[t]; ok {
		return tri(v)
	}
	return 0
}
func tri(b bool) int {
	if b {
		return 1
	}
	return -1
}

func (e *Engine) inSet(f *Facts, a *Term, cs []*Term) int {
	if a.op == OConst {
		for _, c := range cs {
			if c == a {
				return 1
			}
		}
		return -1
	}
	if isIntType(a.typ) {
		iv := e.ivOf(f, a)
		all := true
		any := false
		if iv.hi-iv.lo > 64 {
			all = false
			any = true
		} else {
			for x := iv.lo; x <= iv.hi; x++ {
				skip := false
				for _, n := range iv.ne {
					if n == x {
						skip = true
					}
				}
				if skip {
					continue
				}
				in := false
				for _, c := range cs {
					if v, ok := c.intVal(); ok && v == x {
						in = true
					}
				}
				if in {
					any = true
				} else {
					all = false
				}
			}
		}
		if all && any {
			return 1
		}
		if !any {
			return -1
		}
		return 0
	}
	if len(cs) == 1 && cs[0].op == ONil && nonNil(a) {
		return -1
	}
	s := f.set[a]
	if s == nil {
		return 0
	}
	if s.allowed != nil {
		all, any := true, false
		for k := range s.allowed {
			in := false
			for _, c := range cs {
				if c == k {
					in = true
				}
			}
			if in {
				any = true
			} else {
				all = false
			}
		}
		if all {
			return 1
		}
		if !any {
			return -1
		}
		return 0
	}
	for _, c := range cs {
		if !s.excl[c] {
			return 0
		}
	}
	return -1
}

func (e *Engine) restrict(f *Facts, a *Term, cs []*Term, in bool) bool {
	old := f.set[a]
	n := &VSet{}
	if in {
		n.allowed = map[*Term]bool{}
		for _, c := range cs {
			if old != nil {
				if old.allowed != nil && !old.allowed[c] {
					continue
				}
				if old.excl[c] {
					continue
				}
			}
			n.allowed[c] = true
		}
		if len(n.allowed) == 0 {
			return false
		}
	} else {
		if old != nil && old.allowed != nil {
			n.allowed = map[*Term]bool{}
			for k := range old.allowed {
				n.allowed[k] = true
			}
			for _, c := range cs {
				delete(n.allowed, c)
			}
			if len(n.allowed) == 0 {
				return false
			}
		} else {
			n.excl = map[*Term]bool{}
			if old != nil {
				for k := range old.excl {
					n.excl[k] = true
				}
			}
			for _, c := range cs {
				n.excl[c] = true
			}
		}
	}
	f.set[a] = n
	return true
}

// assume refines f with t == v; false means contradiction.
func (e *Engine) assume(f *Facts, t *Term, v bool) bool {
	switch e.eval(f, t) {
	case 1:
		return v
	case -1:
		return !v
	}
	switch t.op {
	case ONot:
		return e.assume(f, t.args[0], !v)
	case OEq:
		if t.name == "int" {
			return e.assumeIv(f, t.args[0], func(iv *Iv) {
				if v {
					if iv.lo < 0 {
						iv.lo = 0
					}
					if iv.hi > 0 {
						iv.hi = 0
					}
				} else {
					iv.ne = append(append([]int64{}, iv.ne...), 0)
				}
			})
		}
		b := t.args[1]
		if b.op == OConst || b.op == ONil {
			return e.restrict(f, t.args[0], []*Term{b}, v)
		}
	case OLess:
		return e.assumeIv(f, t.args[0], func(iv *Iv) {
			if v {
				if iv.hi > -1 {
					iv.hi = -1
				}
			} else {
				if iv.lo < 0 {
					iv.lo = 0
				}
			}
		})
	case OIn:
		if !isIntType(t.args[0].typ) {
			return e.restrict(f, t.args[0], t.args[1:], v)
		}
		if v {
			lo, hi := int64(inf), int64(-inf)
			for _, c := range t.args[1:] {
				if x, ok := c.intVal(); ok {
					if x < lo {
						lo = x
					}
					if x > hi {
						hi = x
					}
				}
			}
			f.atoms[t] = true
			return e.assumeIv(f, t.args[0], func(iv *Iv) {
				if iv.lo < lo {
					iv.lo = lo
				}
				if iv.hi > hi {
					iv.hi = hi
				}
			})
		}
		for _, c := range t.args[1:] {
			if !e.assume(f, e.tt.Eq(t.args[0], c, types.Typ[types.Int]), false) {
				return false
			}
		}
		return true
	}
	f.atoms[t] = v
	return true
}

func (e *Engine) assumeIv(f *Facts, t *Term, upd func(*Iv)) bool {
	b, s, k := e.tt.base(t)
	cur := e.ivOf(f, t)
	upd(&cur)
	if !cur.norm() {
		return false
	}
	// back to base: t = s*b + k  =>  b = s*(t-k)
	r := Iv{satAdd(cur.lo, -k), satAdd(cur.hi, -k), nil}
	for _, x := range cur.ne {
		r.ne = append(r.ne, x-k)
	}
	if s < 0 {
		r.lo, r.hi = -r.hi, -r.lo
		for i := range r.ne {
			r.ne[i] = -r.ne[i]
		}
	}
	sort.Slice(r.ne, func(i, j int) bool { return r.ne[i] < r.ne[j] })
	var ne []int64
	for i, x := range r.ne {
		if (i == 0 || x != r.ne[i-1]) && x > r.lo && x < r.hi {
			ne = append(ne, x)
		}
	}
	r.ne = ne
	f.iv[b] = r
	// a sum of lengths bounds each of them
	if b.op == OLin && r.hi < inf {
		for i, a := range b.args {
			if a.op != OLen || b.coef[i] != 1 {
				return true
			}
		}
		for _, a := range b.args {
			hi := r.hi - b.k
			if !e.assumeIv(f, a, func(iv *Iv) {
				if iv.hi > hi {
					iv.hi = hi
				}
			}) {
				return false
			}
		}
	}
	return true
}

func ivEq(a, b Iv) bool {
	if a.lo != b.lo || a.hi != b.hi || len(a.ne) != len(b.ne) {
		return false
	}
	for i := range a.ne {
		if a.ne[i] != b.ne[i] {
			return false
		}
	}
	return true
}

func setEq(a, b *VSet) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if (a.allowed == nil) != (b.allowed == nil) || len(a.allowed) != len(b.allowed) || len(a.excl) != len(b.excl) {
		return false
	}
	for k := range a.allowed {
		if !b.allowed[k] {
			return false
		}
	}
	for k := range a.excl {
		if !b.excl[k] {
			return false
		}
	}
	return true
}

func joinSet(a, b *VSet) *VSet {
	if a == nil || b == nil {
		return nil
	}
	switch {
	case a.allowed != nil && b.allowed != nil:
		r := &VSet{allowed: map[*Term]bool{}}
		for k := range a.allowed {
			r.allowed[k] = true
		}
		for k := range b.allowed {
			r.allowed[k] = true
		}
		return r
	case a.allowed == nil && b.allowed == nil:
		r := &VSet{excl: map[*Term]bool{}}
		for k := range a.excl {
			if b.excl[k] {
				r.excl[k] = true
			}
		}
		if len(r.excl) == 0 {
			return nil
		}
		return r
	case a.allowed == nil:
		return joinSet(b, a)
	}
	r := &VSet{excl: map[*Term]bool{}}
	for k := range b.excl {
		if !a.allowed[k] {
			r.excl[k] = true
		}
	}
	if len(r.excl) == 0 {
		return nil
	}
	return r
}

// join weakens a to the join of a and b.
func joinFacts(a, b *Facts) *Facts {
	r := newFacts()
	for k, x := range a.iv {
		if y, ok := b.iv[k]; ok {
			z := Iv{min64(x.lo, y.lo), max64(x.hi, y.hi), nil}
			for _, n := range x.ne {
				hit := n < y.lo || n > y.hi
				for _, m := range y.ne {
					if m == n {
						hit = true
					}
				}
				if hit {
					z.ne = append(z.ne, n)
				}
			}
			for _, n := range y.ne {
				if n < x.lo || n > x.hi {
					z.ne = append(z.ne, n)
				}
			}
			if z.lo > -inf || z.hi < inf || len(z.ne) > 0 {
				r.iv[k] = z
			}
		}
	}
	for k, x := range a.set {
		if s := joinSet(x, b.set[k]); s != nil {
			r.set[k] = s
		}
	}
	for k, x := range a.atoms {
		if y, ok := b.atoms[k]; ok && x == y {
			r.atoms[k] = x
		}
	}
	return r
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
