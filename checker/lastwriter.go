package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops without a break that record what they met (found = true, idx = i): the
// state after the loop is split into "no iteration wrote" and, per recording
// iteration, "this iteration wrote last".

type lwVar struct {
	sym  *Term
	init *Term
}

// lastWriters lists the loop-carried scalars whose every next value is either
// unchanged or independent of the carried value.
func (e *Engine) lastWriters(li *LoopInfo, l *natLoop, phis []phiRef, memSym map[*Term]*Term) []lwVar {
	var r []lwVar
	check := func(sym *Term) {
		changed, kept := false, false
		for _, c := range li.conts {
			n := c.next[sym]
			switch {
			case n == nil:
				return
			case n == sym:
				kept = true
			case e.mentions(n, sym):
				return
			default:
				changed = true
			}
		}
		if changed && kept {
			r = append(r, lwVar{sym, e.sums[sym].init})
		}
	}
	for _, p := range phis {
		used := false
		for _, ref := range *p.phi.Referrers() {
			if _, dbg := ref.(*ssa.DebugRef); !dbg && !l.blocks[ref.Block()] {
				used = true
			}
		}
		if used {
			check(p.sym)
		}
	}
	var ms []*Term
	for _, sym := range memSym {
		ms = append(ms, sym)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	for _, sym := range ms {
		check(sym)
	}
	return r
}

func (e *Engine) substState(s *State, r *renaming) bool {
	f := newFacts()
	old := s.facts
	s.facts = f
	if !e.addFacts(f, old, r) {
		return false
	}
	for v, t := range s.env {
		s.env[v] = e.subst(t, r)
	}
	mem := make(map[*Term]*Term, len(s.mem))
	for a, v := range s.mem {
		mem[e.subst(a, r)] = e.subst(v, r)
	}
	s.mem = mem
	return true
}

func (e *Engine) splitLastWriter(li *LoopInfo, st *State, vars []lwVar) []*State {
	var writers []int
	for n, c := range li.conts {
		for _, v := range vars {
			if c.next[v.sym] != v.sym {
				writers = append(writers, n)
				break
			}
		}
	}
	if len(writers) == 0 || len(writers) > 12 {
		return []*State{st}
	}
	var outs []*State
	// nobody wrote
	s := st.clone()
	r := &renaming{m: map[*Term]*Term{}, gens: map[string]bool{}, memo: map[*Term]*Term{}}
	for _, v := range vars {
		r.m[v.sym] = v.init
	}
	if e.substState(s, r) {
		for _, n := range writers {
			s.facts.atoms[e.neverAtom(li, n)] = true
		}
		outs = append(outs, s)
	}
	for _, n := range writers {
		c := li.conts[n]
		s := st.clone()
		var which []lwVar
		var vals []*Term
		for _, v := range vars {
			if c.next[v.sym] != v.sym {
				which = append(which, v)
				vals = append(vals, c.next[v.sym])
			}
		}
		got, ok := e.instantiate(s, elemCase{vals: vals, cont: c, loop: li}, fmt.Sprintf("lw%d:%d", li.id, n), li.header)
		if !ok {
			continue
		}
		r := &renaming{m: map[*Term]*Term{}, gens: map[string]bool{}, memo: map[*Term]*Term{}}
		for i, v := range which {
			r.m[v.sym] = got[i]
		}
		if e.substState(s, r) {
			outs = append(outs, s)
		}
	}
	return outs
}
