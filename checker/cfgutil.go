package main

import (
	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo     map[*ssa.BasicBlock]int
	order   []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*natLoop
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveAft map[ssa.Instruction]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*natLoop{}}
	fnInfos[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := fi.loops[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if _, ok := fi.rpo[p]; ok {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	fi.liveness(fn)
	return fi
}

func tracksValue(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (fi *fnInfo) liveness(fn *ssa.Function) {
	fi.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	liveOut := func(b *ssa.BasicBlock) map[ssa.Value]bool {
		out := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range fi.liveIn[s] {
				out[v] = true
			}
			// phi operands on this edge
			for i, p := range s.Preds {
				if p == b {
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if tracksValue(ph.Edges[i]) {
							out[ph.Edges[i]] = true
						}
					}
				}
			}
		}
		return out
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.order) - 1; i >= 0; i-- {
			b := fi.order[i]
			live := liveOut(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				stepLive(b.Instrs[j], live)
			}
			// phis are "defined on the edge": keep them live-in for our purposes
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					if usedValue(ph) {
						live[ph] = true
					}
				} else {
					break
				}
			}
			if len(live) != len(fi.liveIn[b]) {
				fi.liveIn[b] = live
				ch = true
			}
		}
	}
	fi.liveAft = map[ssa.Instruction]map[ssa.Value]bool{}
	for _, b := range fi.order {
		live := liveOut(b)
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			in := b.Instrs[j]
			if _, ok := in.(ssa.CallInstruction); ok {
				c := map[ssa.Value]bool{}
				for v := range live {
					c[v] = true
				}
				fi.liveAft[in] = c
			}
			stepLive(in, live)
		}
	}
}

func usedValue(v ssa.Value) bool {
	r := v.Referrers()
	if r == nil {
		return true
	}
	for _, u := range *r {
		if _, dbg := u.(*ssa.DebugRef); !dbg {
			return true
		}
	}
	return false
}

func stepLive(in ssa.Instruction, live map[ssa.Value]bool) {
	if v, ok := in.(ssa.Value); ok {
		delete(live, v)
	}
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	if _, ok := in.(*ssa.DebugRef); ok {
		return
	}
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && tracksValue(*op) {
			live[*op] = true
			// a list lives as long as its measured length: a loop over the
			// indices may use nothing else of it
			if c, ok := (*op).(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && tracksValue(c.Call.Args[0]) {
					live[c.Call.Args[0]] = true
				}
			}
		}
	}
}
