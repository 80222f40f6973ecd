package flow

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// liveIn gives, for each block, the values that may still be used. Values are
// evaluated where they are used, so the operands of a live value are live too.
func (a *Analysis) liveIn(fn *ssa.Function) []map[ssa.Value]bool {
	if l, ok := a.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	in := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i] = map[ssa.Value]bool{}
	}
	var add func(m map[ssa.Value]bool, v ssa.Value)
	add = func(m map[ssa.Value]bool, v ssa.Value) {
		if v == nil || m[v] {
			return
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi, *ssa.Call, *ssa.Alloc:
			m[v] = true
		case ssa.Instruction:
			m[v] = true
			for _, op := range x.Operands(nil) {
				add(m, *op)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			m := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				idx := -1
				for j, p := range s.Preds {
					if p == b {
						idx = j
					}
				}
				for v := range in[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					m[v] = true
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					add(m, ph.Edges[idx])
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if _, ok := x.(*ssa.Phi); ok {
					break
				}
				for _, op := range x.Operands(nil) {
					add(m, *op)
				}
			}
			for _, x := range b.Instrs {
				if ph, ok := x.(*ssa.Phi); ok && len(*ph.Referrers()) > 0 {
					m[ph] = true
				}
			}
			// Values computed in the block and used later are recomputed here.
			for v := range m {
				if _, ph := v.(*ssa.Phi); ph {
					continue
				}
				if x, ok := v.(ssa.Instruction); ok && x.Block() == b {
					delete(m, v)
				}
			}
			if len(m) != len(in[i]) {
				in[i] = m
				changed = true
			}
		}
	}
	a.live[fn] = in
	return in
}

func (a *Analysis) cellsOf(s *State, roots []Val, allocs map[*ssa.Alloc]bool, syms map[ssa.Value]bool) {
	var visit func(v Val)
	add := func(c *ssa.Alloc) {
		if allocs[c] {
			return
		}
		allocs[c] = true
		visit(s.cells[c])
	}
	visit = func(v Val) {
		switch x := v.(type) {
		case Cell:
			add(x.A)
		case Func:
			for _, b := range x.Binds {
				visit(b)
			}
		case Frozen:
			visit(x.V)
		case RLocker:
			visit(x.L)
		case Sym:
			syms[x.V] = true
		}
	}
	for _, v := range roots {
		visit(v)
	}
	start := make([]*ssa.Alloc, 0, len(allocs))
	for c := range allocs {
		start = append(start, c)
	}
	for _, c := range start {
		visit(s.cells[c])
	}
}

func factSym(f string) string {
	if i := strings.Index(f, "=="); i >= 0 {
		return f[:i]
	}
	return f
}

// prune drops what can no longer matter at the start of a block.
func (a *Analysis) prune(fr *frame, p *path, b *ssa.BasicBlock) {
	live := a.liveIn(fr.fn)[b.Index]
	var roots []Val
	allocs, syms := map[*ssa.Alloc]bool{}, map[ssa.Value]bool{}
	for v, x := range p.env {
		if !live[v] {
			delete(p.env, v)
			continue
		}
		roots = append(roots, x)
	}
	for v := range live {
		if c, ok := v.(*ssa.Alloc); ok {
			allocs[c] = true
		}
		syms[v] = true
	}
	for _, d := range p.defers {
		roots = append(append(roots, d.fn...), d.args...)
	}
	roots = append(append(roots, fr.args...), fr.binds...)
	a.cellsOf(p.s, roots, allocs, syms)
	for c := range p.s.cells {
		if !allocs[c] {
			delete(p.s.cells, c)
		}
	}
	keep := map[string]bool{}
	for v := range syms {
		keep[Sym{v}.key()] = true
	}
	for f := range p.s.facts {
		if !keep[factSym(f)] {
			delete(p.s.facts, f)
		}
	}
}

// project keeps of a state what a callee can see, and gives the rest.
func (a *Analysis) project(s *State, vals []Val) (sub *State, cells map[*ssa.Alloc]Val, facts map[string]bool) {
	allocs, syms := map[*ssa.Alloc]bool{}, map[ssa.Value]bool{}
	a.cellsOf(s, vals, allocs, syms)
	keep := map[string]bool{}
	for v := range syms {
		keep[Sym{v}.key()] = true
	}
	sub = s.clone()
	cells, facts = map[*ssa.Alloc]Val{}, map[string]bool{}
	for c, v := range sub.cells {
		if !allocs[c] {
			cells[c] = v
			delete(sub.cells, c)
		}
	}
	for f, v := range sub.facts {
		if !keep[factSym(f)] {
			facts[f] = v
			delete(sub.facts, f)
		}
	}
	return
}
