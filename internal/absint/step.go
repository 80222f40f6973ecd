package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) set(s *State, v ssa.Value, x Val) { s.top().Regs[v] = x }

// outcomes continues with the results of a modelled operation: all but the
// first become forks.
func (m *Machine) finish(s *State, reg ssa.Value, outs []Outcome) {
	if len(outs) == 0 {
		m.kill(s)
		return
	}
	cont := -1
	for i, o := range outs {
		f := o.S.top()
		if reg != nil && o.V != nil {
			f.Regs[reg] = o.V
		}
		f.PC++
		if o.S == s {
			cont = i
		} else {
			m.Fork(o.S)
		}
	}
	if cont < 0 {
		m.kill(s)
	}
}

func (m *Machine) enter(s *State, to *ssa.BasicBlock) {
	f := s.top()
	from := f.Block
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	head := m.loopHead(to)
	back := head && to.Dominates(from)
	// parallel phi evaluation
	type pv struct {
		ph *ssa.Phi
		v  Val
	}
	var phis []pv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, pv{ph, m.val(s, ph.Edges[pi])})
	}
	f.Prev, f.Block = from, to
	for _, p := range phis {
		f.Regs[p.ph] = p.v
	}
	f.PC = len(phis)
	if head {
		if !back {
			f.visits[to] = 1
			for _, p := range phis {
				f.phiNew[p.ph] = p.v
				delete(f.phiOld, p.ph)
			}
		} else {
			f.visits[to]++
			finite := m.finiteRange(s, to)
			for _, p := range phis {
				if finite {
					break
				}
				m.widenPhi(s, f, to, p.ph)
			}
			m.foldSeqs(s)
		}
		for _, p := range phis {
			f.phiOld[p.ph] = f.Regs[p.ph]
		}
		if m.H.Fold != nil {
			g := map[string]Lin{}
			for k, v := range s.Ghost {
				if l, ok := LinOf(v); ok && !strings.HasPrefix(k, "len:") {
					g[k] = l
				}
			}
			if f.ghostOld == nil {
				f.ghostOld = map[*ssa.BasicBlock]map[string]Lin{}
			}
			f.ghostOld[to] = g
		}
		if f.visits[to] > 400 {
			panic(undecided("loop does not converge in " + f.Fn.String()))
		}
	}
	if head && m.H.Head != nil {
		m.H.Head(s)
	}
	if head || len(to.Preds) > 1 {
		h := s.Hash()
		if m.visited[h] {
			m.Merged++
			m.kill(s)
			return
		}
		m.visited[h] = true
		if m.DumpStates && head {
			fmt.Printf("HEAD %s block %d visits %d: %s\n", f.Fn.Name(), to.Index, f.visits[to], h)
		}
	}
}

// finiteRange reports whether a loop head steps through a map whose entries
// are all known; such a loop ends by itself.
func (m *Machine) finiteRange(s *State, b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		it, ok := m.val(s, n.Iter).(VIter)
		return ok && s.Obj(s.Obj(it.Obj).M).Lazy == ""
	}
	return false
}

func termDepth(t *Term) int {
	d := 0
	for _, a := range t.Args {
		x := 0
		switch a := a.(type) {
		case VStr:
			x = termDepth(a.T)
		case VOpaque:
			x = termDepth(a.T)
		case VNum:
			if a.L != nil {
				for _, y := range a.L.T {
					if z := termDepth(y.A); z > x {
						x = z
					}
				}
			}
		}
		if x > d {
			d = x
		}
	}
	return d + 1
}

// scanLoop reports a loop that calls nothing.
func (m *Machine) scanLoop(h *ssa.BasicBlock) bool {
	if r, ok := m.scan[h]; ok {
		return r
	}
	body := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if !body[b] {
			body[b] = true
			for _, p := range b.Preds {
				add(p)
			}
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			add(p)
		}
	}
	r := true
	for b := range body {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, builtin := c.Common().Value.(*ssa.Builtin); !builtin {
					r = false
				}
			}
		}
	}
	if m.scan == nil {
		m.scan = map[*ssa.BasicBlock]bool{}
	}
	m.scan[h] = r
	return r
}

// widenPhi generalises a loop-carried value: a compound expression is given a
// fresh name, and every other occurrence of it in the state is rewritten in
// terms of that name, so relations with other loop-carried values survive.
func (m *Machine) widenPhi(s *State, f *Frame, b *ssa.BasicBlock, ph *ssa.Phi) {
	v, old := f.Regs[ph], f.phiOld[ph]
	n := f.visits[b]
	widenAfter, unroll := m.WidenAfter, m.Unroll
	if m.ScanLoops && m.scanLoop(b) {
		widenAfter, unroll = 0, 2
	}
	if n <= widenAfter {
		return
	}
	switch v := v.(type) {
	case VNum:
		if v.L == nil {
			if n >= 3 && v.B.deps() != 0 {
				nv := s.SetVar(ph.Name())
				s.AssumeZero(nv.Xor(v.B))
				s.rewrite(&rewriter{bv: func(b BV) BV {
					if b.EqualBV(v.B) {
						return nv
					}
					return b
				}})
			}
			return
		}
		if old != nil && Key(old) == Key(v) {
			return
		}
		if len(v.L.T) == 1 && v.L.C == 0 && v.L.T[0].K == 1 && v.L.T[0].A.Op == "sym" {
			return // already just a name
		}
		if v.L.IsConst() {
			if n <= unroll+1+widenAfter {
				return
			}
			if ol, ok := LinOf(old); !ok || !ol.IsConst() {
				return // not a counter
			}
		}
		x := s.Sym(ph.Name())
		l := *v.L
		var inv []Lin
		// candidate invariants: what was known of the previous name, and the
		// bound given by the first value
		if ol, ok := LinOf(old); ok && len(ol.T) == 1 && ol.C == 0 && ol.T[0].A.Op == "sym" {
			ok := ol.T[0].A.Key()
			for _, fct := range s.Lins {
				has := false
				for _, t := range fct.T {
					if t.A.Key() == ok {
						has = true
					}
				}
				if has {
					// fct[old := new]
					cand := Lin{C: fct.C}
					for _, t := range fct.T {
						if t.A.Key() == ok {
							cand = cand.add(l, t.K)
						} else {
							cand = cand.add(linAtom(t.A), t.K)
						}
					}
					if s.geFact(cand) {
						sym := Lin{C: fct.C}
						for _, t := range fct.T {
							if t.A.Key() == ok {
								sym = sym.add(linAtom(x), t.K)
							} else {
								sym = sym.add(linAtom(t.A), t.K)
							}
						}
						inv = append(inv, sym)
					}
				}
			}
		}
		if fl, ok := LinOf(f.phiNew[ph]); ok {
			if s.geFact(l.add(fl, -1)) {
				inv = append(inv, linAtom(x).add(fl, -1))
			} else if s.geFact(fl.add(l, -1)) {
				inv = append(inv, fl.add(linAtom(x), -1))
			}
		}
		if l.IsConst() {
			f.Regs[ph] = numLin(linAtom(x))
			// counters that move in step with the loop variable stay related to it
			if ol, ok := LinOf(old); ok && ol.IsConst() && ol.C != l.C {
				step := l.C - ol.C
				for k, was := range f.ghostOld[b] {
					now, ok := LinOf(s.Ghost[k])
					if !ok {
						continue
					}
					d := now.add(was, -1)
					if d.IsConst() && d.C != 0 && d.C%step == 0 {
						s.Ghost[k] = numLin(now.add(linAtom(x).add(l, -1), d.C/step))
					}
				}
			}
		} else {
			f.Regs[ph] = numLin(linAtom(x))
			if ol, ok := LinOf(old); ok && len(l.T) > 1 && len(ol.T) == 1 && ol.T[0].K == 1 && ol.C == 0 && ol.T[0].A.Op == "sym" {
				// the previous value in terms of the new one
				rest := l.add(ol, -1)
				use := !rest.mentions(ol.T[0].A)
				for _, in := range b.Instrs {
					q, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pl, ok := LinOf(f.phiOld[q]); ok && q != ph {
						for _, t := range pl.T {
							use = use && !rest.mentions(t.A)
						}
					}
				}
				if use {
					s.SubstAtom(ol.T[0].A, linAtom(x).add(rest, -1))
				}
			}
			if len(l.T) == 1 && l.T[0].K == 1 && (l.T[0].A.Op == "first" || l.T[0].A.Op == "last" || l.T[0].A.Op == "sym") {
				s.SubstAtom(l.T[0].A, linAtom(x).add(linConst(-l.C), 1))
				// bounds do not grow from one round to the next
				xk := x.Key()
				for i, f := range s.Lins {
					if len(f.T) == 1 && f.T[0].A.Key() == xk && f.T[0].K*l.C > 0 {
						s.Lins[i] = Lin{C: f.C + f.T[0].K*l.C, T: f.T}
					}
				}
			}
			s.rewrite(&rewriter{lin: func(k Lin) Lin {
				if k.IsConst() {
					return k
				}
				if d := k.add(l, -1); d.IsConst() {
					return linAtom(x).add(d, 1)
				}
				if len(l.T) >= 2 {
					for _, sgn := range []int64{1, -1} {
						if d := k.add(l, -sgn); len(d.T) == len(k.T)-len(l.T) {
							return linAtom(x).scale(sgn).add(d, 1)
						}
					}
				}
				return k
			}})
		}
		for _, l := range inv {
			if !s.geDepth(l, 2) {
				s.Lins = append(s.Lins, l)
			}
		}
		s.prune()
	case VStr:
		if n < 2 || v.T.Op == "sym" || v.T.Op == "const" {
			return
		}
		if old != nil && Key(old) == Key(v) {
			return
		}
		if n == 2 && termDepth(v.T) <= 3 && v.T.Op != "cat" {
			return
		}
		x := s.Sym(ph.Name())
		s.SubstTerm(v.T, x)
		f.Regs[ph] = VStr{x}
	}
}

// foldSeqs summarises the explicit elements of sequences at a loop head; the
// length gets a fresh name, in which everything that depends on it is rewritten.
func (m *Machine) foldSeqs(s *State) {
	if m.H.Fold == nil {
		return
	}
	s.gc()
	var ids []int
	for id := range s.Heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.Heap[id]
		if o == nil || o.Kind != 'q' || o.Bytes != nil {
			continue
		}
		if o.Rest != nil && len(o.At) > 0 {
			o = s.Mut(id)
			o.At = nil
		}
		if len(o.Elems) == 0 && o.Rest != nil {
			// only the length changed
			if l := *o.RestN; !(len(l.T) == 1 && l.T[0].K == 1 && l.C == 0) {
				m.nameLen(s, id, l)
			}
			continue
		}
		if len(o.Elems) == 0 {
			continue
		}
		var tm Val
		ok := true
		for _, e := range o.Elems {
			t, y := m.H.Fold(s, e)
			if s.dead {
				return
			}
			if !y || (tm != nil && Key(tm) != Key(t)) {
				ok = false
				break
			}
			tm = t
		}
		if !ok || (o.RestN != nil && o.Rest != nil && Key(o.Rest) != Key(tm)) {
			continue
		}
		l := s.seqLen(id)
		o = s.Mut(id)
		o.Elems = nil
		o.Rest = tm
		o.RestN = &l
		m.nameLen(s, id, l)
	}
}

// nameLen gives the length of a summarised sequence a fresh name.
func (m *Machine) nameLen(s *State, id int, l Lin) {
	x := linAtom(s.Sym("n"))
	nonneg := s.geFact(l)
	pos := s.geFact(l.add(linConst(-1), 1))
	if !l.IsConst() {
		s.rewrite(&rewriter{lin: func(k Lin) Lin {
			if k.IsConst() {
				return k
			}
			if d := k.add(l, -1); d.IsConst() {
				return x.add(d, 1)
			}
			return k
		}})
	} else if m.H.Counts == nil || m.H.Counts(s.Obj(id).Rest) {
		// constants are told apart from the length only by the scenario
		for _, k := range s.lenGhosts() {
			if g, ok := LinOf(s.Ghost[k]); ok && g.IsConst() {
				s.Ghost[k] = numLin(x.add(linConst(g.C-l.C), 1))
			}
		}
	}
	// lower bounds do not grow from one round to the next
	xk := x.T[0].A.Key()
	for i, f := range s.Lins {
		if len(f.T) == 1 && f.T[0].K == 1 && f.C < -1 && f.T[0].A.Key() == xk {
			s.Lins[i] = Lin{C: -1, T: f.T}
		}
	}
	o := s.Mut(id)
	o.RestN = &x
	if nonneg {
		s.Lins = append(s.Lins, x)
	}
	if pos {
		s.Lins = append(s.Lins, x.add(linConst(-1), 1))
	}
}

// lenGhosts lists the ghost counters that follow the length of a sequence.
func (s *State) lenGhosts() []string {
	var r []string
	for k := range s.Ghost {
		if strings.HasPrefix(k, "len:") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func (m *Machine) step(s *State) {
	f := s.top()
	in := f.Block.Instrs[f.PC]
	if m.Debug && m.DumpStates && false {
		fmt.Println(len(s.Frames), f.Fn.Name(), in.String())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := s.New(&Obj{Kind: 'c', Typ: t, V: m.Zero(s, t), Label: in.Comment})
		f.Regs[in] = VPtr{Obj: id}
		f.PC++
	case *ssa.BinOp:
		f.Regs[in] = m.binop(s, in)
		f.PC++
	case *ssa.UnOp:
		m.unop(s, in)
	case *ssa.ChangeType:
		f.Regs[in] = m.val(s, in.X)
		f.PC++
	case *ssa.ChangeInterface:
		f.Regs[in] = m.val(s, in.X)
		f.PC++
	case *ssa.MakeInterface:
		v := m.val(s, in.X)
		f.Regs[in] = VIface{in.X.Type(), v}
		f.PC++
	case *ssa.Convert:
		m.convert(s, in)
	case *ssa.MultiConvert:
		f.Regs[in] = m.val(s, in.X)
		f.PC++
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range in.Bindings {
			bind = append(bind, m.val(s, b))
		}
		f.Regs[in] = VFunc{in.Fn.(*ssa.Function), bind}
		f.PC++
	case *ssa.MakeMap:
		id := s.New(&Obj{Kind: 'm', Typ: in.Type()})
		f.Regs[in] = VMap{id}
		f.PC++
	case *ssa.MakeChan:
		f.Regs[in] = VOpaque{T: s.Sym("chan"), NonNil: true, Uniq: true}
		f.PC++
	case *ssa.MakeSlice:
		l, _ := LinOf(m.val(s, in.Len))
		o := &Obj{Kind: 'q', Typ: in.Type()}
		et := in.Type().Underlying().(*types.Slice).Elem()
		if l.IsConst() && l.C <= 64 {
			for i := int64(0); i < l.C; i++ {
				o.Elems = append(o.Elems, m.Zero(s, et))
			}
		} else {
			o.Bytes = s.Sym("make")
			o.RestN = &l
		}
		f.Regs[in] = VSlice{s.New(o)}
		f.PC++
	case *ssa.FieldAddr:
		switch x := m.val(s, in.X).(type) {
		case VPtr:
			f.Regs[in] = VPtr{x.Obj, append(append([]Step(nil), x.Path...), Step{Field: in.Field})}
		case VOpaque:
			if !x.NonNil && s.Truth(m.isNil(s, x)) == 1 {
				m.panics(s, in, nil, "nil dereference")
				return
			}
			f.Regs[in] = VOpaque{T: App("field"+fmt.Sprint(in.Field), x), NonNil: true}
		case VNil:
			m.panics(s, in, nil, "nil dereference")
			return
		default:
			panic(undecided(fmt.Sprintf("field of %T", x)))
		}
		f.PC++
	case *ssa.Field:
		switch x := m.val(s, in.X).(type) {
		case VStruct:
			f.Regs[in] = x.F[in.Field]
		default:
			f.Regs[in] = m.Unknown(s, in.Type(), "field")
		}
		f.PC++
	case *ssa.IndexAddr:
		m.indexAddr(s, in)
	case *ssa.Index:
		m.index(s, in)
	case *ssa.Lookup:
		m.lookup(s, in)
	case *ssa.MapUpdate:
		m.mapUpdate(s, in)
	case *ssa.Store:
		switch p := m.val(s, in.Addr).(type) {
		case VPtr:
			v := m.val(s, in.Val)
			if m.H.Store != nil {
				m.H.Store(m, s, in, p, v)
			}
			m.store(s, p, v)
		case VOpaque:
			// a store into an unmodelled object has no effect here
		case VNil:
			m.panics(s, in, nil, "nil dereference")
			return
		}
		f.PC++
	case *ssa.Extract:
		t, ok := m.val(s, in.Tuple).(VTuple)
		if !ok || in.Index >= len(t.F) {
			panic(undecided("extract from a non-tuple"))
		}
		f.Regs[in] = t.F[in.Index]
		f.PC++
	case *ssa.Slice:
		m.slice(s, in)
	case *ssa.SliceToArrayPointer:
		f.Regs[in] = s.Opq("arrptr", true, false)
		f.PC++
	case *ssa.TypeAssert:
		m.typeAssert(s, in)
	case *ssa.Range:
		switch x := m.val(s, in.X).(type) {
		case VMap:
			f.Regs[in] = VIter{s.New(&Obj{Kind: 'i', M: x.Obj, Seen: map[string]bool{}})}
		case VNil:
			f.Regs[in] = VNil{}
		default:
			f.Regs[in] = s.Opq("iter", true, false)
		}
		f.PC++
	case *ssa.Next:
		m.next(s, in)
	case *ssa.Jump:
		m.enter(s, f.Block.Succs[0])
	case *ssa.If:
		c, ok := m.val(s, in.Cond).(VBool)
		if !ok {
			panic(undecided("condition is not a predicate"))
		}
		switch s.Truth(c.P) {
		case 1:
			m.enter(s, f.Block.Succs[0])
		case 0:
			m.enter(s, f.Block.Succs[1])
		default:
			n := s.Clone()
			if n.Assume(c.P, false) {
				m.enterGuard(n, n.top().Block.Succs[1])
			}
			if s.Assume(c.P, true) {
				m.enter(s, s.top().Block.Succs[0])
			} else {
				m.kill(s)
			}
		}
	case *ssa.Return:
		m.ret(s, in)
	case *ssa.RunDefers:
		if n := len(f.Defers); n > 0 {
			d := f.Defers[n-1]
			f.Defers = f.Defers[:n-1]
			m.call(s, d.site, d.common, d.fn, d.args, nil, false)
			return
		}
		f.PC++
	case *ssa.Defer:
		fn, args := m.callee(s, &in.Call)
		f.Defers = append(f.Defers, deferred{&in.Call, in, fn, args})
		f.PC++
	case *ssa.Go:
		fn, args := m.callee(s, &in.Call)
		if m.H.Go != nil {
			m.H.Go(m, s, in, fn, args)
		}
		if !s.dead {
			f.PC++
		}
	case *ssa.Panic:
		m.panics(s, in, m.val(s, in.X), "panic")
	case *ssa.Send:
		ch, v := m.val(s, in.Chan), m.val(s, in.X)
		if m.H.Offer != nil {
			m.H.Offer(m, s, in, ch, v, true)
			if s.dead {
				return
			}
		}
		f.PC++
		if m.H.Send != nil {
			for _, n := range m.H.Send(m, s, in, ch, v, true) {
				m.Fork(n)
			}
		}
	case *ssa.Select:
		m.sel(s, in)
	case *ssa.Call:
		fn, args := m.callee(s, &in.Call)
		m.call(s, in, &in.Call, fn, args, in, true)
	case *ssa.DebugRef:
		f.PC++
	default:
		panic(undecided(fmt.Sprintf("instruction %T", in)))
	}
}

func (m *Machine) enterGuard(n *State, b *ssa.BasicBlock) {
	m.enter(n, b)
	if !n.dead {
		m.Fork(n)
	}
}

func (m *Machine) panics(s *State, in ssa.Instruction, v Val, why string) {
	m.Panics++
	if m.H.Panic != nil {
		m.H.Panic(m, s, in, v, why)
	}
	m.kill(s)
}

func (m *Machine) ret(s *State, in *ssa.Return) {
	f := s.top()
	var res []Val
	for _, r := range in.Results {
		res = append(res, m.val(s, r))
	}
	s.Frames = s.Frames[:len(s.Frames)-1]
	if len(s.Frames) == 0 || f.marker != "" {
		m.PathEnds++
		if m.H.Return != nil {
			m.H.Return(m, s, res)
		}
		if len(s.Frames) == 0 {
			m.kill(s)
			return
		}
	}
	c := s.top()
	if f.Result != nil {
		switch len(res) {
		case 0:
			c.Regs[f.Result] = VTuple{}
		case 1:
			c.Regs[f.Result] = res[0]
		default:
			c.Regs[f.Result] = VTuple{res}
		}
	}
}

func (m *Machine) unop(s *State, in *ssa.UnOp) {
	f := s.top()
	x := m.val(s, in.X)
	switch in.Op {
	case token.MUL:
		switch p := x.(type) {
		case VPtr:
			if m.H.Load != nil {
				if outs, ok := m.H.Load(m, s, in, p, in.Type()); ok {
					m.finish(s, in, outs)
					return
				}
			}
			if o := s.Obj(p.Obj); o != nil && o.Kind == 'q' && len(p.Path) > 0 && o.Bytes == nil {
				if !m.seqReady(s, p) {
					return
				}
			}
			f.Regs[in] = m.load(s, p)
		case VOpaque:
			if !p.NonNil && s.Truth(m.isNil(s, p)) == 1 {
				m.panics(s, in, nil, "nil dereference")
				return
			}
			f.Regs[in] = m.Unknown(s, in.Type(), "*"+p.T.Show())
		case VNil:
			m.panics(s, in, nil, "nil dereference")
			return
		default:
			panic(undecided(fmt.Sprintf("load through %T", x)))
		}
	case token.NOT:
		f.Regs[in] = VBool{x.(VBool).P.not()}
	case token.SUB:
		if l, ok := LinOf(x); ok {
			l = l.scale(-1)
			f.Regs[in] = numLin(l)
		} else {
			f.Regs[in] = m.Unknown(s, in.Type(), "neg")
		}
	case token.XOR:
		if n, ok := x.(VNum); ok {
			if n.L != nil && n.L.IsConst() {
				f.Regs[in] = Num(wrap(in.Type(), ^n.L.C))
			} else {
				f.Regs[in] = BVal(s.BVOf(n).Not())
			}
		} else {
			f.Regs[in] = m.Unknown(s, in.Type(), "not")
		}
	case token.ARROW:
		if m.H.Recv != nil {
			if outs, ok := m.H.Recv(m, s, in, x, in.CommaOk); ok {
				m.finish(s, in, outs)
				return
			}
		}
		f.Regs[in] = m.Unknown(s, in.Type(), "recv")
	default:
		panic(undecided("unary " + in.Op.String()))
	}
	f.PC++
}

// seqReady makes the sequence element p denotes available, forking when its
// position is not determined.
func (m *Machine) seqReady(s *State, p VPtr) bool {
	o := s.Obj(p.Obj)
	st := p.Path[0]
	idx := linConst(int64(st.Field))
	if st.Idx != nil {
		l, ok := LinOf(st.Idx)
		if !ok {
			panic(undecided("sequence index is a set"))
		}
		idx = l
	}
	k, ok := s.locate(o, idx)
	if ok && k != -1 {
		return true
	}
	if _, ok := o.At["@"+idx.key()]; ok {
		return true
	}
	put := func(n *State, v Val) {
		q := n.Mut(p.Obj)
		if q.At == nil {
			q.At = map[string]Val{}
		}
		q.At["@"+idx.key()] = v
	}
	if !ok { // could be any explicit element
		for _, e := range o.Elems {
			n := s.Clone()
			put(n, e)
			m.Fork(n)
		}
	}
	if o.Rest == nil || m.H.Unfold == nil {
		panic(undecided("element of a summarised sequence"))
	}
	outs := m.H.Unfold(m, s, o.Rest)
	cont := false
	for _, oc := range outs {
		put(oc.S, oc.V)
		if oc.S == s {
			cont = true
		} else {
			m.Fork(oc.S)
		}
	}
	if !cont {
		m.kill(s)
	}
	return cont
}

// narrow tells the integers of at most 16 bits.
func narrow(b *types.Basic) bool {
	switch b.Kind() {
	case types.Int8, types.Uint8, types.Int16, types.Uint16:
		return true
	}
	return false
}

func (m *Machine) convert(s *State, in *ssa.Convert) {
	f := s.top()
	v := m.val(s, in.X)
	if m.H.Convert != nil {
		if outs, ok := m.H.Convert(m, s, in, v); ok {
			m.finish(s, in, outs)
			return
		}
	}
	ft, tt := in.X.Type().Underlying(), in.Type().Underlying()
	fb, fok := ft.(*types.Basic)
	tb, tok := tt.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		if n, ok := v.(VNum); ok {
			if n.L != nil && n.L.IsConst() {
				v = Num(wrap(in.Type(), n.L.C))
			} else if n.L != nil && narrow(tb) && !narrow(fb) {
				r := s.Int("truncated") // what is left of it
				if tb.Kind() == types.Uint8 || tb.Kind() == types.Uint16 {
					s.AddGE(*r.L)
				}
				v = r
			}
		}
		f.Regs[in] = v
	case tok && tb.Info()&types.IsString != 0:
		switch x := v.(type) {
		case VStr:
			f.Regs[in] = x
		case VSlice:
			o := s.Obj(x.Obj)
			if o.Bytes != nil {
				if o.Bytes.Op == "bytes" {
					f.Regs[in] = o.Bytes.Args[0]
				} else {
					f.Regs[in] = m.newString(s, App("string", VOpaque{T: o.Bytes, NonNil: true}))
				}
			} else {
				f.Regs[in] = m.Unknown(s, in.Type(), "string")
			}
		case VNum:
			if x.L != nil && x.L.IsConst() {
				f.Regs[in] = Str(string(rune(x.L.C)))
			} else {
				f.Regs[in] = m.Unknown(s, in.Type(), "string")
			}
		default:
			f.Regs[in] = m.Unknown(s, in.Type(), "string")
		}
	default:
		if st, ok := v.(VStr); ok {
			if _, isSl := tt.(*types.Slice); isSl {
				l := lenLin(st.T)
				f.Regs[in] = VSlice{s.New(&Obj{Kind: 'q', Typ: in.Type(), Bytes: App("bytes", st), RestN: &l})}
				break
			}
		}
		if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
			f.Regs[in] = v
			break
		}
		f.Regs[in] = m.Unknown(s, in.Type(), "conv")
	}
	f.PC++
}

func (m *Machine) indexAddr(s *State, in *ssa.IndexAddr) {
	f := s.top()
	idx := m.val(s, in.Index)
	switch x := m.val(s, in.X).(type) {
	case VPtr: // pointer to array
		f.Regs[in] = VPtr{x.Obj, append(append([]Step(nil), x.Path...), Step{Idx: idx})}
	case VSlice:
		if o := s.Obj(x.Obj); o.Bytes == nil {
			l, ok := LinOf(idx)
			if !ok {
				panic(undecided("slice index is a set"))
			}
			n := s.seqLen(x.Obj)
			// out of range?
			if l.IsConst() && n.IsConst() && (l.C < 0 || l.C >= n.C) {
				m.panics(s, in, nil, "index out of range")
				return
			}
			if !s.Assume(&Pred{Kind: PGE, L: l}, true) || !s.Assume(&Pred{Kind: PGE, L: n.add(l, -1).add(linConst(-1), 1)}, true) {
				m.panics(s, in, nil, "index out of range")
				return
			}
			idx = numLin(l)
			// the facts may have renamed the index
			idx = m.val(s, in.Index)
			x = m.val(s, in.X).(VSlice)
		}
		s.top().Regs[in] = VPtr{x.Obj, []Step{{Idx: idx}}}
	case VOpaque:
		f.Regs[in] = VOpaque{T: App("elem", x, idx), NonNil: true}
	case VNil:
		m.panics(s, in, nil, "index out of range")
		return
	default:
		panic(undecided(fmt.Sprintf("index of %T", x)))
	}
	f.PC++
}

func (m *Machine) index(s *State, in *ssa.Index) {
	f := s.top()
	idx := m.val(s, in.Index)
	switch x := m.val(s, in.X).(type) {
	case VStruct:
		l, ok := LinOf(idx)
		if ok && l.IsConst() && l.C >= 0 && int(l.C) < len(x.F) {
			f.Regs[in] = x.F[l.C]
		} else {
			f.Regs[in] = m.Unknown(s, in.Type(), "elem")
		}
	case VStr:
		l, ok := LinOf(idx)
		if ok && l.IsConst() && x.T.Op == "const" && l.C >= 0 && int(l.C) < len(x.T.S) {
			f.Regs[in] = Num(int64(x.T.S[l.C]))
		} else if ok {
			f.Regs[in] = numLin(byteLin(x.T, l))
		} else {
			f.Regs[in] = m.Unknown(s, in.Type(), "byte")
		}
	default:
		f.Regs[in] = m.Unknown(s, in.Type(), "elem")
	}
	f.PC++
}

func (m *Machine) lookup(s *State, in *ssa.Lookup) {
	f := s.top()
	k := m.val(s, in.Index)
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap { // string index
		x, ok := m.val(s, in.X).(VStr)
		if ok {
			l, lok := LinOf(k)
			if lok && l.IsConst() && x.T.Op == "const" && l.C >= 0 && int(l.C) < len(x.T.S) {
				f.Regs[in] = Num(int64(x.T.S[l.C]))
			} else if lok {
				f.Regs[in] = numLin(byteLin(x.T, l))
			} else {
				f.Regs[in] = m.Unknown(s, in.Type(), "byte")
			}
		} else {
			f.Regs[in] = m.Unknown(s, in.Type(), "byte")
		}
		f.PC++
		return
	}
	zero := func() Val {
		z := m.Zero(s, mt.Elem())
		if in.CommaOk {
			return VTuple{[]Val{z, BoolOf(false)}}
		}
		return z
	}
	switch x := m.val(s, in.X).(type) {
	case VNil:
		f.Regs[in] = zero()
	case VMap:
		if m.H.MapRead != nil {
			m.H.MapRead(m, s, in, x.Obj, k)
		}
		if !m.resolveKey(s, x.Obj, "lookup", k) {
			return
		}
		f = s.top()
		k = m.val(s, in.Index)
		x = m.val(s, in.X).(VMap)
		if v, ok := s.MapGet(x.Obj, k); ok {
			if in.CommaOk {
				v = VTuple{[]Val{v, BoolOf(true)}}
			}
			f.Regs[in] = v
		} else {
			f.Regs[in] = zero()
		}
	default:
		f.Regs[in] = m.Unknown(s, in.Type(), "lookup")
	}
	f.PC++
}

func (m *Machine) mapUpdate(s *State, in *ssa.MapUpdate) {
	k, v := m.val(s, in.Key), m.val(s, in.Value)
	switch x := m.val(s, in.Map).(type) {
	case VNil:
		m.panics(s, in, nil, "write to nil map")
		return
	case VMap:
		if !m.resolveKey(s, x.Obj, "update", k) {
			return
		}
		k, v = m.val(s, in.Key), m.val(s, in.Value)
		if m.H.MapWrite != nil {
			m.H.MapWrite(m, s, in, x.Obj, k, v)
		}
		s.MapSet(x.Obj, k, v)
	case VOpaque:
		if s.Truth(m.isNil(s, x)) == 1 {
			m.panics(s, in, nil, "write to nil map")
			return
		}
	}
	s.top().PC++
}

func (m *Machine) slice(s *State, in *ssa.Slice) {
	f := s.top()
	bound := func(v ssa.Value, d Lin) Lin {
		if v == nil {
			return d
		}
		l, ok := LinOf(m.val(s, v))
		if !ok {
			panic(undecided("slice bound is a set"))
		}
		return l
	}
	switch x := m.val(s, in.X).(type) {
	case VStr:
		n := lenLin(x.T)
		lo, hi := bound(in.Low, linConst(0)), bound(in.High, n)
		// bounds must make sense on this path
		if !s.AddGE(lo) || !s.AddGE(hi.add(lo, -1)) || !s.AddGE(n.add(hi, -1)) {
			m.panics(s, in, nil, "slice bounds out of range")
			return
		}
		f.Regs[in] = VStr{s.cutStr(x.T, lo, hi)}
	case VSlice:
		o := s.Obj(x.Obj)
		n := s.seqLen(x.Obj)
		lo, hi := bound(in.Low, linConst(0)), bound(in.High, n)
		if o.Bytes != nil {
			l := hi.add(lo, -1)
			t := App("sub", VOpaque{T: o.Bytes, NonNil: true}, numLin(lo), numLin(hi))
			if b := o.Bytes; b.Op == "sub" {
				off, _ := LinOf(b.Args[1])
				t = App("sub", b.Args[0], numLin(off.add(lo, 1)), numLin(off.add(hi, 1)))
			}
			if d := hi.add(n, -1); lo.IsConst() && lo.C == 0 && d.IsConst() && d.C == 0 {
				t = o.Bytes
			}
			f.Regs[in] = VSlice{s.New(&Obj{Kind: 'q', Typ: o.Typ, Bytes: t, RestN: &l, Base: o.Base})}
			break
		}
		if !s.AddGE(lo) || !s.AddGE(hi.add(lo, -1)) {
			m.panics(s, in, nil, "slice bounds out of range")
			return
		}
		c := o.clone()
		if lo.IsConst() && lo.C == 0 && hi.IsConst() && hi.C == 0 {
			c.Elems, c.RestN, c.Rest, c.At = nil, nil, nil, nil
			s.top().Regs[in] = VSlice{s.New(c)}
			break
		}
		// cut at the top
		d := n.add(hi, -1)
		if !d.IsConst() {
			panic(undecided("slice cut at an unknown position"))
		}
		if d.C < 0 {
			panic(undecided("slice extended beyond its length"))
		}
		for i := int64(0); i < d.C; i++ {
			if k := len(c.Elems); k > 0 {
				c.Elems = c.Elems[:k-1]
			} else if c.RestN != nil {
				l := c.RestN.add(linConst(-1), 1)
				c.RestN = &l
				if !s.AddGE(l) {
					m.panics(s, in, nil, "slice bounds out of range")
					return
				}
			} else {
				m.panics(s, in, nil, "slice bounds out of range")
				return
			}
		}
		// cut at the bottom
		if !lo.IsConst() {
			panic(undecided("slice cut at an unknown position"))
		}
		for i := int64(0); i < lo.C; i++ {
			if c.RestN != nil {
				l := c.RestN.add(linConst(-1), 1)
				c.RestN = &l
				if !s.AddGE(l) {
					panic(undecided("slice cut below a summarised part"))
				}
			} else if len(c.Elems) > 0 {
				c.Elems = c.Elems[1:]
			} else {
				m.panics(s, in, nil, "slice bounds out of range")
				return
			}
		}
		c.At = nil
		s.top().Regs[in] = VSlice{s.New(c)}
	case VPtr: // array
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := linConst(at.Len())
		lo, hi := bound(in.Low, linConst(0)), bound(in.High, n)
		v := m.load(s, x)
		if a, ok := v.(VStruct); ok && lo.IsConst() && hi.IsConst() && lo.C >= 0 && hi.C >= lo.C && int(hi.C) <= len(a.F) {
			f.Regs[in] = VSlice{s.New(&Obj{Kind: 'q', Typ: in.Type(), Elems: append([]Val(nil), a.F[lo.C:hi.C]...), Base: x})}
			break
		}
		t := App("sub", VOpaque{T: App("array", x), NonNil: true}, numLin(lo), numLin(hi))
		l := hi.add(lo, -1)
		f.Regs[in] = VSlice{s.New(&Obj{Kind: 'q', Typ: in.Type(), Bytes: t, RestN: &l, Base: x})}
	case VNil:
		f.Regs[in] = VNil{}
	default:
		f.Regs[in] = m.Unknown(s, in.Type(), "slice")
	}
	s.top().PC++
}

func (m *Machine) typeAssert(s *State, in *ssa.TypeAssert) {
	f := s.top()
	v := m.val(s, in.X)
	give := func(n *State, x Val, ok bool) {
		if in.CommaOk {
			if !ok {
				x = m.Zero(n, in.AssertedType)
			}
			x = VTuple{[]Val{x, BoolOf(ok)}}
		}
		n.top().Regs[in] = x
		n.top().PC++
	}
	switch x := v.(type) {
	case VNil:
		if !in.CommaOk {
			m.panics(s, in, nil, "type assertion on nil")
			return
		}
		give(s, nil, false)
	case VIface:
		var ok bool
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(x.T, it)
			if ok {
				give(s, x, true)
				return
			}
		} else if types.Identical(x.T, in.AssertedType) {
			give(s, x.V, true)
			return
		}
		if !in.CommaOk {
			m.panics(s, in, nil, "type assertion fails")
			return
		}
		give(s, nil, false)
	case VOpaque:
		_, isI := in.AssertedType.Underlying().(*types.Interface)
		mk := func(n *State) Val {
			if isI {
				y := x
				y.NonNil = true
				return y
			}
			return m.Unknown(n, in.AssertedType, "assert")
		}
		if in.CommaOk {
			a := &Pred{Kind: PAtom, A: &Term{Op: "is", S: in.AssertedType.String(), Args: []Val{x}}}
			switch s.Truth(a) {
			case 1:
				give(s, mk(s), true)
			case 0:
				give(s, nil, false)
			default:
				n := s.Clone()
				n.Assume(a, false)
				give(n, nil, false)
				m.Fork(n)
				s.Assume(a, true)
				give(s, mk(s), true)
			}
			return
		}
		give(s, mk(s), true)
	default:
		panic(undecided(fmt.Sprintf("type assertion on %T", v)))
	}
	_ = f
}

func (m *Machine) next(s *State, in *ssa.Next) {
	f := s.top()
	tt := in.Type().(*types.Tuple)
	done := func(n *State) Val {
		return VTuple{[]Val{BoolOf(false), m.zeroOr(n, tt.At(1).Type()), m.zeroOr(n, tt.At(2).Type())}}
	}
	it, ok := m.val(s, in.Iter).(VIter)
	if !ok {
		if _, isNil := m.val(s, in.Iter).(VNil); isNil {
			f.Regs[in] = done(s)
			f.PC++
			return
		}
		// unknown string or map: any number of unknown elements
		n := s.Clone()
		n.top().Regs[in] = done(n)
		n.top().PC++
		m.Fork(n)
		f.Regs[in] = VTuple{[]Val{BoolOf(true), m.unknownOr(s, tt.At(1).Type()), m.unknownOr(s, tt.At(2).Type())}}
		f.PC++
		return
	}
	io := s.Obj(it.Obj)
	mo := s.Obj(io.M)
	if mo.Lazy != "" && m.H.NextLazy == nil {
		for _, n := range m.H.Lazy(m, s, io.M, "range", nil) {
			m.Fork(n)
		}
		m.kill(s)
		return
	}
	var todo []MapEnt
	for _, e := range mo.Ent {
		if !io.Seen[Key(e.K)] {
			todo = append(todo, e)
		}
	}
	if mo.Lazy != "" {
		outs := m.H.NextLazy(m, s, io.M)
		if outs == nil { // expand first
			for _, n := range m.H.Lazy(m, s, io.M, "range", nil) {
				m.Fork(n)
			}
			m.kill(s)
			return
		}
		for _, o := range outs {
			kv := o.V.(VTuple)
			q := o.S.Mut(it.Obj)
			q.Seen[Key(kv.F[0])] = true
			o.S.top().Regs[in] = VTuple{[]Val{BoolOf(true), kv.F[0], kv.F[1]}}
			o.S.top().PC++
			m.Fork(o.S)
		}
	}
	if m.zeroGlob && len(todo) > 1 {
		// the order in which initialisers walk constant tables is immaterial
		todo = todo[:1]
	}
	for _, e := range todo {
		n := s.Clone()
		n.Mut(it.Obj).Seen[Key(e.K)] = true
		n.top().Regs[in] = VTuple{[]Val{BoolOf(true), e.K, e.V}}
		n.top().PC++
		m.Fork(n)
	}
	if len(todo) == 0 {
		if m.H.RangeDone != nil {
			m.H.RangeDone(s, io.M)
		}
		f.Regs[in] = done(s)
		f.PC++
		return
	}
	m.kill(s)
}

func (m *Machine) zeroOr(s *State, t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return m.Zero(s, t)
}

func (m *Machine) unknownOr(s *State, t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return m.Unknown(s, t, "elem")
}

func (m *Machine) sel(s *State, in *ssa.Select) {
	tt := in.Type().(*types.Tuple)
	mk := func(n *State, idx int, recvOk bool, recvIdx int, rv Val) Val {
		t := VTuple{[]Val{Num(int64(idx)), BoolOf(recvOk)}}
		k := 0
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == recvIdx {
					t.F = append(t.F, rv)
				} else {
					t.F = append(t.F, m.Zero(n, tt.At(2+k).Type()))
				}
				k++
			}
		}
		return t
	}
	if m.H.Offer != nil {
		for _, st := range in.States {
			if st.Dir == types.SendOnly {
				m.H.Offer(m, s, in, m.val(s, st.Chan), m.val(s, st.Send), in.Blocking || len(in.States) > 1)
			}
		}
		if s.dead {
			return
		}
	}
	for i, st := range in.States {
		n := s.Clone()
		ch := m.val(n, st.Chan)
		if st.Dir == types.SendOnly {
			v := m.val(n, st.Send)
			n.top().Regs[in] = mk(n, i, false, -1, nil)
			n.top().PC++
			if m.H.Send != nil {
				for _, x := range m.H.Send(m, n, in, ch, v, in.Blocking) {
					m.Fork(x)
				}
			}
			if !n.dead {
				m.Fork(n)
			}
			continue
		}
		n.top().Regs[in] = mk(n, i, true, i, m.Unknown(n, st.Chan.Type().Underlying().(*types.Chan).Elem(), "recv"))
		n.top().PC++
		m.Fork(n)
	}
	if in.Blocking {
		m.kill(s)
		return
	}
	s.top().Regs[in] = mk(s, -1, false, -1, nil)
	s.top().PC++
}

// ---- calls

func (m *Machine) callee(s *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, m.val(s, a))
	}
	return m.val(s, c.Value), args
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (m *Machine) call(s *State, site ssa.CallInstruction, cc *ssa.CallCommon, fv Val, args []Val, res ssa.Value, advance bool) {
	if res != nil {
		delete(s.top().Regs, res)
	}
	adv := func(n *State) {
		if advance {
			n.top().PC++
		}
	}
	fin := func(outs []Outcome) {
		if len(outs) == 0 {
			m.kill(s)
			return
		}
		cont := false
		for _, o := range outs {
			if len(o.S.Frames) > 0 {
				if res != nil && o.V != nil {
					o.S.top().Regs[res] = o.V
				}
				adv(o.S)
			}
			if o.S == s {
				cont = true
			} else {
				m.Fork(o.S)
			}
		}
		if !cont {
			m.kill(s)
		}
	}
	push := func(fn *ssa.Function, a, bind []Val) {
		adv(s)
		m.Push(s, fn, a, bind, site, res)
	}
	var rt types.Type
	if res != nil {
		rt = res.Type()
	} else {
		rt = cc.Signature().Results()
		if cc.Signature().Results().Len() == 1 {
			rt = cc.Signature().Results().At(0).Type()
		}
	}
	if cc.IsInvoke() {
		ci := &CallInfo{Site: site, Name: cc.Method.FullName(), Method: cc.Method, Recv: fv, Args: args, Common: cc}
		if m.H.Call != nil {
			if outs, ok := m.H.Call(m, s, ci); ok {
				fin(outs)
				return
			}
		}
		switch r := fv.(type) {
		case VIface:
			fn := m.Prog.LookupMethod(r.T, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				panic(undecided("method not found: " + cc.Method.Name()))
			}
			m.callFn(s, site, cc, fn, append([]Val{r.V}, args...), nil, res, advance, fin, push, rt)
			return
		case VNil:
			m.panics(s, site, nil, "nil dereference")
			return
		}
		fin(m.defaultInvoke(s, ci, rt))
		return
	}
	switch fn := fv.(type) {
	case VBuiltin:
		m.builtin(s, site, cc, fn.Name, args, res, fin, rt)
	case VFunc:
		m.callFn(s, site, cc, fn.Fn, args, fn.Bind, res, advance, fin, push, rt)
	case VNil:
		m.panics(s, site, nil, "call of a nil function")
	default:
		ci := &CallInfo{Site: site, Name: "?" + Show(fv), Recv: fv, Args: args, Common: cc}
		if m.H.Call != nil {
			if outs, ok := m.H.Call(m, s, ci); ok {
				fin(outs)
				return
			}
		}
		fin(m.defaultResult(s, "?"+Show(fv), rt))
	}
}

func (m *Machine) callFn(s *State, site ssa.CallInstruction, cc *ssa.CallCommon, fn *ssa.Function, args, bind []Val, res ssa.Value, advance bool, fin func([]Outcome), push func(*ssa.Function, []Val, []Val), rt types.Type) {
	ci := &CallInfo{Site: site, Name: fullName(fn), Fn: fn, Args: args, Common: cc}
	if m.H.Call != nil {
		if outs, ok := m.H.Call(m, s, ci); ok {
			fin(outs)
			return
		}
	}
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = m.Prog.Package(fn.Object().Pkg())
	}
	inl := fn.Synthetic != "" && len(fn.Blocks) > 0 && (pkg == nil || pkg == m.Pkg)
	if pkg == m.Pkg && len(fn.Blocks) > 0 {
		inl = true
	}
	if pkg != nil && !inl {
		switch pkg.Pkg.Path() {
		case "slices", "maps", "cmp", "iter":
			inl = len(fn.Blocks) > 0
		}
	}
	if m.Inline != nil && m.Inline(fn) {
		inl = true
	}
	if inl {
		push(fn, args, bind)
		return
	}
	if outs, ok := m.model(s, ci, rt); ok {
		fin(outs)
		return
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		push(fn, args, bind)
		return
	}
	fin(m.defaultResult(s, ci.Name, rt))
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// defaultResult is the result of an unmodelled call: arbitrary values; an
// error result splits the state into success and failure.
func (m *Machine) defaultResult(s *State, name string, rt types.Type) []Outcome {
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	tup, ok := rt.(*types.Tuple)
	if !ok {
		if isErr(rt) {
			n := s.Clone()
			return []Outcome{{s, VNil{}}, {n, n.Err(name)}}
		}
		return []Outcome{{s, m.Unknown(s, rt, name)}}
	}
	if tup.Len() == 0 {
		return []Outcome{{s, VTuple{}}}
	}
	last := tup.At(tup.Len() - 1).Type()
	mk := func(n *State, fail bool) Val {
		t := VTuple{}
		for i := 0; i < tup.Len(); i++ {
			ty := tup.At(i).Type()
			switch {
			case i == tup.Len()-1 && isErr(ty):
				if fail {
					t.F = append(t.F, n.Err(name))
				} else {
					t.F = append(t.F, VNil{})
				}
			case fail:
				t.F = append(t.F, m.Unknown(n, ty, name+"!failed"))
			default:
				v := m.Unknown(n, ty, name)
				if o, ok := v.(VOpaque); ok {
					o.NonNil = true
					v = o
				}
				t.F = append(t.F, v)
			}
		}
		return t
	}
	if isErr(last) {
		n := s.Clone()
		return []Outcome{{s, mk(s, false)}, {n, mk(n, true)}}
	}
	return []Outcome{{s, mk(s, false)}}
}

// defaultInvoke is a call of a method of an unknown object; results are a
// function of the receiver and the arguments when they are basic values.
func (m *Machine) defaultInvoke(s *State, ci *CallInfo, rt types.Type) []Outcome {
	if b, ok := rt.Underlying().(*types.Basic); ok {
		t := App("call:"+ci.Method.Name(), append([]Val{ci.Recv}, ci.Args...)...)
		switch {
		case b.Info()&types.IsString != 0:
			return []Outcome{{s, VStr{t}}}
		case b.Info()&types.IsBoolean != 0:
			return []Outcome{{s, VBool{&Pred{Kind: PAtom, A: t}}}}
		case b.Info()&types.IsInteger != 0:
			return []Outcome{{s, numLin(linAtom(t))}}
		}
	}
	return m.defaultResult(s, ci.Method.Name(), rt)
}

func (m *Machine) builtin(s *State, site ssa.CallInstruction, cc *ssa.CallCommon, name string, args []Val, res ssa.Value, fin func([]Outcome), rt types.Type) {
	one := func(v Val) { fin([]Outcome{{s, v}}) }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case VStr:
			one(numLin(lenLin(x.T)))
		case VSlice:
			one(numLin(s.seqLen(x.Obj)))
		case VNil:
			one(Num(0))
		case VMap:
			o := s.Obj(x.Obj)
			if o.Lazy != "" {
				if outs := m.H.Lazy(m, s, x.Obj, "len", nil); outs != nil {
					for _, n := range outs {
						m.Fork(n)
					}
					m.kill(s)
					return
				}
				o = s.Obj(x.Obj)
				if o.LenAtom == nil {
					o = s.Mut(x.Obj)
					o.LenAtom = s.Sym("maplen")
					s.AddGE(linAtom(o.LenAtom))
				}
				one(numLin(linAtom(o.LenAtom).add(linConst(int64(len(o.Ent))), 1)))
				return
			}
			one(Num(int64(len(o.Ent))))
		case VStruct:
			one(Num(int64(len(x.F))))
		default:
			v := s.Int("len")
			s.AddGE(*v.L)
			one(v)
		}
	case "append":
		m.appendSeq(s, args, fin, rt)
	case "delete":
		switch x := args[0].(type) {
		case VMap:
			if !m.resolveKey(s, x.Obj, "delete", args[1]) {
				return
			}
			// operands may have been renamed
			_, args = m.callee(s, cc)
			if _, ok := site.(*ssa.Defer); ok {
				panic(undecided("deferred delete"))
			}
			if m.H.MapWrite != nil {
				m.H.MapWrite(m, s, site, x.Obj, args[1], nil)
			}
			s.MapDel(args[0].(VMap).Obj, args[1])
		}
		one(VTuple{})
	case "copy":
		v := s.Int("copied")
		s.AddGE(*v.L)
		one(v)
	case "close":
		ci := &CallInfo{Site: site, Name: "builtin.close", Args: args, Common: cc}
		if m.H.Call != nil {
			if outs, ok := m.H.Call(m, s, ci); ok {
				fin(outs)
				return
			}
		}
		if m.H.Close != nil {
			m.H.Close(m, s, args[0])
			if s.Dead() {
				return
			}
		}
		one(VTuple{})
	case "panic":
		m.panics(s, site, args[0], "panic")
	case "print", "println":
		one(VTuple{})
	case "recover":
		one(VNil{})
	case "ssa:wrapnilchk":
		one(args[0])
	case "clear":
		if x, ok := args[0].(VMap); ok {
			o := s.Mut(x.Obj)
			o.Ent, o.Lazy, o.Absent = nil, "", nil
		}
		one(VTuple{})
	case "min", "max":
		v := args[0]
		for _, a := range args[1:] {
			x, ok1 := LinOf(v)
			y, ok2 := LinOf(a)
			if !ok1 || !ok2 {
				v = m.Unknown(s, rt, name)
				break
			}
			t := s.Truth(&Pred{Kind: PGE, L: y.add(x, -1)}) // x <= y
			switch {
			case t == 1 && name == "max", t == 0 && name == "min":
				v = a
			case t == -1:
				v = m.Unknown(s, rt, name)
			}
		}
		one(v)
	default:
		// unsafe.* and the like
		one(m.Unknown(s, rt, name))
	}
}

func (m *Machine) appendSeq(s *State, args []Val, fin func([]Outcome), rt types.Type) {
	var base *Obj
	switch x := args[0].(type) {
	case VNil:
		base = &Obj{Kind: 'q', Typ: rt}
	case VSlice:
		base = s.Obj(x.Obj).clone()
		if base.Base != nil && base.Back == nil {
			base.Back = App("backing", base.Base)
		}
		base.Base = nil
	default:
		fin([]Outcome{{s, m.Unknown(s, rt, "append")}})
		return
	}
	back := base.Back
	if back == nil {
		back = s.Sym("backing")
	}
	opaque := func() {
		n := s.Int("len")
		s.AddGE(*n.L)
		fin([]Outcome{{s, VSlice{s.New(&Obj{Kind: 'q', Typ: rt, Bytes: s.Sym("append"), RestN: n.L, Back: back})}}})
	}
	if len(args) < 2 {
		fin([]Outcome{{s, VSlice{s.New(base)}}})
		return
	}
	switch y := args[1].(type) {
	case VNil:
	case VSlice:
		o := s.Obj(y.Obj)
		switch {
		case base.Bytes != nil || o.Bytes != nil:
			if base.Bytes == nil && base.RestN == nil && len(base.Elems) == 0 {
				base = o.clone()
				base.Base = nil
				break
			}
			opaque()
			return
		case o.RestN != nil && len(base.Elems) == 0 && base.RestN == nil:
			base = o.clone()
			base.Base = nil
		case o.RestN != nil:
			panic(undecided("append of a summarised sequence"))
		default:
			base.Elems = append(append([]Val(nil), base.Elems...), o.Elems...)
		}
	default:
		opaque()
		return
	}
	base.At, base.Back = nil, back
	fin([]Outcome{{s, VSlice{s.New(base)}}})
}
