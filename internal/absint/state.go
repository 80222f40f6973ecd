package absint

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MapEnt is an entry of a map object.
type MapEnt struct{ K, V Val }

// Obj is a heap object.
type Obj struct {
	Kind  byte // 'c' cell, 'm' map, 'q' sequence, 'i' iterator
	Typ   types.Type
	Label string
	V     Val // cell contents

	Ent     []MapEnt // map: known entries
	Lazy    string   // map: non-empty when other entries may exist
	Absent  []Val    // lazy map: keys known to be absent
	LenAtom *Term    // lazy map: number of the unknown entries

	Elems []Val          // sequence: the last len(Elems) elements
	Rest  Val            // sequence: shape of the elements before those
	RestN *Lin           // number of elements before Elems (nil: none)
	Bytes *Term          // sequence standing for an opaque byte/any sequence
	Base  Val            // pointer to the array the sequence aliases
	Back  *Term          // the memory the sequence may share with others
	At    map[string]Val // opaque sequence: elements met

	M    int             // iterator: map object
	Seen map[string]bool // iterator: keys visited

	Ghost map[string]Val
}

func (o *Obj) clone() *Obj {
	n := *o
	n.Ent = append([]MapEnt(nil), o.Ent...)
	n.Absent = append([]Val(nil), o.Absent...)
	n.Elems = append([]Val(nil), o.Elems...)
	if o.Seen != nil {
		n.Seen = map[string]bool{}
		for k, v := range o.Seen {
			n.Seen[k] = v
		}
	}
	if o.At != nil {
		n.At = map[string]Val{}
		for k, v := range o.At {
			n.At[k] = v
		}
	}
	if o.Ghost != nil {
		n.Ghost = map[string]Val{}
		for k, v := range o.Ghost {
			n.Ghost[k] = v
		}
	}
	return &n
}

type deferred struct {
	common *ssa.CallCommon
	site   ssa.CallInstruction
	fn     Val
	args   []Val
}

// Frame is an activation.
type Frame struct {
	Fn       *ssa.Function
	Block    *ssa.BasicBlock
	Prev     *ssa.BasicBlock
	PC       int
	Regs     map[ssa.Value]Val
	Bind     []Val
	Defers   []deferred
	Site     ssa.CallInstruction // where the result goes, nil at the bottom
	Result   ssa.Value
	visits   map[*ssa.BasicBlock]int
	phiOld   map[ssa.Value]Val
	ghostOld map[*ssa.BasicBlock]map[string]Lin // counters at the last visit of a loop head
	phiNew   map[ssa.Value]Val                  // first values
	marker   string
}

func (f *Frame) clone() *Frame {
	n := *f
	n.Regs = make(map[ssa.Value]Val, len(f.Regs))
	for k, v := range f.Regs {
		n.Regs[k] = v
	}
	n.Defers = append([]deferred(nil), f.Defers...)
	n.visits = map[*ssa.BasicBlock]int{}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.phiOld = map[ssa.Value]Val{}
	for k, v := range f.phiOld {
		n.phiOld[k] = v
	}
	n.ghostOld = nil
	for k, v := range f.ghostOld {
		if n.ghostOld == nil {
			n.ghostOld = map[*ssa.BasicBlock]map[string]Lin{}
		}
		n.ghostOld[k] = v
	}
	n.phiNew = map[ssa.Value]Val{}
	for k, v := range f.phiNew {
		n.phiNew[k] = v
	}
	return &n
}

// AtomFact is a decided atomic predicate.
type AtomFact struct {
	T  *Term
	OK bool
}

// State is one abstract state.
type State struct {
	M       *Machine
	Frames  []*Frame
	Heap    map[int]*Obj
	owned   map[int]bool
	nextObj int
	nextSym int
	Cond    *Cond
	VarName [NV]string
	Lins    []Lin
	Atoms   []AtomFact
	Bits    map[string]int // numeric symbol key -> set variable
	BitsT   map[string]*Term
	Ghost   map[string]Val
	Trace   []string
	dead    bool
}

// Clone forks the state.
func (s *State) Clone() *State {
	n := &State{M: s.M, nextObj: s.nextObj, nextSym: s.nextSym, VarName: s.VarName}
	n.Cond = s.Cond.clone()
	for _, f := range s.Frames {
		n.Frames = append(n.Frames, f.clone())
	}
	n.Heap = make(map[int]*Obj, len(s.Heap))
	for k, o := range s.Heap {
		n.Heap[k] = o
	}
	n.owned = map[int]bool{}
	s.owned = map[int]bool{}
	n.Lins = append([]Lin(nil), s.Lins...)
	n.Atoms = append([]AtomFact(nil), s.Atoms...)
	n.Bits = map[string]int{}
	for k, v := range s.Bits {
		n.Bits[k] = v
	}
	n.BitsT = map[string]*Term{}
	for k, v := range s.BitsT {
		n.BitsT[k] = v
	}
	n.Ghost = map[string]Val{}
	for k, v := range s.Ghost {
		n.Ghost[k] = v
	}
	n.Trace = append([]string(nil), s.Trace...)
	return n
}

// Note appends to the trace shown in reports.
func (s *State) Note(format string, a ...interface{}) {
	s.Trace = append(s.Trace, fmt.Sprintf(format, a...))
	if len(s.Trace) > 60 {
		s.Trace = append([]string{"..."}, s.Trace[len(s.Trace)-50:]...)
	}
}

// Obj gives a heap object for reading.
func (s *State) Obj(id int) *Obj { return s.Heap[id] }

// Mut gives a heap object for writing.
func (s *State) Mut(id int) *Obj {
	if !s.owned[id] {
		s.Heap[id] = s.Heap[id].clone()
		s.owned[id] = true
	}
	return s.Heap[id]
}

// New adds a heap object.
func (s *State) New(o *Obj) int {
	s.nextObj++
	s.Heap[s.nextObj] = o
	s.owned[s.nextObj] = true
	return s.nextObj
}

// Sym makes a fresh symbol term.
func (s *State) Sym(label string) *Term {
	s.nextSym++
	return &Term{Op: "sym", S: label, ID: s.nextSym}
}

// Opq makes a fresh opaque object.
func (s *State) Opq(label string, nonnil, uniq bool) VOpaque {
	return VOpaque{T: s.Sym(label), NonNil: nonnil, Uniq: uniq}
}

// Err makes a fresh non-nil error.
func (s *State) Err(label string) VOpaque { return s.Opq("err:"+label, true, true) }

// OSErr makes a fresh non-nil error of the operating system, which may be
// any system error number.
func (s *State) OSErr(label string) VOpaque { return s.Opq(osErr+label, true, true) }

const osErr = "os error: "

// mayBeErrno reports whether a is an error of the operating system and b a
// system error number.
func mayBeErrno(a VOpaque, b VIface) bool {
	n, ok := b.T.(*types.Named)
	return ok && n.Obj().Name() == "Errno" && a.T.Op == "sym" && strings.HasPrefix(a.T.S, osErr)
}

// Int makes a fresh integer symbol.
func (s *State) Int(label string) VNum { return numLin(linAtom(s.Sym(label))) }

// SetVar allocates a set variable.
func (s *State) SetVar(name string) BV {
	for v := 0; v < NV; v++ {
		if s.Cond.used>>uint(v)&1 == 0 {
			s.Cond.used |= 1 << uint(v)
			s.VarName[v] = name
			return s.M.Cl.varBV(v)
		}
	}
	s.gc()
	for v := 0; v < NV; v++ {
		if s.Cond.used>>uint(v)&1 == 0 {
			s.Cond.used |= 1 << uint(v)
			s.VarName[v] = name
			return s.M.Cl.varBV(v)
		}
	}
	panic(undecided("more than " + strconv.Itoa(NV) + " event-set variables are live at once"))
}

// Const is the set constant c.
func (s *State) Const(c uint32) BV {
	b, ok := s.M.Cl.constBV(c)
	if !ok {
		panic(needSplit{c})
	}
	return b
}

// AssumeZero restricts the state to b being empty; false when impossible.
func (s *State) AssumeZero(b BV) bool { return s.Cond.assumeZero(s.M.Cl, b) }

// AssumeNonzero restricts the state to b being non-empty.
func (s *State) AssumeNonzero(b BV) bool {
	switch s.Cond.zeroness(b) {
	case 1:
		return true
	case 0:
		return false
	}
	return s.Cond.assumeNonzero(s.M.Cl, b)
}

// AssumeSub restricts the state to a being a subset of b.
func (s *State) AssumeSub(a, b BV) bool { return s.AssumeZero(a.AndNot(b)) }

// IsZero: b is empty in every concretisation.
func (s *State) IsZero(b BV) bool { return s.Cond.zeroness(b) == 0 }

// IsNonzero: b is non-empty in every concretisation.
func (s *State) IsNonzero(b BV) bool { return s.Cond.zeroness(b) == 1 }

// SameSet: a == b in every concretisation.
func (s *State) SameSet(a, b BV) bool { return s.IsZero(a.Xor(b)) }

// SubSet: a is a subset of b in every concretisation.
func (s *State) SubSet(a, b BV) bool { return s.IsZero(a.AndNot(b)) }

// Describe renders a set for reports.
func (s *State) Describe(b BV) string {
	return s.M.Cl.describe(b, s.Cond, func(v int) string { return s.VarName[v] }, s.M.BitName)
}

// BVOf gives the bit-set view of a number.
func (s *State) BVOf(v Val) BV {
	n, ok := v.(VNum)
	if !ok {
		panic(undecided(fmt.Sprintf("bit set expected, have %T", v)))
	}
	if n.B != nil {
		return n.B
	}
	if n.L.IsConst() {
		return s.Const(uint32(n.L.C))
	}
	if len(n.L.T) == 1 && n.L.C == 0 && n.L.T[0].K == 1 {
		a := n.L.T[0].A
		k := a.Key()
		if v, ok := s.Bits[k]; ok {
			return s.M.Cl.varBV(v)
		}
		b := s.SetVar(a.Show())
		for v := 0; v < NV; v++ {
			if b.EqualBV(s.M.Cl.varBV(v)) {
				s.Bits[k] = v
				s.BitsT[k] = a
			}
		}
		return b
	}
	return s.SetVar("?")
}

// ---- linear facts

// AddGE records l >= 0; false when impossible.
func (s *State) AddGE(l Lin) bool {
	if l.IsConst() {
		return l.C >= 0
	}
	if s.geFact(l.scale(-1).add(linConst(-1), 1)) {
		return false
	}
	if !s.geFact(l) {
		s.Lins = append(s.Lins, l)
	}
	return true
}

// geFact: l >= 0 follows from the facts (single facts, and sums of up to
// three, plus non-negativity of lengths).
func (s *State) geFact(l Lin) bool { return s.geDepth(l, 3) }

func (s *State) geDepth(l Lin, d int) bool {
	// drop atoms that are lengths with positive coefficient
	if l.IsConst() {
		return l.C >= 0
	}
	m := Lin{C: l.C}
	dropped := false
	for _, t := range l.T {
		if t.K > 0 && t.A.Op == "len" {
			dropped = true
			continue
		}
		m.T = append(m.T, t)
	}
	if dropped && s.geDepth(m, d) {
		return true
	}
	if d == 0 {
		return false
	}
	for _, f := range s.Lins {
		share := false
		for _, a := range f.T {
			for _, b := range l.T {
				if a.K*b.K > 0 && a.A.Key() == b.A.Key() {
					share = true
				}
			}
		}
		if !share {
			continue
		}
		if s.geDepth(l.add(f, -1), d-1) {
			return true
		}
	}
	return false
}

// prune drops facts that follow from others.
func (s *State) prune() {
	if len(s.Lins) < 24 {
		return
	}
	all := s.Lins
	for i := len(all) - 1; i >= 0; i-- {
		rest := make([]Lin, 0, len(all)-1)
		rest = append(append(rest, all[:i]...), all[i+1:]...)
		s.Lins = rest
		if s.geDepth(all[i], 2) {
			all = rest
		}
	}
	s.Lins = all
}

// ---- predicates

func predTrue(p *Pred) *Pred { return p }

// Truth decides a predicate: 1, 0 or -1.
func (s *State) Truth(p *Pred) int {
	r := -1
	switch p.Kind {
	case PTrue:
		r = 1
	case PZero:
		switch s.Cond.zeroness(p.B) {
		case 0:
			r = 1
		case 1:
			r = 0
		}
	case PGE:
		if s.geFact(p.L) {
			r = 1
		} else if s.geFact(p.L.scale(-1).add(linConst(-1), 1)) {
			r = 0
		}
	case PEQ0:
		if p.L.IsConst() {
			r = 0
			if p.L.C == 0 {
				r = 1
			}
		} else if s.geFact(p.L.add(linConst(-1), 1)) || s.geFact(p.L.scale(-1).add(linConst(-1), 1)) {
			r = 0
		} else if s.geFact(p.L) && s.geFact(p.L.scale(-1)) {
			r = 1
		} else {
			k, k2 := p.L.key(), p.L.scale(-1).key()
			for _, a := range s.Atoms {
				if a.T.Op == "eq0" {
					if q := Key(a.T.Args[0]); q == "n"+k || q == "n"+k2 {
						r = 0
						if a.OK {
							r = 1
						}
					}
				}
			}
		}
	case PAtom:
		k := p.A.Key()
		for _, a := range s.Atoms {
			if a.T.Key() == k {
				r = 0
				if a.OK {
					r = 1
				}
			}
		}
	case PAnd:
		r = 1
		for _, q := range p.Sub {
			switch s.Truth(q) {
			case 0:
				r = 0
			case -1:
				if r == 1 {
					r = -1
				}
			}
		}
	}
	if r >= 0 && p.Neg {
		r = 1 - r
	}
	return r
}

// Assume restricts the state by p == val; false when impossible.
func (s *State) Assume(p *Pred, val bool) bool {
	if p.Neg {
		val = !val
	}
	switch s.Truth(&Pred{Kind: p.Kind, B: p.B, L: p.L, A: p.A, Sub: p.Sub}) {
	case 1:
		return val
	case 0:
		return !val
	}
	switch p.Kind {
	case PZero:
		if val {
			return s.AssumeZero(p.B)
		}
		return s.AssumeNonzero(p.B)
	case PGE:
		if val {
			return s.AddGE(p.L)
		}
		return s.AddGE(p.L.scale(-1).add(linConst(-1), 1))
	case PEQ0:
		if val {
			// solve for an atom with coefficient +-1 and substitute
			for _, t := range p.L.T {
				if (t.K == 1 || t.K == -1) && t.A.Op == "sym" {
					rest := p.L.add(Lin{T: []LinTerm{t}}, -1).scale(-t.K)
					s.SubstAtom(t.A, rest)
					return s.consistent()
				}
			}
			return s.AddGE(p.L) && s.AddGE(p.L.scale(-1))
		}
		s.Atoms = append(s.Atoms, AtomFact{App("eq0", numLin(p.L)), false})
		// sharpen bounds: l != 0 and l >= 0 gives l >= 1
		if s.geFact(p.L) {
			return s.AddGE(p.L.add(linConst(-1), 1))
		}
		if n := p.L.scale(-1); s.geFact(n) {
			return s.AddGE(n.add(linConst(-1), 1))
		}
		return true
	case PAtom:
		s.Atoms = append(s.Atoms, AtomFact{p.A, val})
		if val && p.A.Op == "eq" {
			a, aok := p.A.Args[0].(VStr)
			b, bok := p.A.Args[1].(VStr)
			if aok && bok {
				if a.T.Op != "sym" {
					a, b = b, a
				}
				if a.T.Op == "sym" && !strings.Contains(b.T.Key(), a.T.Key()) {
					s.SubstTerm(a.T, b.T)
				}
			}
		}
		return true
	case PAnd:
		if val {
			for _, q := range p.Sub {
				if !s.Assume(q, true) {
					return false
				}
			}
			return true
		}
		// not all: only the single-unknown case refines
		n := 0
		var u *Pred
		for _, q := range p.Sub {
			if s.Truth(q) == -1 {
				n++
				u = q
			}
		}
		if n == 1 {
			return s.Assume(u, false)
		}
		return true
	}
	panic("assume")
}

func (s *State) consistent() bool {
	for _, l := range s.Lins {
		if l.IsConst() && l.C < 0 {
			return false
		}
	}
	for _, a := range s.Atoms {
		if a.T.Op == "eq0" {
			if l, ok := LinOf(a.T.Args[0]); ok && l.IsConst() && (l.C == 0) != a.OK {
				return false
			}
		}
	}
	return true
}

// SubstAtom replaces a numeric symbol by an expression everywhere.
func (s *State) SubstAtom(a *Term, by Lin) {
	k := a.Key()
	s.rewrite(&rewriter{term: func(t *Term) *Term {
		if t.Key() == k {
			return &Term{Op: "lin", Args: []Val{numLin(by)}}
		}
		return t
	}})
}

// SubstTerm replaces a string/object symbol by a term everywhere.
func (s *State) SubstTerm(a, by *Term) {
	k := a.Key()
	s.rewrite(&rewriter{term: func(t *Term) *Term {
		if t.Key() == k {
			return by
		}
		return t
	}})
}

// rewrite applies r to the whole state.
func (s *State) rewrite(r *rewriter) {
	for _, f := range s.Frames {
		for k, v := range f.Regs {
			f.Regs[k] = r.do(v)
		}
		f.Bind = r.list(f.Bind)
		for i := range f.Defers {
			d := f.Defers[i]
			d.fn, d.args = r.do(d.fn), r.list(d.args)
			f.Defers[i] = d
		}
		for k, v := range f.phiOld {
			f.phiOld[k] = r.do(v)
		}
		for k, v := range f.phiNew {
			f.phiNew[k] = r.do(v)
		}
	}
	ids := make([]int, 0, len(s.Heap))
	for id := range s.Heap {
		ids = append(ids, id)
	}
	for _, id := range ids {
		if o := s.M.frozen[id]; o != nil && o == s.Heap[id] {
			continue
		}
		o := s.Mut(id)
		o.V = r.do(o.V)
		for i := range o.Ent {
			o.Ent[i] = MapEnt{r.do(o.Ent[i].K), r.do(o.Ent[i].V)}
		}
		o.Absent = r.list(o.Absent)
		o.Elems = r.list(o.Elems)
		o.Rest = r.do(o.Rest)
		if o.RestN != nil {
			l := r.doLin(*o.RestN)
			o.RestN = &l
		}
		if o.Bytes != nil {
			o.Bytes = r.doTerm(o.Bytes)
		}
		if o.LenAtom != nil {
			if l := r.doLin(linAtom(o.LenAtom)); l.IsConst() && l.C == 0 {
				o.Lazy, o.LenAtom = "", nil // every entry is known
			}
		}
		o.Base = r.do(o.Base)
		for k, v := range o.At {
			o.At[k] = r.do(v)
		}
		for k, v := range o.Ghost {
			o.Ghost[k] = r.do(v)
		}
	}
	for i := range s.Lins {
		s.Lins[i] = r.doLin(s.Lins[i])
	}
	for i := range s.Atoms {
		s.Atoms[i].T = r.doTerm(s.Atoms[i].T)
	}
	for k, v := range s.Ghost {
		s.Ghost[k] = r.do(v)
	}
	// drop trivial facts
	var ls []Lin
	for _, l := range s.Lins {
		if l.IsConst() && l.C >= 0 {
			continue
		}
		ls = append(ls, l)
	}
	s.Lins = ls
}

// ---- reachability and canonical form

// canon serialises the reachable part of the state under a canonical naming.
type canon struct {
	s     *State
	sb    strings.Builder
	objs  map[int]int
	queue []int
	syms  map[string]int
	vars  [NV]int
	nvar  int
	terms []*Term
	reach bool // reachability only
	weak  map[string]bool
}

func (c *canon) obj(id int) {
	if o := c.s.M.frozen[id]; o != nil && c.s.Heap[id] == o {
		if !c.reach {
			c.sb.WriteString("@Z" + strconv.Itoa(id))
		}
		return
	}
	n, ok := c.objs[id]
	if !ok {
		n = len(c.objs)
		c.objs[id] = n
		c.queue = append(c.queue, id)
	}
	if !c.reach {
		c.sb.WriteString("@" + strconv.Itoa(n))
	}
}

func (c *canon) term(t *Term) {
	if t.Op != "sym" {
		if v, ok := c.s.Bits[t.Key()]; ok {
			c.touch(c.s.M.Cl.varBV(v))
		}
	}
	if t.Op == "sym" {
		k := t.Key()
		n, ok := c.syms[k]
		if !ok {
			n = len(c.syms)
			c.syms[k] = n
			if v, ok := c.s.Bits[k]; ok {
				c.touch(c.s.M.Cl.varBV(v))
			}
		}
		if !c.reach {
			c.sb.WriteString("$" + strconv.Itoa(n))
			if i := strings.IndexByte(t.S, '!'); i >= 0 { // labels after ! are significant
				c.sb.WriteString(t.S[i:])
			}
		}
		return
	}
	if !c.reach {
		c.sb.WriteString(t.Op)
		if t.S != "" {
			c.sb.WriteString(strconv.Quote(t.S))
		}
		c.sb.WriteByte('(')
	}
	for _, a := range t.Args {
		c.val(a)
		if !c.reach {
			c.sb.WriteByte(',')
		}
	}
	if !c.reach {
		c.sb.WriteByte(')')
	}
}

func (c *canon) touch(b BV) {
	d := b.deps()
	for v := 0; v < NV; v++ {
		if d>>uint(v)&1 == 1 && c.vars[v] < 0 {
			c.vars[v] = c.nvar
			c.nvar++
		}
	}
}

func (c *canon) lin(l Lin) {
	if c.reach {
		for _, t := range l.T {
			c.term(t.A)
		}
		return
	}
	c.sb.WriteString(strconv.FormatInt(l.C, 10))
	// order the atoms by first-seen number when possible
	ts := append([]LinTerm(nil), l.T...)
	sort.SliceStable(ts, func(i, j int) bool {
		a, aok := c.syms[ts[i].A.Key()]
		b, bok := c.syms[ts[j].A.Key()]
		if aok && bok {
			return a < b
		}
		return aok && !bok
	})
	for _, t := range ts {
		c.sb.WriteString("+" + strconv.FormatInt(t.K, 10) + "*")
		c.term(t.A)
	}
}

func (c *canon) bv(b BV) {
	c.touch(b)
	if c.reach {
		return
	}
	for _, t := range b {
		c.sb.WriteString(strconv.FormatUint(t.permute(&c.vars).hash(), 16))
		c.sb.WriteByte('.')
	}
}

func (c *canon) pred(p *Pred) {
	if !c.reach {
		c.sb.WriteString(strconv.Itoa(p.Kind))
		if p.Neg {
			c.sb.WriteByte('!')
		}
	}
	switch p.Kind {
	case PZero:
		c.bv(p.B)
	case PGE, PEQ0:
		c.lin(p.L)
	case PAtom:
		c.term(p.A)
	}
	for _, q := range p.Sub {
		c.pred(q)
	}
}

func (c *canon) w(s string) {
	if !c.reach {
		c.sb.WriteString(s)
	}
}

func (c *canon) vals(vs []Val) {
	for _, v := range vs {
		c.val(v)
		c.w(";")
	}
}

func (c *canon) val(v Val) {
	switch v := v.(type) {
	case nil:
		c.w("_")
	case VNil:
		c.w("N")
	case VBool:
		c.w("b")
		c.pred(v.P)
	case VNum:
		if v.L != nil {
			c.w("n")
			c.lin(*v.L)
		} else {
			c.w("s")
			c.bv(v.B)
		}
	case VStr:
		c.w("S")
		c.term(v.T)
	case VOpaque:
		c.w("o")
		c.term(v.T)
	case VPtr:
		c.w("p")
		c.obj(v.Obj)
		for _, st := range v.Path {
			if st.Idx != nil {
				c.w("[")
				c.val(st.Idx)
			} else {
				c.w("." + strconv.Itoa(st.Field))
			}
		}
	case VMap:
		c.w("m")
		c.obj(v.Obj)
	case VSlice:
		c.w("q")
		c.obj(v.Obj)
	case VIter:
		c.w("i")
		c.obj(v.Obj)
	case VFunc:
		c.w("f" + v.Fn.String())
		c.vals(v.Bind)
	case VBuiltin:
		c.w("B" + v.Name)
	case VIface:
		c.w("I" + v.T.String())
		c.val(v.V)
	case VStruct:
		c.w("{")
		c.vals(v.F)
		c.w("}")
	case VTuple:
		c.w("(")
		c.vals(v.F)
		c.w(")")
	default:
		panic(fmt.Sprintf("canon(%T)", v))
	}
}

func (c *canon) ghost(g map[string]Val) {
	ks := make([]string, 0, len(g))
	for k := range g {
		if c.reach && k[0] == '~' {
			continue // looked at once everything else is known
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.w(k + "=")
		c.val(g[k])
		c.w(";")
	}
}

func (s *State) newCanon(reach bool) *canon {
	c := &canon{s: s, objs: map[int]int{}, syms: map[string]int{}, reach: reach, weak: map[string]bool{}}
	for i := range c.vars {
		c.vars[i] = -1
	}
	return c
}

// roots visits everything held by frames, globals and ghosts.
func (c *canon) roots() {
	s := c.s
	for fi, f := range s.Frames {
		c.w("\nF" + f.Fn.String() + ":" + strconv.Itoa(f.Block.Index) + "." + strconv.Itoa(f.PC) + f.marker)
		live := s.M.liveRegs(f)
		_ = fi
		for _, r := range live {
			if v, ok := f.Regs[r]; ok {
				c.w(" " + r.Name() + "=")
				c.val(v)
			}
		}
		c.w("|")
		c.vals(f.Bind)
		for _, d := range f.Defers {
			c.w("D")
			c.val(d.fn)
			c.vals(d.args)
		}
	}
	c.w("\nG")
	c.ghost(s.Ghost)
	for _, g := range s.M.globalObjs {
		if _, ok := s.Heap[g]; ok {
			c.obj(g)
		}
	}
}

func (c *canon) heap(skipLazy bool) {
	for i := 0; i < len(c.queue); i++ {
		id := c.queue[i]
		o := c.s.Heap[id]
		if o == nil {
			c.w("?")
			continue
		}
		c.w("\nO" + string(o.Kind) + o.Lazy + " ")
		if o.V != nil {
			c.val(o.V)
		}
		if !(skipLazy && o.Lazy != "") {
			ents := o.Ent
			if o.Kind == 'm' && !c.reach {
				ents = append([]MapEnt(nil), o.Ent...)
				sort.SliceStable(ents, func(i, j int) bool { return c.entRank(ents[i].K) < c.entRank(ents[j].K) })
			}
			for _, e := range ents {
				c.val(e.K)
				c.w("->")
				c.val(e.V)
				c.w(";")
			}
		}
		if len(o.Absent) > 0 {
			c.w("!")
			c.vals(o.Absent)
		}
		c.vals(o.Elems)
		if o.RestN != nil {
			c.w("R")
			c.val(o.Rest)
			c.lin(*o.RestN)
		}
		if o.Bytes != nil {
			c.w("Y")
			c.term(o.Bytes)
		}
		if o.Base != nil {
			c.val(o.Base)
		}
		if o.LenAtom != nil {
			c.term(o.LenAtom)
		}
		if len(o.At) > 0 {
			c.ghost(o.At)
		}
		if o.Kind == 'i' {
			c.obj(o.M)
			var ks []string
			for _, e := range c.s.Heap[o.M].Ent {
				if o.Seen[Key(e.K)] {
					c.w("v")
					c.val(e.K)
				}
			}
			sort.Strings(ks)
		}
		c.ghost(o.Ghost)
	}
}

func (c *canon) entRank(k Val) string {
	switch k := k.(type) {
	case VNil:
		return "0"
	case VStr:
		if k.T.Op == "sym" {
			if n, ok := c.syms[k.T.Key()]; ok {
				return fmt.Sprintf("1%06d", n)
			}
			return "2"
		}
		return "1" + k.T.Key()
	case VOpaque:
		if n, ok := c.syms[k.T.Key()]; ok {
			return fmt.Sprintf("1%06d", n)
		}
		return "2"
	}
	return "3" + Key(k)
}

// gc drops unreachable objects, set variables and facts.
func (s *State) gc() {
	s.dropDeadCells()
	// 1. entries of lazy maps that nothing else refers to are forgotten
	c := s.newCanon(true)
	c.roots()
	c.heap(true)
	for _, id := range c.queue {
		o := s.Heap[id]
		if o == nil || o.Lazy == "" || len(o.Ent) == 0 {
			continue
		}
		var keep []MapEnt
		drop := false
		for _, e := range o.Ent {
			hold := false
			if s.M.H.HoldEntry != nil && s.M.H.HoldEntry(s, o, e) {
				hold = true
			}
			if !hold {
				for _, oid := range s.directObjs(e.V) {
					if _, ok := c.objs[oid]; ok {
						hold = true
					}
				}
			}
			if hold {
				keep = append(keep, e)
			} else {
				drop = true
			}
		}
		if drop {
			s.Mut(id).Ent = keep
		}
	}
	// 2. full reachability
	c = s.newCanon(true)
	c.roots()
	c.heap(false)
	// ghosts that describe a symbol live as long as the symbol does
	for more := true; more; {
		more = false
		for k, v := range s.Ghost {
			t, ok := v.(VTuple)
			if k[0] != '~' || !ok || c.weak[k] {
				continue
			}
			if o, ok := t.F[0].(VOpaque); ok {
				if _, in := c.syms[o.T.Key()]; in {
					c.weak[k] = true
					more = true
					c.vals(t.F)
				}
			}
		}
		if more {
			c.heap(false)
		}
	}
	for k := range s.Ghost {
		if k[0] == '~' && !c.weak[k] {
			delete(s.Ghost, k)
		}
	}
	var gone []int
	for id := range s.Heap {
		if _, ok := c.objs[id]; !ok && s.M.frozen[id] == nil {
			gone = append(gone, id)
		}
	}
	sort.Ints(gone)
	if s.M.H.Forget != nil {
		for _, id := range gone {
			s.M.H.Forget(s, id, s.Heap[id])
		}
	}
	for _, id := range gone {
		delete(s.Heap, id)
	}
	// 3. facts about vanished symbols
	s.dropFacts(c)
	for v := 0; v < NV; v++ {
		if s.Cond.used>>uint(v)&1 == 1 && c.vars[v] < 0 {
			s.Cond.project(v)
			s.VarName[v] = ""
			for k, w := range s.Bits {
				if w == v {
					delete(s.Bits, k)
					delete(s.BitsT, k)
				}
			}
		}
	}
	s.Cond.simplify()
}

func (s *State) directObjs(v Val) []int {
	c := s.newCanon(true)
	c.val(v)
	return c.queue
}

func (s *State) dropFacts(c *canon) {
	known := func(t *Term) bool {
		ok := true
		var visit func(v Val)
		var vt func(t *Term)
		vt = func(t *Term) {
			if t.Op == "sym" {
				if _, in := c.syms[t.Key()]; !in {
					ok = false
				}
			}
			for _, a := range t.Args {
				visit(a)
			}
		}
		visit = func(v Val) {
			switch v := v.(type) {
			case VStr:
				vt(v.T)
			case VOpaque:
				vt(v.T)
			case VNum:
				if v.L != nil {
					for _, x := range v.L.T {
						vt(x.A)
					}
				}
			case VStruct:
				for _, f := range v.F {
					visit(f)
				}
			case VIface:
				visit(v.V)
			}
		}
		vt(t)
		return ok
	}
	var ls []Lin
	at := map[string]int{}
	for _, l := range s.Lins {
		if l.IsConst() {
			continue
		}
		ok := true
		for _, t := range l.T {
			if !known(t.A) {
				ok = false
			}
		}
		if ok {
			// of facts that differ in the constant only the strongest counts
			k := Key(numLin(Lin{T: l.T}))
			if i, dup := at[k]; dup {
				if l.C < ls[i].C {
					ls[i] = l
				}
				continue
			}
			at[k] = len(ls)
			ls = append(ls, l)
		}
	}
	s.Lins = ls
	var as []AtomFact
	seen := map[string]bool{}
	for _, a := range s.Atoms {
		if k := a.T.Key(); known(a.T) && !seen[k] {
			seen[k] = true
			if a.T.Op == "eq0" && !a.OK {
				if l, ok := LinOf(a.T.Args[0]); ok && (s.geFact(l.add(linConst(-1), 1)) || s.geFact(l.scale(-1).add(linConst(-1), 1))) {
					continue // follows from the linear facts
				}
			}
			as = append(as, a)
		}
	}
	s.Atoms = as
}

// Hash garbage-collects and gives a canonical fingerprint.
func (s *State) Hash() string {
	s.gc()
	c := s.newCanon(false)
	c.roots()
	c.heap(false)
	// facts, in canonical order
	var fs []string
	for _, l := range s.Lins {
		d := &canon{s: s, objs: c.objs, syms: c.syms, vars: c.vars, nvar: c.nvar}
		d.lin(l)
		fs = append(fs, d.sb.String())
	}
	for _, a := range s.Atoms {
		d := &canon{s: s, objs: c.objs, syms: c.syms, vars: c.vars, nvar: c.nvar}
		d.term(a.T)
		fs = append(fs, d.sb.String()+strconv.FormatBool(a.OK))
	}
	for _, e := range s.Cond.Exist {
		d := &canon{s: s, vars: c.vars}
		d.bv(e)
		fs = append(fs, "E"+d.sb.String())
	}
	sort.Strings(fs)
	for _, f := range fs {
		c.sb.WriteString("\n" + f)
	}
	for _, t := range s.Cond.Care {
		fmt.Fprintf(&c.sb, " %x", t.permute(&c.vars).hash())
	}
	for k, v := range s.Bits {
		if n, ok := c.syms[k]; ok && c.vars[v] >= 0 {
			fs = append(fs, fmt.Sprintf("%d:%d", n, c.vars[v]))
		}
	}
	h := fnv.New128a()
	h.Write([]byte(c.sb.String()))
	if s.M.DumpStates {
		fmt.Println("---- state", fmt.Sprintf("%x", h.Sum(nil)), c.sb.String())
	}
	return string(h.Sum(nil))
}
