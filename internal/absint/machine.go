package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Undecided is the panic value for constructs the interpreter cannot decide.
type Undecided struct{ Msg string }

// Deadline ends every exploration; what is left is undecided.
var Deadline time.Time

func undecided(msg string) Undecided { return Undecided{msg} }

// Outcome is one result of a modelled call.
type Outcome struct {
	S *State
	V Val
}

// CallInfo describes a call presented to a hook.
type CallInfo struct {
	Site   ssa.CallInstruction
	Name   string        // full name of a static callee or method
	Fn     *ssa.Function // static callee, if any
	Method *types.Func   // interface method, if invoked dynamically
	Recv   Val           // receiver of an invoke
	Args   []Val
	Common *ssa.CallCommon
}

// Hooks lets a scenario give meaning to the environment and watch the program.
type Hooks struct {
	Call      func(m *Machine, s *State, c *CallInfo) ([]Outcome, bool)
	Send      func(m *Machine, s *State, in ssa.Instruction, ch, v Val, blocking bool) []*State
	Offer     func(m *Machine, s *State, in ssa.Instruction, ch, v Val, blocking bool)
	Close     func(m *Machine, s *State, ch Val)
	Recv      func(m *Machine, s *State, in ssa.Instruction, ch Val, commaOk bool) ([]Outcome, bool)
	Go        func(m *Machine, s *State, in *ssa.Go, fn Val, args []Val)
	Return    func(m *Machine, s *State, res []Val)
	Panic     func(m *Machine, s *State, in ssa.Instruction, v Val, why string)
	Lazy      func(m *Machine, s *State, obj int, op string, key Val) []*State
	RangeDone func(s *State, obj int)
	// Counts reports whether "len:" ghosts follow the length of a sequence.
	Counts func(rest Val) bool
	// Head is called whenever a loop head is entered.
	Head      func(s *State)
	NextLazy  func(m *Machine, s *State, obj int) []Outcome // fresh (key,value) tuples
	Forget    func(s *State, id int, o *Obj)
	HoldEntry func(s *State, o *Obj, e MapEnt) bool
	Fold      func(s *State, v Val) (Val, bool)
	Unfold    func(m *Machine, s *State, tmpl Val) []Outcome
	Load      func(m *Machine, s *State, in ssa.Instruction, p VPtr, t types.Type) ([]Outcome, bool)
	Store     func(m *Machine, s *State, in ssa.Instruction, p VPtr, v Val)
	MapWrite  func(m *Machine, s *State, in ssa.Instruction, obj int, k, v Val)
	MapRead   func(m *Machine, s *State, in ssa.Instruction, obj int, k Val)
	Convert   func(m *Machine, s *State, in *ssa.Convert, v Val) ([]Outcome, bool)
	NewString func(s *State, t *Term)
	Enter     func(m *Machine, s *State, fn *ssa.Function, args []Val)
	Fresh     func(s *State, t types.Type, label string) (Val, bool)
}

// Machine runs scenarios over one program.
type Machine struct {
	Prog       *ssa.Program
	Pkg        *ssa.Package
	Cl         *Classes
	H          Hooks
	BitName    func(uint32) string
	Steps      int
	States     int
	Merged     int
	MaxSteps   int
	nundec     int
	Unroll     int
	WidenAfter int  // loop passes before compound values are generalised
	ScanLoops  bool // generalise at once in loops that call nothing
	scan       map[*ssa.BasicBlock]bool
	DumpStates bool
	Debug      bool
	Undecided  []string
	Split      []uint32 // constants the bit partition must respect
	zeroGlob   bool
	mut        map[*ssa.Global]bool
	frozen     map[int]*Obj // objects the initialisers left, while unmodified
	PathEnds   int
	Panics     int
	Funcs      map[*ssa.Function]bool
	visited    map[string]bool
	work       []*State
	globals    map[*ssa.Global]int
	globalObjs []int
	liveCache  map[*ssa.BasicBlock][]map[ssa.Value]bool
	liveFn     map[*ssa.Function]bool
	heads      map[*ssa.BasicBlock]bool
	headsFn    map[*ssa.Function]bool
	cells      map[*ssa.Function]*cellInfo
	Inline     func(fn *ssa.Function) bool
	maxDepth   int
	undecSeen  map[string]bool
}

// NewMachine prepares an interpreter for prog with notify's package pkg.
func NewMachine(prog *ssa.Program, pkg *ssa.Package, cl *Classes) *Machine {
	return &Machine{
		Prog: prog, Pkg: pkg, Cl: cl,
		MaxSteps: 6000000, Unroll: 4,
		Funcs:     map[*ssa.Function]bool{},
		visited:   map[string]bool{},
		globals:   map[*ssa.Global]int{},
		liveCache: map[*ssa.BasicBlock][]map[ssa.Value]bool{},
		liveFn:    map[*ssa.Function]bool{},
		heads:     map[*ssa.BasicBlock]bool{},
		headsFn:   map[*ssa.Function]bool{},
		cells:     map[*ssa.Function]*cellInfo{},
		undecSeen: map[string]bool{},
		maxDepth:  40,
		BitName:   func(m uint32) string { return fmt.Sprintf("%#x", m) },
	}
}

// NewState is an empty state.
func (m *Machine) NewState() *State {
	s := &State{M: m, Heap: map[int]*Obj{}, owned: map[int]bool{}, Bits: map[string]int{}, BitsT: map[string]*Term{}, Ghost: map[string]Val{}}
	s.Cond = &Cond{Care: make([]TT, len(m.Cl.Mask))}
	for k := range s.Cond.Care {
		s.Cond.Care[k] = ttTrue
	}
	return s
}

func (m *Machine) undec(s *State, in ssa.Instruction, msg string) {
	pos := ""
	if in != nil {
		pos = m.Pos(in)
	}
	k := pos + ": " + msg
	if m.nundec++; m.nundec == maxUndecided {
		// Hopeless: the rest would only take time.
		m.MaxSteps = 0
	}
	if !m.undecSeen[k] {
		m.undecSeen[k] = true
		m.Undecided = append(m.Undecided, k)
	}
}

// Pos renders the position of an instruction.
func (m *Machine) Pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() && in.Block() != nil {
		for _, j := range in.Block().Instrs {
			if j.Pos().IsValid() {
				p = j.Pos()
				break
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	q := m.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	fn := ""
	if in.Parent() != nil {
		fn = " (" + in.Parent().RelString(m.Pkg.Pkg) + ")"
	}
	return fmt.Sprintf("%s:%d%s", f, q.Line, fn)
}

// Init interprets the package initialisers and gives the state they leave;
// skip names the calls to replace by opaque results.
func (m *Machine) Init() *State {
	s := m.NewState()
	fn := m.Pkg.Func("init")
	if fn == nil {
		return s
	}
	h := m.H
	defer func() { m.H = h; m.zeroGlob = false }()
	m.zeroGlob = true
	var out *State
	m.H = Hooks{
		Call: func(m *Machine, s *State, c *CallInfo) ([]Outcome, bool) {
			if c.Fn != nil && c.Fn.Pkg != m.Pkg && c.Fn.Name() == "init" {
				return []Outcome{{s, VTuple{}}}, true // another package's initialiser
			}
			if c.Fn != nil && c.Fn.Pkg == m.Pkg && c.Fn.Signature.Results().Len() == 1 {
				if n, ok := c.Fn.Signature.Results().At(0).Type().(*types.Named); ok && n.Obj().Name() == "tree" {
					return []Outcome{{s, s.Opq("defaultTree", true, true)}}, true
				}
			}
			return nil, false
		},
		Panic: func(m *Machine, s *State, in ssa.Instruction, v Val, why string) {
			m.undec(s, in, "package initialisation panics: "+why)
		},
		Return: func(m *Machine, s *State, res []Val) {
			if out == nil {
				out = s.Clone()
			}
		},
	}
	m.Push(s, fn, nil, nil, nil, nil)
	m.Run(s)
	m.work = nil
	if out == nil {
		if len(m.Split) == 0 {
			m.Undecided = append(m.Undecided, "package initialisation could not be interpreted")
		}
		out = m.NewState()
	}
	out.dead = false
	out.Trace = nil
	m.frozen = map[int]*Obj{}
	for id, o := range out.Heap {
		m.frozen[id] = o
	}
	out.owned = map[int]bool{}
	m.visited = map[string]bool{}
	m.Steps, m.States, m.Merged, m.PathEnds, m.Panics = 0, 0, 0, 0, 0
	m.Funcs = map[*ssa.Function]bool{}
	return out
}

// Where is the position the state is at.
func (s *State) Where() string {
	if len(s.Frames) == 0 {
		return "?"
	}
	f := s.Frames[len(s.Frames)-1]
	if f.PC < len(f.Block.Instrs) {
		return s.M.Pos(f.Block.Instrs[f.PC])
	}
	return f.Fn.String()
}

// Stack renders the call stack.
func (s *State) Stack() string {
	var p []string
	for _, f := range s.Frames {
		p = append(p, f.Fn.RelString(s.M.Pkg.Pkg))
	}
	return strings.Join(p, " > ")
}

func (s *State) top() *Frame { return s.Frames[len(s.Frames)-1] }

// Push starts an activation of fn.
func (m *Machine) Push(s *State, fn *ssa.Function, args, bind []Val, site ssa.CallInstruction, res ssa.Value) {
	if len(fn.Blocks) == 0 {
		panic(undecided("no body: " + fn.String()))
	}
	if len(s.Frames) > m.maxDepth {
		panic(undecided("call depth exceeded at " + fn.String()))
	}
	f := &Frame{Fn: fn, Block: fn.Blocks[0], Regs: map[ssa.Value]Val{}, Bind: bind, Site: site, Result: res,
		visits: map[*ssa.BasicBlock]int{}, phiOld: map[ssa.Value]Val{}, phiNew: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.Regs[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.Regs[fv] = bind[i]
		}
	}
	m.Funcs[fn] = true
	if len(s.Frames) > maxRecursion {
		k := 0
		for _, g := range s.Frames {
			if g.Fn == fn {
				k++
			}
		}
		if k > maxRecursion {
			panic(undecided("recursion of " + fn.Name() + " is too deep"))
		}
	}
	s.Frames = append(s.Frames, f)
	if m.H.Enter != nil {
		m.H.Enter(m, s, fn, args)
	}
}

// Run explores every path of the states given.
func (m *Machine) Run(init ...*State) {
	m.work = append(m.work, init...)
	for len(m.work) > 0 {
		s := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.runState(s)
		if m.Steps > m.MaxSteps {
			m.Undecided = append(m.Undecided, fmt.Sprintf("step budget of %d exhausted at %s", m.MaxSteps, s.Where()+" in "+s.Stack()))
			m.work = nil
			return
		}
	}
}

func (m *Machine) runState(s *State) {
	m.States++
	defer func() {
		if r := recover(); r != nil {
			if sp, ok := r.(needSplit); ok {
				m.Split = append(m.Split, sp.c)
				m.work = nil
				return
			}
			u, ok := r.(Undecided)
			if !ok {
				if m.Debug {
					panic(r)
				}
				u = Undecided{fmt.Sprintf("internal: %v", r)}
			}
			var in ssa.Instruction
			if len(s.Frames) > 0 {
				f := s.top()
				if f.PC < len(f.Block.Instrs) {
					in = f.Block.Instrs[f.PC]
				}
			}
			m.undec(s, in, u.Msg)
		}
	}()
	for !s.dead && len(s.Frames) > 0 {
		m.Steps++
		if m.Steps > m.MaxSteps {
			return
		}
		if m.Steps&255 == 0 && !Deadline.IsZero() && time.Now().After(Deadline) {
			m.undec(s, nil, "the time set for this check is used up")
			m.work = nil
			return
		}
		if m.Steps&0x3fff == 0 && overMemory() {
			m.undec(s, nil, "the memory set for this check is used up")
			m.work = nil
			Deadline = time.Now()
			return
		}
		m.step(s)
	}
}

// maxRecursion bounds how often a function is on the stack at once.
const maxRecursion = 7

// maxUndecided bounds how many paths may be undecided.
const maxUndecided = 200

// MaxHeap bounds the memory an analysis takes.
var MaxHeap uint64 = 4 << 30

func overMemory() bool {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc > MaxHeap
}

// Fork schedules an additional state.
func (m *Machine) Fork(s *State) { m.work = append(m.work, s) }

func (m *Machine) kill(s *State) { s.dead = true }

// ---- operands

func (m *Machine) globalObj(s *State, g *ssa.Global) int {
	id, ok := m.globals[g]
	if !ok {
		// one stable negative id per global
		id = -1 - len(m.globals)
		m.globals[g] = id
		m.globalObjs = append(m.globalObjs, id)
	}
	if _, ok := s.Heap[id]; !ok {
		t := g.Type().(*types.Pointer).Elem()
		var v Val
		if g.Pkg == m.Pkg && (m.zeroGlob || !m.mutable(g)) {
			v = m.Zero(s, t)
		} else if types.Identical(t, types.Universe.Lookup("error").Type()) {
			v = VOpaque{T: &Term{Op: "global", S: g.String()}, NonNil: true, Uniq: true}
		} else {
			v = m.Unknown(s, t, g.Name())
		}
		s.Heap[id] = &Obj{Kind: 'c', Typ: t, Label: g.Name(), V: v}
	}
	return id
}

// mutable reports whether a global of the package may change after the
// initialisers ran.
func (m *Machine) mutable(g *ssa.Global) bool {
	if m.mut == nil {
		m.mut = map[*ssa.Global]bool{}
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			if f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						for _, op := range in.Operands(nil) {
							if x, ok := (*op).(*ssa.Global); ok {
								m.mut[x] = true
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				scan(a)
			}
		}
		for _, mem := range m.Pkg.Members {
			switch mem := mem.(type) {
			case *ssa.Function:
				scan(mem)
			case *ssa.Type:
				for _, t := range []types.Type{mem.Type(), types.NewPointer(mem.Type())} {
					ms := m.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := m.Prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							scan(f)
						}
					}
				}
			}
		}
	}
	return m.mut[g]
}

// SetGlobal fixes the contents of a global.
func (m *Machine) SetGlobal(s *State, g *ssa.Global, v Val) {
	id := m.globalObj(s, g)
	s.Mut(id).V = v
}

// Global reads a global.
func (m *Machine) Global(s *State, g *ssa.Global) Val { return s.Obj(m.globalObj(s, g)).V }

func (m *Machine) val(s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return m.constVal(s, v)
	case *ssa.Function:
		return VFunc{Fn: v}
	case *ssa.Global:
		return VPtr{Obj: m.globalObj(s, v)}
	case *ssa.Builtin:
		return VBuiltin{v.Name()}
	}
	x, ok := s.top().Regs[v]
	if !ok {
		panic(undecided("no value for " + v.Name() + " = " + v.String()))
	}
	return x
}

func (m *Machine) constVal(s *State, c *ssa.Const) Val {
	if c.Value == nil {
		return m.Zero(s, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolOf(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return Num(i)
		}
		u, _ := constant.Uint64Val(c.Value)
		return Num(int64(u))
	}
	return VOpaque{T: &Term{Op: "constv", S: c.Value.ExactString()}, NonNil: true}
}

// Zero is the zero value of a type.
func (m *Machine) Zero(s *State, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolOf(false)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsInteger != 0:
			return Num(0)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return VNil{}
		}
		return VOpaque{T: &Term{Op: "zero", S: t.String()}}
	case *types.Struct:
		r := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			r.F = append(r.F, m.Zero(s, u.Field(i).Type()))
		}
		return r
	case *types.Array:
		if u.Len() > 64 {
			return VOpaque{T: &Term{Op: "zeroarray", S: t.String()}, NonNil: true}
		}
		r := VStruct{}
		for i := int64(0); i < u.Len(); i++ {
			r.F = append(r.F, m.Zero(s, u.Elem()))
		}
		return r
	case *types.Tuple:
		r := VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.F = append(r.F, m.Zero(s, u.At(i).Type()))
		}
		return r
	}
	return VNil{}
}

// IsEventLike reports types treated as bit sets.
func IsEventLike(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

// Unknown is an arbitrary value of a type.
func (m *Machine) Unknown(s *State, t types.Type, label string) Val {
	if m.H.Fresh != nil {
		if v, ok := m.H.Fresh(s, t, label); ok {
			return v
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{&Pred{Kind: PAtom, A: s.Sym(label)}}
		case u.Info()&types.IsString != 0:
			return VStr{s.Sym(label)}
		case u.Info()&types.IsInteger != 0:
			v := s.Int(label)
			if u.Info()&types.IsUnsigned != 0 {
				s.AddGE(*v.L)
			}
			return v
		}
		return s.Opq(label, false, false)
	case *types.Struct:
		r := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			r.F = append(r.F, m.Unknown(s, u.Field(i).Type(), label+"."+u.Field(i).Name()))
		}
		return r
	case *types.Array:
		if u.Len() > 64 {
			return s.Opq(label, true, false)
		}
		r := VStruct{}
		for i := int64(0); i < u.Len(); i++ {
			r.F = append(r.F, m.Unknown(s, u.Elem(), fmt.Sprintf("%s[%d]", label, i)))
		}
		return r
	case *types.Tuple:
		r := VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.F = append(r.F, m.Unknown(s, u.At(i).Type(), label))
		}
		return r
	case *types.Slice:
		n := s.Int("len(" + label + ")")
		s.AddGE(*n.L)
		return VSlice{s.New(&Obj{Kind: 'q', Typ: t, Bytes: s.Sym(label), RestN: n.L})}
	}
	return s.Opq(label, false, false)
}

// ---- comparisons

func (m *Machine) isNil(s *State, v Val) *Pred {
	switch v := v.(type) {
	case VNil:
		return &Pred{Kind: PTrue}
	case VOpaque:
		if v.NonNil {
			return &Pred{Kind: PTrue, Neg: true}
		}
		return &Pred{Kind: PAtom, A: App("nil", v)}
	case VSlice:
		o := s.Obj(v.Obj)
		if o.RestN == nil && len(o.Elems) == 0 {
			return &Pred{Kind: PAtom, A: App("nilslice", v)}
		}
		return &Pred{Kind: PTrue, Neg: true}
	}
	return &Pred{Kind: PTrue, Neg: true}
}

func (m *Machine) eqAtom(a, b Val) *Pred {
	if Key(a) > Key(b) {
		a, b = b, a
	}
	return &Pred{Kind: PAtom, A: App("eq", a, b)}
}

// Eq is the predicate a == b.
func (m *Machine) Eq(s *State, a, b Val) *Pred {
	yes, no := &Pred{Kind: PTrue}, &Pred{Kind: PTrue, Neg: true}
	if _, ok := a.(VNil); ok {
		return m.isNil(s, b)
	}
	if _, ok := b.(VNil); ok {
		return m.isNil(s, a)
	}
	switch x := a.(type) {
	case VNum:
		y, ok := b.(VNum)
		if !ok {
			return m.eqAtom(a, b)
		}
		if x.L != nil && y.L != nil && !m.bitsKnown(s, x) && !m.bitsKnown(s, y) {
			return &Pred{Kind: PEQ0, L: x.L.add(*y.L, -1)}
		}
		if !m.bitOK(x) || !m.bitOK(y) {
			return &Pred{Kind: PAtom, A: s.Sym("cmp")}
		}
		return &Pred{Kind: PZero, B: s.BVOf(x).Xor(s.BVOf(y))}
	case VBool:
		y := b.(VBool)
		if y.P.Kind == PTrue {
			if y.P.Neg {
				return x.P.not()
			}
			return x.P
		}
		if x.P.Kind == PTrue {
			if x.P.Neg {
				return y.P.not()
			}
			return y.P
		}
		if x.P.key() == y.P.key() {
			return yes
		}
		return m.eqAtom(a, b)
	case VStr:
		y, ok := b.(VStr)
		if !ok {
			return m.eqAtom(a, b)
		}
		if x.T.Key() == y.T.Key() {
			return yes
		}
		if x.T.Op == "const" && y.T.Op == "const" {
			return no
		}
		// different lengths cannot be equal
		d := lenLin(x.T).add(lenLin(y.T), -1)
		switch s.Truth(&Pred{Kind: PEQ0, L: d}) {
		case 0:
			return no
		case 1:
			if d.IsConst() && lenLin(x.T).IsConst() && lenLin(x.T).C == 0 {
				return yes
			}
		}
		if y.T.Op == "const" && y.T.S == "" {
			return &Pred{Kind: PEQ0, L: lenLin(x.T)}
		}
		if x.T.Op == "const" && x.T.S == "" {
			return &Pred{Kind: PEQ0, L: lenLin(y.T)}
		}
		return m.eqAtom(a, b)
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return m.eqAtom(a, b)
		}
		p := &Pred{Kind: PAnd}
		var acc BV
		for i := range x.F {
			q := m.Eq(s, x.F[i], y.F[i])
			if q.Kind == PTrue {
				if q.Neg {
					return no
				}
				continue
			}
			if q.Kind == PZero && !q.Neg {
				if acc == nil {
					acc = q.B
				} else {
					acc = acc.Or(q.B)
				}
				continue
			}
			p.Sub = append(p.Sub, q)
		}
		if acc != nil {
			z := &Pred{Kind: PZero, B: acc}
			if len(p.Sub) == 0 {
				return z
			}
			p.Sub = append(p.Sub, z)
		}
		if len(p.Sub) == 0 {
			return yes
		}
		return p
	case VPtr:
		if y, ok := b.(VPtr); ok {
			if Key(x) == Key(y) {
				return yes
			}
			return no
		}
		return m.eqAtom(a, b)
	case VIface:
		switch y := b.(type) {
		case VIface:
			if !types.Identical(x.T, y.T) {
				return no
			}
			return m.Eq(s, x.V, y.V)
		case VOpaque:
			if y.Uniq && !mayBeErrno(y, x) {
				return no
			}
		}
		return m.eqAtom(a, b)
	case VOpaque:
		switch y := b.(type) {
		case VOpaque:
			if x.T.Key() == y.T.Key() {
				return yes
			}
			if x.Uniq && y.Uniq {
				return no
			}
		case VIface:
			if x.Uniq && !mayBeErrno(x, y) {
				return no
			}
		}
		return m.eqAtom(a, b)
	}
	if Key(a) == Key(b) {
		return yes
	}
	return m.eqAtom(a, b)
}

func (m *Machine) bitsKnown(s *State, n VNum) bool {
	if n.B != nil {
		return true
	}
	if n.L != nil && len(n.L.T) == 1 && n.L.C == 0 && n.L.T[0].K == 1 {
		_, ok := s.Bits[n.L.T[0].A.Key()]
		return ok
	}
	return false
}

// KeyEq decides equality of map keys: 1, 0, -1.
func (m *Machine) KeyEq(s *State, a, b Val) int { return s.Truth(m.Eq(s, a, b)) }

// ---- arithmetic

func wrap(t types.Type, c int64) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return c
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(c))
	case types.Int8:
		return int64(int8(c))
	case types.Uint16:
		return int64(uint16(c))
	case types.Int16:
		return int64(int16(c))
	case types.Uint32:
		return int64(uint32(c))
	case types.Int32:
		return int64(int32(c))
	}
	return c
}

func (m *Machine) binop(s *State, in *ssa.BinOp) Val {
	x, y := m.val(s, in.X), m.val(s, in.Y)
	switch in.Op {
	case token.EQL:
		return VBool{m.Eq(s, x, y)}
	case token.NEQ:
		return VBool{m.Eq(s, x, y).not()}
	}
	if xs, ok := x.(VStr); ok {
		if ys, ok := y.(VStr); ok {
			if in.Op == token.ADD {
				return VStr{concat(xs.T, ys.T)}
			}
			if xs.T.Op == "const" && ys.T.Op == "const" {
				switch in.Op {
				case token.LSS:
					return BoolOf(xs.T.S < ys.T.S)
				case token.GTR:
					return BoolOf(xs.T.S > ys.T.S)
				}
			}
			return VBool{&Pred{Kind: PAtom, A: App("cmp"+in.Op.String(), xs, ys)}}
		}
	}
	if xb, ok := x.(VBool); ok {
		if yb, ok := y.(VBool); ok {
			switch in.Op {
			case token.AND:
				return VBool{&Pred{Kind: PAnd, Sub: []*Pred{xb.P, yb.P}}}
			case token.OR:
				return VBool{&Pred{Kind: PAnd, Neg: true, Sub: []*Pred{xb.P.not(), yb.P.not()}}}
			}
		}
	}
	xn, ok1 := x.(VNum)
	yn, ok2 := y.(VNum)
	if !ok1 || !ok2 {
		return m.Unknown(s, in.Type(), "op")
	}
	bothConst := xn.L != nil && yn.L != nil && xn.L.IsConst() && yn.L.IsConst()
	switch in.Op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if bothConst {
			a, b := xn.L.C, yn.L.C
			var r int64
			switch in.Op {
			case token.AND:
				r = a & b
			case token.OR:
				r = a | b
			case token.XOR:
				r = a ^ b
			case token.AND_NOT:
				r = a &^ b
			}
			return Num(wrap(in.Type(), r))
		}
		if !m.bitOK(xn) || !m.bitOK(yn) {
			return m.Unknown(s, in.Type(), "bitop")
		}
		a, b := s.BVOf(xn), s.BVOf(yn)
		switch in.Op {
		case token.AND:
			return BVal(a.And(b))
		case token.OR:
			return BVal(a.Or(b))
		case token.XOR:
			return BVal(a.Xor(b))
		default:
			return BVal(a.AndNot(b))
		}
	case token.ADD, token.SUB:
		if xn.L != nil && yn.L != nil {
			k := int64(1)
			if in.Op == token.SUB {
				k = -1
			}
			l := xn.L.add(*yn.L, k)
			if l.IsConst() {
				l.C = wrap(in.Type(), l.C)
			}
			return numLin(l)
		}
	case token.MUL:
		if xn.L != nil && yn.L != nil {
			if xn.L.IsConst() {
				return numLin(yn.L.scale(xn.L.C))
			}
			if yn.L.IsConst() {
				return numLin(xn.L.scale(yn.L.C))
			}
		}
	case token.QUO, token.REM, token.SHL, token.SHR:
		if bothConst {
			a, b := xn.L.C, yn.L.C
			switch {
			case in.Op == token.QUO && b != 0:
				return Num(a / b)
			case in.Op == token.REM && b != 0:
				return Num(a % b)
			case in.Op == token.SHL && b >= 0 && b < 63:
				return Num(wrap(in.Type(), a<<uint(b)))
			case in.Op == token.SHR && b >= 0 && b < 63:
				return Num(a >> uint(b))
			}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if xn.L != nil && yn.L != nil && !m.bitsKnown(s, xn) && !m.bitsKnown(s, yn) {
			d := yn.L.add(*xn.L, -1) // y - x
			switch in.Op {
			case token.LSS: // y-x-1 >= 0
				return VBool{&Pred{Kind: PGE, L: d.add(linConst(-1), 1)}}
			case token.LEQ:
				return VBool{&Pred{Kind: PGE, L: d}}
			case token.GTR:
				return VBool{&Pred{Kind: PGE, L: d.scale(-1).add(linConst(-1), 1)}}
			default:
				return VBool{&Pred{Kind: PGE, L: d.scale(-1)}}
			}
		}
		if !m.bitOK(xn) || !m.bitOK(yn) {
			return m.Unknown(s, in.Type(), "cmp")
		}
		a, b := s.BVOf(xn), s.BVOf(yn)
		if in.Op == token.LSS || in.Op == token.GEQ {
			// x < y  ==  y > x ; x >= y == !(y > x)
			p := m.bvGreater(s, b, a)
			if in.Op == token.GEQ {
				p = p.not()
			}
			return VBool{p}
		}
		p := m.bvGreater(s, a, b)
		if in.Op == token.LEQ {
			p = p.not()
		}
		return VBool{p}
	}
	return m.Unknown(s, in.Type(), "arith")
}

func (m *Machine) bitOK(n VNum) bool {
	if n.B != nil {
		return true
	}
	if n.L.IsConst() {
		if n.L.C < -1<<31 || n.L.C > 1<<32-1 {
			return false
		}
		if _, ok := m.Cl.constBV(uint32(n.L.C)); !ok {
			panic(needSplit{uint32(n.L.C)})
		}
	}
	return true
}

// needSplit asks for a finer partition of the bits.
type needSplit struct{ c uint32 }

// bvGreater is the predicate a > b for unsigned bit sets.
func (m *Machine) bvGreater(s *State, a, b BV) *Pred {
	if s.SubSet(b, a) { // a >= b: greater iff different
		return &Pred{Kind: PZero, B: a.Xor(b), Neg: true}
	}
	if s.SubSet(a, b) {
		return &Pred{Kind: PTrue, Neg: true}
	}
	return &Pred{Kind: PAtom, A: s.Sym("gt")}
}

// ---- memory

// Load reads through a pointer.
func (m *Machine) load(s *State, p VPtr) Val {
	o := s.Obj(p.Obj)
	if o == nil {
		panic(undecided("load from unknown object"))
	}
	v := o.V
	path := p.Path
	if o.Kind == 'q' {
		if len(path) == 0 {
			panic(undecided("load of a sequence"))
		}
		v = m.seqGet(s, p.Obj, path[0])
		path = path[1:]
	}
	for _, st := range path {
		v = m.project(s, v, st)
	}
	return v
}

func (m *Machine) project(s *State, v Val, st Step) Val {
	x, ok := v.(VStruct)
	if !ok {
		panic(undecided(fmt.Sprintf("selecting from %s", Show(v))))
	}
	i := st.Field
	if st.Idx != nil {
		l, ok := LinOf(st.Idx)
		if !ok || !l.IsConst() {
			panic(undecided("array indexed by a computed value"))
		}
		i = int(l.C)
	}
	if i < 0 || i >= len(x.F) {
		panic(undecided("index out of range"))
	}
	return x.F[i]
}

func (m *Machine) update(s *State, v Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	x, ok := v.(VStruct)
	if !ok {
		panic(undecided(fmt.Sprintf("storing into %s", Show(v))))
	}
	i := path[0].Field
	if path[0].Idx != nil {
		l, ok := LinOf(path[0].Idx)
		if !ok || !l.IsConst() {
			panic(undecided("array stored at a computed index"))
		}
		i = int(l.C)
	}
	if i < 0 || i >= len(x.F) {
		panic(undecided("index out of range"))
	}
	n := VStruct{append([]Val(nil), x.F...)}
	n.F[i] = m.update(s, x.F[i], path[1:], nv)
	return n
}

func (m *Machine) store(s *State, p VPtr, v Val) {
	o := s.Mut(p.Obj)
	if o.Kind == 'q' {
		m.seqSet(s, p.Obj, p.Path[0], p.Path[1:], v)
		return
	}
	o.V = m.update(s, o.V, p.Path, v)
}

// seqLen is the length of a sequence.
func (s *State) seqLen(id int) Lin {
	o := s.Obj(id)
	l := linConst(int64(len(o.Elems)))
	if o.RestN != nil {
		l = l.add(*o.RestN, 1)
	}
	return l
}

// SeqLen is the length of a slice value.
func (s *State) SeqLen(v Val) Lin {
	switch v := v.(type) {
	case VSlice:
		return s.seqLen(v.Obj)
	}
	return linConst(0)
}

// locate finds the explicit element an index denotes: (k, true); (-1,true)
// when it lies in the summarised part; (_, false) when unknown.
func (s *State) locate(o *Obj, idx Lin) (int, bool) {
	d := idx
	if o.RestN != nil {
		d = idx.add(*o.RestN, -1)
	}
	if d.IsConst() {
		if d.C < 0 {
			return -1, true
		}
		if int(d.C) < len(o.Elems) {
			return int(d.C), true
		}
		return -2, true // out of range
	}
	if s.geFact(d.scale(-1).add(linConst(-1), 1)) { // d <= -1
		return -1, true
	}
	return 0, false
}

func (m *Machine) seqGet(s *State, id int, st Step) Val {
	o := s.Obj(id)
	idx := linConst(int64(st.Field))
	if st.Idx != nil {
		l, ok := LinOf(st.Idx)
		if !ok {
			panic(undecided("sequence index is a set"))
		}
		idx = l
	}
	if o.Bytes != nil {
		k := "@" + idx.key()
		if v, ok := o.At[k]; ok {
			return v
		}
		o = s.Mut(id)
		if o.At == nil {
			o.At = map[string]Val{}
		}
		et := o.Typ.Underlying().(*types.Slice).Elem()
		v := m.Unknown(s, et, o.Bytes.Show()+"["+idx.Show()+"]")
		o = s.Mut(id)
		o.At[k] = v
		return v
	}
	k, ok := s.locate(o, idx)
	if ok && k >= 0 {
		return o.Elems[k]
	}
	if ok && k == -2 {
		panic(undecided("sequence index out of range"))
	}
	k2 := "@" + idx.key()
	if v, ok := o.At[k2]; ok {
		return v
	}
	panic(undecided("sequence element at an unknown position"))
}

func (m *Machine) seqSet(s *State, id int, st Step, rest []Step, v Val) {
	o := s.Mut(id)
	idx := linConst(int64(st.Field))
	if st.Idx != nil {
		idx, _ = LinOf(st.Idx)
	}
	if o.Bytes != nil || o.RestN != nil {
		if o.At == nil {
			o.At = map[string]Val{}
		}
		if len(rest) == 0 {
			o.At["@"+idx.key()] = v
			if o.RestN != nil && o.Bytes == nil {
				if k, ok := s.locate(o, idx); ok && k >= 0 {
					delete(o.At, "@"+idx.key())
					o.Elems[k] = v
				}
			}
			return
		}
		old := m.seqGet(s, id, st)
		nv := m.update(s, old, rest, v)
		s.Mut(id).At["@"+idx.key()] = nv
		return
	}
	k, ok := s.locate(o, idx)
	if !ok || k < 0 {
		panic(undecided("store to a sequence at an unknown position"))
	}
	o.Elems[k] = m.update(s, o.Elems[k], rest, v)
}

// ---- maps

// Find locates a key in the known entries: index, or -1 absent, -2 unknown.
func (m *Machine) find(s *State, o *Obj, k Val) int {
	unknown := false
	for i, e := range o.Ent {
		switch m.KeyEq(s, e.K, k) {
		case 1:
			return i
		case -1:
			unknown = true
		}
	}
	if unknown {
		return -2
	}
	return -1
}

// MapGet reads an entry of a fully known map.
func (s *State) MapGet(obj int, k Val) (Val, bool) {
	o := s.Obj(obj)
	i := s.M.find(s, o, k)
	if i >= 0 {
		return o.Ent[i].V, true
	}
	return nil, false
}

// MapSet writes an entry.
func (s *State) MapSet(obj int, k, v Val) {
	o := s.Mut(obj)
	i := s.M.find(s, o, k)
	if i == -2 {
		panic(undecided("map update under an undetermined key"))
	}
	if i >= 0 {
		o.Ent[i].V = v
		return
	}
	o.Ent = append(o.Ent, MapEnt{k, v})
	var ab []Val
	for _, a := range o.Absent {
		if Key(a) != Key(k) {
			ab = append(ab, a)
		}
	}
	o.Absent = ab
}

// MapDel deletes an entry.
func (s *State) MapDel(obj int, k Val) {
	o := s.Mut(obj)
	i := s.M.find(s, o, k)
	if i == -2 {
		panic(undecided("map delete under an undetermined key"))
	}
	if i >= 0 {
		o.Ent = append(append([]MapEnt(nil), o.Ent[:i]...), o.Ent[i+1:]...)
	}
	if o.Lazy != "" {
		o.Absent = append(o.Absent, k)
	}
}

// resolveKey makes the position of key k in map obj known, forking s as
// needed. It returns true when s itself can go on now.
func (m *Machine) resolveKey(s *State, obj int, op string, k Val) bool {
	o := s.Obj(obj)
	if i := m.find(s, o, k); i >= 0 {
		return true
	} else if i == -2 {
		for _, e := range o.Ent {
			if m.KeyEq(s, e.K, k) == -1 {
				p := m.Eq(s, e.K, k)
				n := s.Clone()
				if n.Assume(p, true) {
					m.Fork(n)
				}
				if !s.Assume(p, false) {
					m.kill(s)
					return false
				}
				return m.resolveKey(s, obj, op, k)
			}
		}
	}
	if o.Lazy == "" {
		return true
	}
	for _, a := range o.Absent {
		if m.KeyEq(s, a, k) == 1 {
			return true
		}
	}
	if m.H.Lazy == nil {
		panic(undecided("access to an unknown map"))
	}
	for _, n := range m.H.Lazy(m, s, obj, op, k) {
		m.Fork(n)
	}
	m.kill(s)
	return false
}

// ---- liveness

func (m *Machine) computeLive(fn *ssa.Function) {
	m.liveFn[fn] = true
	liveIn := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[ssa.Value]bool{}
			for _, sc := range b.Succs {
				for v := range liveIn[sc] {
					live[v] = true
				}
				pi := -1
				for i, p := range sc.Preds {
					if p == b {
						pi = i
					}
				}
				for _, in := range sc.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 && track(ph.Edges[pi]) {
						live[ph.Edges[pi]] = true
					}
				}
			}
			per := make([]map[ssa.Value]bool, len(b.Instrs)+1)
			cp := func() map[ssa.Value]bool {
				c := make(map[ssa.Value]bool, len(live))
				for v := range live {
					c[v] = true
				}
				return c
			}
			per[len(b.Instrs)] = cp()
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); !ok {
					for _, op := range in.Operands(nil) {
						if *op != nil && track(*op) {
							live[*op] = true
						}
					}
				}
				per[i] = cp()
			}
			m.liveCache[b] = per
			if len(live) != len(liveIn[b]) {
				changed = true
			}
			liveIn[b] = live
		}
	}
}

// cellInfo tells which local cells of a function are accessed directly only,
// and where their contents still matter.
type cellInfo struct {
	cells []*ssa.Alloc
	live  map[*ssa.BasicBlock][]map[*ssa.Alloc]bool
}

// simpleCell reports that the address of a local never leaves plain loads,
// stores and field accesses.
func simpleCell(a *ssa.Alloc) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a || r.Val == a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !simpleField(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func simpleField(f *ssa.FieldAddr) bool {
	for _, q := range *f.Referrers() {
		switch q := q.(type) {
		case *ssa.Store:
			if q.Addr != f || q.Val == f {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !simpleField(q) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (m *Machine) cellsOf(fn *ssa.Function) *cellInfo {
	if ci, ok := m.cells[fn]; ok {
		return ci
	}
	ci := &cellInfo{live: map[*ssa.BasicBlock][]map[*ssa.Alloc]bool{}}
	m.cells[fn] = ci
	simple := map[ssa.Value]*ssa.Alloc{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && simpleCell(a) {
				ci.cells = append(ci.cells, a)
				simple[a] = a
			}
		}
	}
	if len(ci.cells) == 0 {
		return ci
	}
	at := func(v ssa.Value) *ssa.Alloc {
		for {
			f, ok := v.(*ssa.FieldAddr)
			if !ok {
				return simple[v]
			}
			v = f.X
		}
	}
	in := map[*ssa.BasicBlock]map[*ssa.Alloc]bool{}
	for changed := true; changed; {
		changed = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[*ssa.Alloc]bool{}
			for _, sc := range b.Succs {
				for a := range in[sc] {
					live[a] = true
				}
			}
			per := make([]map[*ssa.Alloc]bool, len(b.Instrs)+1)
			cp := func() map[*ssa.Alloc]bool {
				c := make(map[*ssa.Alloc]bool, len(live))
				for v := range live {
					c[v] = true
				}
				return c
			}
			per[len(b.Instrs)] = cp()
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				switch x := b.Instrs[i].(type) {
				case *ssa.Alloc:
					delete(live, x)
				case *ssa.UnOp:
					if a := at(x.X); a != nil {
						live[a] = true
					}
				case *ssa.Store:
					if a := simple[x.Addr]; a != nil {
						delete(live, a)
					}
				}
				per[i] = cp()
			}
			ci.live[b] = per
			if len(live) != len(in[b]) {
				changed = true
			}
			in[b] = live
		}
	}
	return ci
}

// dropDeadCells clears the local cells whose contents no longer matter.
func (s *State) dropDeadCells() {
	for _, f := range s.Frames {
		ci := s.M.cellsOf(f.Fn)
		if len(ci.cells) == 0 {
			continue
		}
		per := ci.live[f.Block]
		if per == nil {
			continue
		}
		set := per[min(f.PC, len(f.Block.Instrs))]
		for _, a := range ci.cells {
			if set[a] {
				continue
			}
			p, ok := f.Regs[a].(VPtr)
			if !ok || len(p.Path) != 0 || s.Heap[p.Obj] == nil || s.M.frozen[p.Obj] != nil {
				continue
			}
			if o := s.Heap[p.Obj]; o.V != nil {
				z := s.M.Zero(s, o.Typ)
				if Key(z) != Key(o.V) {
					s.Mut(p.Obj).V = z
				}
			}
		}
	}
}

// liveRegs lists the registers of a frame that still matter, in a fixed order.
func (m *Machine) liveRegs(f *Frame) []ssa.Value {
	if !m.liveFn[f.Fn] {
		m.computeLive(f.Fn)
	}
	pc := f.PC
	// a suspended call instruction: its operands are no longer needed, its
	// result is not there yet
	set := m.liveCache[f.Block][min(pc, len(f.Block.Instrs))]
	if pc < len(f.Block.Instrs) {
		if _, ok := f.Block.Instrs[pc].(*ssa.Phi); ok {
			// at a block entry, after the phis were evaluated
			for pc < len(f.Block.Instrs) {
				if _, ok := f.Block.Instrs[pc].(*ssa.Phi); !ok {
					break
				}
				pc++
			}
			set = m.liveCache[f.Block][pc]
		}
	}
	var r []ssa.Value
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Name() != r[j].Name() {
			return r[i].Name() < r[j].Name()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

func (m *Machine) loopHead(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	if !m.headsFn[fn] {
		m.headsFn[fn] = true
		for _, x := range fn.Blocks {
			for _, p := range x.Preds {
				if x.Dominates(p) {
					m.heads[x] = true
				}
			}
		}
	}
	return m.heads[b]
}

// NoteSplit records a partition request raised outside Run.
func (m *Machine) NoteSplit(r interface{}) bool {
	if sp, ok := r.(needSplit); ok {
		m.Split = append(m.Split, sp.c)
		m.work = nil
		return true
	}
	return false
}

// Eval interprets a call to the end and gives every result, leaving s as it is.
func (m *Machine) Eval(s *State, fn *ssa.Function, args, bind []Val) (outs []Outcome) {
	n := s.Clone()
	w, h, v, sp := m.work, m.H.Return, m.visited, len(m.Split)
	depth := len(s.Frames)
	m.work, m.visited = nil, map[string]bool{}
	m.H.Return = func(m *Machine, x *State, res []Val) {
		if len(x.Frames) != depth {
			if h != nil {
				h(m, x, res)
			}
			return
		}
		var r Val
		switch len(res) {
		case 0:
			r = VTuple{}
		case 1:
			r = res[0]
		default:
			r = VTuple{res}
		}
		outs = append(outs, Outcome{x.Clone(), r})
		m.kill(x)
	}
	m.Push(n, fn, args, bind, nil, nil)
	n.top().marker = "eval"
	m.Run(n)
	m.work, m.H.Return, m.visited = w, h, v
	if len(m.Split) > sp {
		panic(needSplit{m.Split[len(m.Split)-1]})
	}
	for _, o := range outs {
		o.S.dead = false
	}
	return outs
}

// CallMethod interprets the method name of a dynamic value.
func (m *Machine) CallMethod(s *State, recv Val, name string, args ...Val) []Outcome {
	i, ok := recv.(VIface)
	if !ok {
		panic(undecided("method " + name + " of an unknown value"))
	}
	fn := m.Prog.LookupMethod(i.T, m.Pkg.Pkg, name)
	if fn == nil {
		panic(undecided("no method " + name))
	}
	return m.Eval(s, fn, append([]Val{i.V}, args...), nil)
}

// SetFrames replaces the call stack by one activation.
func (m *Machine) Restart(s *State, fn Val, args []Val) {
	f, ok := fn.(VFunc)
	if !ok {
		panic(undecided("goroutine function is not known"))
	}
	s.Frames = nil
	m.Push(s, f.Fn, args, f.Bind, nil, nil)
}

// Dead reports a finished state.
func (s *State) Dead() bool { return s.dead }

// Kill ends a state.
func (s *State) Kill() { s.dead = true }

// SeqStore writes an element of a slice value.
func (s *State) SeqStore(v Val, i int, x Val) {
	sl, ok := v.(VSlice)
	if !ok {
		panic(undecided("not a slice"))
	}
	s.M.seqSet(s, sl.Obj, Step{Idx: Num(int64(i))}, nil, x)
	// a slice of an array writes through
	o := s.Obj(sl.Obj)
	if b, ok := o.Base.(VPtr); ok && o.Bytes == nil {
		s.M.store(s, VPtr{b.Obj, append(append([]Step(nil), b.Path...), Step{Idx: Num(int64(i))})}, x)
	}
}

// SeqLoad reads an element of a slice value.
func (s *State) SeqLoad(v Val, i int) Val {
	sl, ok := v.(VSlice)
	if !ok {
		panic(undecided("not a slice"))
	}
	return s.M.seqGet(s, sl.Obj, Step{Idx: Num(int64(i))})
}

// LoadPtr reads through a pointer value.
func (s *State) LoadPtr(v Val) (Val, bool) {
	p, ok := v.(VPtr)
	if !ok {
		return nil, false
	}
	return s.M.load(s, p), true
}

// CondImpossible reports a state whose constraints contradict each other.
func (s *State) Show() string { return strings.Join(s.Trace, "; ") }

func (m *Machine) newString(s *State, t *Term) Val {
	if emptyBytes(t) {
		return Str("")
	}
	if m.H.NewString != nil {
		m.H.NewString(s, t)
	}
	return VStr{t}
}

// emptyBytes tells whether a string is made from no bytes.
func emptyBytes(t *Term) bool {
	for t.Op == "string" || t.Op == "trimright" {
		if len(t.Args) != 1 {
			return false
		}
		o, ok := t.Args[0].(VOpaque)
		if !ok || o.T == nil {
			return false
		}
		t = o.T
	}
	return t.Op == "sub" && len(t.Args) == 3 && Key(t.Args[1]) == Key(t.Args[2])
}

// EvalVal interprets a call of a function value.
func (m *Machine) EvalVal(s *State, fn Val, args []Val) []Outcome {
	f, ok := fn.(VFunc)
	if !ok {
		panic(undecided("function is not known"))
	}
	return m.Eval(s, f.Fn, args, f.Bind)
}

// MapDump renders the contents of a map, following pointers once.
func (s *State) MapDump(id int) string {
	var r []string
	for _, e := range s.Obj(id).Ent {
		v := Show(e.V)
		if x, ok := s.LoadPtr(e.V); ok {
			v = "&" + Show(x)
		}
		r = append(r, Show(e.K)+":"+v)
	}
	sort.Strings(r)
	return "{" + strings.Join(r, " ") + "}"
}

// Backing names the memory a slice lives in, "" when it is not known.
func (s *State) Backing(v Val) string {
	if x, ok := v.(VSlice); ok {
		o := s.Obj(x.Obj)
		if o.Back != nil {
			return o.Back.Key()
		}
		if o.Base != nil {
			return App("backing", o.Base).Key()
		}
	}
	return ""
}

// Dump shows a value with what it points at.
func (s *State) Dump(v Val, depth int) string {
	if depth == 0 {
		return Key(v)
	}
	switch x := v.(type) {
	case VPtr:
		if c, ok := s.LoadPtr(x); ok {
			return "&" + s.Dump(c, depth-1)
		}
	case VStruct:
		r := "{"
		for _, f := range x.F {
			r += s.Dump(f, depth-1) + " "
		}
		return r + "}"
	case VIface:
		return s.Dump(x.V, depth-1)
	case VSlice:
		o := s.Obj(x.Obj)
		if o.Bytes != nil || o.RestN != nil {
			return Key(v)
		}
		r := "["
		for _, e := range o.Elems {
			r += s.Dump(e, depth-1) + " "
		}
		return r + "]"
	}
	return Key(v)
}
