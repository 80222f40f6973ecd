// Package flow is a path-sensitive, context-sensitive data-flow analysis of a
// package's SSA form. It follows every operation and goroutine of the package
// through calls, closures, deferred calls and interface methods, and tracks
// which locks are held, what is known about flags and errors, and where the
// channels being used come from. It reports what it sees (locking, waiting,
// sending, map and field accesses, returns) to a client.
package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- abstract values; a nil Val is unknown

type Val interface{ key() string }

// Const is a known constant (V nil: the nil value).
type Const struct{ V constant.Value }

// NonNil is some value other than nil.
type NonNil struct{}

// Func is a function value with its captured values.
type Func struct {
	Fn    *ssa.Function
	Binds []Val
}

// Cell is the address of a local variable.
type Cell struct{ A *ssa.Alloc }

// Addr is the address of a field or package variable.
type Addr struct{ Loc string }

// From is a value loaded from a field, a package variable or an element.
type From struct{ Loc string }

// Sym is the unknown value of an instruction.
type Sym struct{ V ssa.Value }

// Made is a channel or map made by an instruction.
type Made struct{ V ssa.Value }

// User is a channel found among the registrations.
type User struct{ Origins string }

// RLocker is the result of RWMutex.RLocker.
type RLocker struct{ L Val }

func (c Const) key() string {
	if c.V == nil {
		return "nil"
	}
	return "c" + c.V.ExactString()
}
func (NonNil) key() string { return "nn" }
func (f Func) key() string {
	s := fmt.Sprintf("f%p(", f.Fn)
	for _, b := range f.Binds {
		s += vkey(b) + ","
	}
	return s + ")"
}
func (c Cell) key() string    { return fmt.Sprintf("cell%p", c.A) }
func (a Addr) key() string    { return "&" + a.Loc }
func (f From) key() string    { return "*" + f.Loc }
func (s Sym) key() string     { return fmt.Sprintf("s%p", s.V) }
func (m Made) key() string    { return fmt.Sprintf("m%p", m.V) }
func (u User) key() string    { return "u" + u.Origins }
func (l RLocker) key() string { return "rl" + vkey(l.L) }

func vkey(v Val) string {
	if v == nil {
		return "?"
	}
	return v.key()
}

// ---- state

// State is what is known at a point of a path.
type State struct {
	Held  map[string]int // lock to -1 (exclusive) or the number of shared holds
	At    map[string]string
	cells map[*ssa.Alloc]Val
	facts map[string]bool
	Seen  map[string]bool // origins executed
	Fresh map[string]bool // origins executed in the present critical section
	Flags map[string]bool
}

func newState() *State {
	return &State{Held: map[string]int{}, At: map[string]string{}, cells: map[*ssa.Alloc]Val{}, facts: map[string]bool{}, Seen: map[string]bool{}, Fresh: map[string]bool{}, Flags: map[string]bool{}}
}

func cpb(m map[string]bool) map[string]bool {
	r := make(map[string]bool, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	r := &State{Held: map[string]int{}, At: map[string]string{}, cells: map[*ssa.Alloc]Val{}, facts: cpb(s.facts), Seen: cpb(s.Seen), Fresh: cpb(s.Fresh), Flags: cpb(s.Flags)}
	for k, v := range s.Held {
		r.Held[k] = v
	}
	for k, v := range s.At {
		r.At[k] = v
	}
	for k, v := range s.cells {
		r.cells[k] = v
	}
	return r
}

func keysb(sb *strings.Builder, m map[string]bool) {
	l := make([]string, 0, len(m))
	for k, v := range m {
		if v {
			l = append(l, k+"+")
		} else {
			l = append(l, k+"-")
		}
	}
	sort.Strings(l)
	for _, k := range l {
		sb.WriteString(k)
		sb.WriteByte(' ')
	}
	sb.WriteByte('|')
}

func (s *State) key() string {
	var sb strings.Builder
	sb.WriteString(s.Locks())
	sb.WriteByte('|')
	l := make([]string, 0, len(s.cells))
	for k, v := range s.cells {
		l = append(l, fmt.Sprintf("%p=%s", k, vkey(v)))
	}
	sort.Strings(l)
	sb.WriteString(strings.Join(l, " "))
	sb.WriteByte('|')
	keysb(&sb, s.facts)
	keysb(&sb, s.Seen)
	keysb(&sb, s.Fresh)
	keysb(&sb, s.Flags)
	return sb.String()
}

// Locks renders the held locks.
func (s *State) Locks() string {
	var l []string
	for k, v := range s.Held {
		switch {
		case v < 0:
			l = append(l, k)
		case v == 1:
			l = append(l, k+" (shared)")
		default:
			l = append(l, fmt.Sprintf("%s (shared, %d times)", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// ---- analysis

// Event is something a client may want to judge.
type Event struct {
	Kind  string // lock unlock send recv select wait close mapread mapwrite load store call return panic
	In    ssa.Instruction
	S     *State
	Loc   string // lock, or accessed location
	Mode  string // R or W for locks
	Ch    Val
	Map   Val
	Type  types.Type
	Call  string // name of a called function or method
	Fn    *ssa.Function
	Args  []Val
	Block bool
	Stack []string
	Root  *Root
	What  string
}

// Root is an operation or goroutine.
type Root struct {
	Name  string
	Kind  string // api, go, init, finalizer
	Fn    *ssa.Function
	Args  []Val
	Binds []Val
	Site  ssa.Instruction
}

// Analysis runs over one package.
type Analysis struct {
	Prog  *ssa.Program
	Pkg   *ssa.Package
	On    func(e *Event)
	Roots []*Root
	Funcs map[*ssa.Function]bool
	Sites int
	Notes map[string]bool
	// Origin tells whether an instruction yields user channels.
	taint   map[string]string
	changed bool
	rootKey map[string]bool
	memo    map[string][]outcome
	busy    map[string]*recursion
	order   []string
	root    *Root
	stack   []string
	impls   map[string][]*ssa.Function
	addrs   map[string][]*ssa.Function
	live    map[*ssa.Function][]map[ssa.Value]bool
	States  int
	budget  int
}

type outcome struct {
	s     *State
	res   []Val
	panic bool
}

// New prepares an analysis.
func New(prog *ssa.Program, pkg *ssa.Package) *Analysis {
	return &Analysis{Prog: prog, Pkg: pkg, Funcs: map[*ssa.Function]bool{}, Notes: map[string]bool{}, taint: map[string]string{}, rootKey: map[string]bool{}, impls: map[string][]*ssa.Function{}, live: map[*ssa.Function][]map[ssa.Value]bool{}}
}

// Run analyses the given roots and every goroutine they start, again until
// what is known about channels in containers does not change.
func (a *Analysis) Run(roots []*Root) {
	on := a.On
	for round := 0; round < 6; round++ {
		a.changed = false
		a.memo, a.busy = map[string][]outcome{}, map[string]*recursion{}
		a.order = nil
		a.Roots, a.rootKey = nil, map[string]bool{}
		a.Sites, a.States, a.budget = 0, 0, 400000
		var evs []*Event
		a.On = func(e *Event) { evs = append(evs, e) }
		for _, r := range roots {
			a.addRoot(r)
		}
		for i := 0; i < len(a.Roots); i++ {
			r := a.Roots[i]
			a.root, a.stack = r, nil
			s := newState()
			for _, o := range a.call(r.Fn, r.Args, r.Binds, s, r.Site) {
				k := "return"
				if o.panic {
					k = "panic"
				}
				a.On(&Event{Kind: "root" + k, In: r.Site, S: o.s, Fn: r.Fn, Root: r, Args: o.res})
			}
		}
		if !a.changed || round == 5 {
			a.On = on
			for _, e := range evs {
				a.Sites++
				on(e)
			}
			return
		}
	}
}

func (a *Analysis) note(format string, x ...interface{}) { a.Notes[fmt.Sprintf(format, x...)] = true }

func (a *Analysis) addRoot(r *Root) {
	k := fmt.Sprintf("%p", r.Fn)
	for _, v := range append(append([]Val(nil), r.Args...), r.Binds...) {
		k += "," + vkey(v)
	}
	if a.rootKey[k] {
		return
	}
	a.rootKey[k] = true
	a.Roots = append(a.Roots, r)
}

// Pos renders a position.
func (a *Analysis) Pos(p token.Pos) string {
	q := a.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// InPos renders the position of an instruction.
func (a *Analysis) InPos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	pos := in.Pos()
	if !pos.IsValid() && in.Block() != nil {
		for _, j := range in.Block().Instrs {
			if j.Pos().IsValid() {
				pos = j.Pos()
				break
			}
		}
	}
	if !pos.IsValid() {
		pos = in.Parent().Pos()
	}
	return a.Pos(pos)
}

func (a *Analysis) emit(fr *frame, e *Event) {
	e.Root = a.root
	e.S = e.S.clone()
	e.Stack = append([]string(nil), a.stack...)
	e.Fn = fr.fn
	a.On(e)
}

type deferred struct {
	in   *ssa.Defer
	fn   []Val
	args []Val
}

type frame struct {
	fn    *ssa.Function
	args  []Val
	binds []Val
}

// path is the state of one path inside one function.
type path struct {
	s      *State
	env    map[ssa.Value]Val
	defers []deferred
}

func (p *path) clone() *path {
	r := &path{s: p.s.clone(), env: make(map[ssa.Value]Val, len(p.env)), defers: append([]deferred(nil), p.defers...)}
	for k, v := range p.env {
		r.env[k] = v
	}
	return r
}

func (p *path) key() string {
	var sb strings.Builder
	sb.WriteString(p.s.key())
	l := make([]string, 0, len(p.env))
	for k, v := range p.env {
		if v != nil {
			l = append(l, fmt.Sprintf("%p=%s", k, v.key()))
		}
	}
	sort.Strings(l)
	sb.WriteString(strings.Join(l, " "))
	sb.WriteByte('|')
	for _, d := range p.defers {
		fmt.Fprintf(&sb, "%p", d.in)
		for _, v := range d.args {
			sb.WriteString(vkey(v))
		}
	}
	return sb.String()
}

// Struct names the struct type a field belongs to.
func structName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		return t.Obj().Name()
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func fieldLoc(t types.Type, i int) string {
	u := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		u = p.Elem()
	}
	st, ok := u.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return structName(t) + "." + st.Field(i).Name()
}

func elemLoc(t types.Type) string {
	return "elem:" + types.TypeString(t, func(*types.Package) string { return "" })
}

// IsEventChan tells whether t is a channel of the package's EventInfo.
func IsEventChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	n, ok := types.Unalias(c.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "EventInfo"
}

func (a *Analysis) eval(fr *frame, p *path, v ssa.Value) Val {
	if r, ok := p.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return Const{}
		}
		if v.Value != nil {
			return Const{v.Value}
		}
		return nil
	case *ssa.Function:
		return Func{Fn: v}
	case *ssa.Global:
		return Addr{v.Name()}
	case *ssa.Parameter:
		for i, q := range fr.fn.Params {
			if q == v && i < len(fr.args) {
				return fr.args[i]
			}
		}
		return nil
	case *ssa.FreeVar:
		for i, q := range fr.fn.FreeVars {
			if q == v && i < len(fr.binds) {
				return fr.binds[i]
			}
		}
		return nil
	case *ssa.Alloc:
		return Cell{v}
	case *ssa.MakeClosure:
		f := Func{Fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			f.Binds = append(f.Binds, a.eval(fr, p, b))
		}
		return f
	case *ssa.FieldAddr:
		return Addr{fieldLoc(v.X.Type(), v.Field)}
	case *ssa.IndexAddr:
		return Addr{elemLoc(v.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.Field:
		return a.fromLoc(fieldLoc(v.X.Type(), v.Field), v.Type())
	case *ssa.Index:
		return a.fromLoc(elemLoc(v.Type()), v.Type())
	case *ssa.MakeChan, *ssa.MakeMap:
		return Made{v}
	case *ssa.ChangeType:
		return a.eval(fr, p, v.X)
	case *ssa.MakeInterface:
		if x := a.eval(fr, p, v.X); x != nil {
			if _, isc := x.(Const); !isc {
				return x
			}
		}
		return NonNil{}
	case *ssa.ChangeInterface:
		return a.eval(fr, p, v.X)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return a.eval(fr, p, v.X)
		}
	case *ssa.Phi:
		return nil
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			switch v.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
				return a.fromLoc(a.eval(fr, p, v.X).(Addr).Loc, v.Type())
			}
		case token.NOT:
			if c, ok := a.eval(fr, p, v.X).(Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
				return Const{constant.MakeBool(!constant.BoolVal(c.V))}
			}
			if t, ok := a.cond(fr, p, v.X); ok {
				return Const{constant.MakeBool(!t)}
			}
		}
		return nil
	case *ssa.BinOp:
		if t, ok := a.cond(fr, p, v); ok {
			return Const{constant.MakeBool(t)}
		}
	case *ssa.Extract:
		if n, ok := v.Tuple.(*ssa.Next); ok && !n.IsString && v.Index > 0 {
			return a.next(fr, p, n, v)
		}
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			return a.eval(fr, p, ta.X)
		}
		if lk, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 {
			return a.lookup(lk, v.Type())
		}
	case *ssa.Lookup:
		if !v.CommaOk {
			return a.lookup(v, v.Type())
		}
	}
	return nil
}

func (a *Analysis) fromLoc(loc string, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Chan); ok && IsEventChan(t) {
		if o := a.taint[loc]; o != "" {
			return User{o}
		}
	}
	return From{loc}
}

func (a *Analysis) lookup(l *ssa.Lookup, t types.Type) Val {
	if !IsEventChan(t) {
		return nil
	}
	return a.fromLoc(elemLoc(t), t)
}

func madeMap(v ssa.Value) bool {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.MakeMap:
			return true
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
	return false
}

func (a *Analysis) next(fr *frame, p *path, n *ssa.Next, v *ssa.Extract) Val {
	if !IsEventChan(v.Type()) {
		return nil
	}
	r, _ := n.Iter.(*ssa.Range)
	if r != nil {
		if v.Index == 1 {
			if mv, ok := a.eval(fr, p, r.X).(Made); ok || madeMap(r.X) {
				_ = mv
				if o := a.taint["mapkey"]; o != "" {
					return User{o}
				}
			}
			return User{a.origin(n)}
		}
	}
	return a.fromLoc(elemLoc(v.Type()), v.Type())
}

func (a *Analysis) origin(in ssa.Instruction) string {
	return fmt.Sprintf("%s@%p", a.InPos(in), in)
}

// symOf gives the identity of an unknown value for facts.
func (a *Analysis) symOf(fr *frame, p *path, v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		break
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Global:
		return ""
	}
	if x, ok := p.env[v].(Sym); ok {
		return x.key()
	}
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		if x, ok := a.eval(fr, p, v).(Sym); ok {
			return x.key()
		}
	}
	return Sym{v}.key()
}

// cond decides a boolean value when it is known.
func (a *Analysis) cond(fr *frame, p *path, v ssa.Value) (bool, bool) {
	if c, ok := p.env[v].(Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, ok := a.cond(fr, p, x.X)
			return !t, ok
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			l, r := a.eval(fr, p, x.X), a.eval(fr, p, x.Y)
			eq, ok := equal(l, r)
			if !ok {
				if k := a.factKey(fr, p, x, l, r); k != "" {
					eq, ok = p.s.facts[k], has(p.s.facts, k)
				}
			}
			if ok {
				return eq == (x.Op == token.EQL), true
			}
		}
	default:
		if c, ok := a.eval(fr, p, v).(Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
			return constant.BoolVal(c.V), true
		}
	}
	if k := a.symOf(fr, p, v); k != "" {
		if t, ok := p.s.facts[k]; ok {
			return t, true
		}
	}
	return false, false
}

func has(m map[string]bool, k string) bool { _, ok := m[k]; return ok }

func (a *Analysis) factKey(fr *frame, p *path, x *ssa.BinOp, l, r Val) string {
	if _, ok := l.(Const); ok {
		l, r = r, l
		x = &ssa.BinOp{Op: x.Op, X: x.Y, Y: x.X}
	}
	c, ok := r.(Const)
	if !ok {
		return ""
	}
	s := a.symOf(fr, p, x.X)
	if s == "" {
		return ""
	}
	return s + "==" + c.key()
}

func equal(l, r Val) (eq, known bool) {
	switch x := l.(type) {
	case Const:
		switch y := r.(type) {
		case Const:
			if x.V == nil || y.V == nil {
				return x.V == nil && y.V == nil, true
			}
			if x.V.Kind() != y.V.Kind() {
				return false, false
			}
			return constant.Compare(x.V, token.EQL, y.V), true
		case NonNil, Func, Made, Cell:
			if x.V == nil {
				return false, true
			}
		}
	case NonNil, Func, Made, Cell:
		if y, ok := r.(Const); ok && y.V == nil {
			return false, true
		}
	}
	return false, false
}

// learn records the outcome of a branch.
func (a *Analysis) learn(fr *frame, p *path, v ssa.Value, t bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			a.learn(fr, p, x.X, !t)
			return
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			l, r := a.eval(fr, p, x.X), a.eval(fr, p, x.Y)
			if k := a.factKey(fr, p, x, l, r); k != "" {
				p.s.facts[k] = t == (x.Op == token.EQL)
				return
			}
		}
	}
	if k := a.symOf(fr, p, v); k != "" {
		p.s.facts[k] = t
	}
}

// forget drops what is known about an instruction's earlier value.
func (p *path) forget(v ssa.Value) {
	delete(p.env, v)
	k := Sym{v}.key()
	for f := range p.s.facts {
		if f == k || strings.HasPrefix(f, k+"==") {
			delete(p.s.facts, f)
		}
	}
	for c, x := range p.s.cells {
		if s, ok := x.(Sym); ok && s.V == v {
			delete(p.s.cells, c)
		}
	}
}

// Key identifies a value.
func Key(v Val) string {
	if f, ok := v.(Frozen); ok {
		v = f.V
	}
	return vkey(v)
}
