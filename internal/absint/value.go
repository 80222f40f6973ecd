package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{}

// Term is an uninterpreted (Herbrand) term: a symbol, a string constant or the
// application of an operator to abstract values.
type Term struct {
	Op   string // "const", "sym", "slice", "cat", or an operator name
	S    string // constant value or label
	ID   int    // symbol number
	Args []Val
	key  string
}

// LinTerm is a coefficient and an atom.
type LinTerm struct {
	K int64
	A *Term
}

// Lin is a linear expression C + sum K*A.
type Lin struct {
	C int64
	T []LinTerm
}

type (
	// VBool is a truth value given by a predicate.
	VBool struct{ P *Pred }
	// VNum is a number: L when it is known as a linear expression, B when it
	// is known as a bit set.
	VNum struct {
		L *Lin
		B BV
	}
	// VStr is a string.
	VStr struct{ T *Term }
	// VOpaque is an object known by its identity term only.
	VOpaque struct {
		T      *Term
		NonNil bool
		Uniq   bool // differs from every other Uniq object
	}
	// VNil is the nil of any type.
	VNil struct{}
	// VPtr points into a heap object.
	VPtr struct {
		Obj  int
		Path []Step
	}
	// VMap refers to a map object.
	VMap struct{ Obj int }
	// VSlice refers to a sequence object.
	VSlice struct{ Obj int }
	// VFunc is a function value or closure.
	VFunc struct {
		Fn   *ssa.Function
		Bind []Val
	}
	// VBuiltin is a builtin used as a value.
	VBuiltin struct{ Name string }
	// VIface is an interface holding a value of a known dynamic type.
	VIface struct {
		T types.Type
		V Val
	}
	// VStruct is a struct or array value.
	VStruct struct{ F []Val }
	// VTuple is a multi-value result.
	VTuple struct{ F []Val }
	// VIter is a map iterator object.
	VIter struct{ Obj int }
)

// Step selects a struct field / array index (Idx nil) or a computed index.
type Step struct {
	Field int
	Idx   Val
}

// Pred kinds.
const (
	PTrue = iota
	PZero // B is empty
	PGE   // L >= 0
	PEQ0  // L == 0
	PAtom // A holds
	PAnd  // all Sub hold
)

// Pred is a predicate over the symbols of a state.
type Pred struct {
	Kind int
	Neg  bool
	B    BV
	L    Lin
	A    *Term
	Sub  []*Pred
}

func (p *Pred) not() *Pred {
	q := *p
	q.Neg = !q.Neg
	return &q
}

// BoolOf is the constant b.
func BoolOf(b bool) VBool { return VBool{&Pred{Kind: PTrue, Neg: !b}} }

// Num is the integer constant c.
func Num(c int64) VNum { return VNum{L: &Lin{C: c}} }

// BVal makes a number of a bit set.
func BVal(b BV) VNum { return VNum{B: b} }

// Str is a string constant.
func Str(s string) VStr { return VStr{&Term{Op: "const", S: s}} }

// App applies an operator.
func App(op string, args ...Val) *Term { return &Term{Op: op, Args: args} }

// Key is the structural identity of a term.
func (t *Term) Key() string {
	if t.key == "" {
		var sb strings.Builder
		switch t.Op {
		case "const":
			sb.WriteString(strconv.Quote(t.S))
		case "sym":
			sb.WriteString("$" + t.S + "#" + strconv.Itoa(t.ID))
		default:
			sb.WriteString(t.Op + t.S + "(")
			for i, a := range t.Args {
				if i > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(Key(a))
			}
			sb.WriteByte(')')
		}
		t.key = sb.String()
	}
	return t.key
}

// Show renders a term for people.
func (t *Term) Show() string {
	switch t.Op {
	case "const":
		return strconv.Quote(t.S)
	case "sym":
		return t.S
	case "slice":
		return fmt.Sprintf("%s[%s:%s]", Show(t.Args[0]), Show(t.Args[1]), Show(t.Args[2]))
	case "cat":
		var p []string
		for _, a := range t.Args {
			p = append(p, Show(a))
		}
		return strings.Join(p, "+")
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, Show(a))
	}
	return t.Op + "(" + strings.Join(p, ", ") + ")"
}

// Show renders a value for people.
func Show(v Val) string {
	switch v := v.(type) {
	case nil:
		return "-"
	case VStr:
		return v.T.Show()
	case VOpaque:
		return v.T.Show()
	case VNum:
		if v.L != nil {
			return v.L.Show()
		}
		return "set"
	case VNil:
		return "nil"
	case VIface:
		return Show(v.V)
	}
	return Key(v)
}

// Show renders a linear expression.
func (l Lin) Show() string {
	var p []string
	for _, t := range l.T {
		switch t.K {
		case 1:
			p = append(p, t.A.Show())
		default:
			p = append(p, fmt.Sprintf("%d*%s", t.K, t.A.Show()))
		}
	}
	if l.C != 0 || len(p) == 0 {
		p = append(p, strconv.FormatInt(l.C, 10))
	}
	return strings.Join(p, "+")
}

func (l Lin) key() string {
	var sb strings.Builder
	sb.WriteString(strconv.FormatInt(l.C, 10))
	for _, t := range l.T {
		fmt.Fprintf(&sb, "+%d*%s", t.K, t.A.Key())
	}
	return sb.String()
}

// Key is the structural identity of a value.
func Key(v Val) string {
	switch v := v.(type) {
	case nil:
		return "_"
	case VBool:
		return "b" + v.P.key()
	case VNum:
		if v.L != nil {
			return "n" + v.L.key()
		}
		var h uint64
		for _, t := range v.B {
			h = h*31 + t.hash()
		}
		return "s" + strconv.FormatUint(h, 36)
	case VStr:
		return v.T.Key()
	case VOpaque:
		return "o" + v.T.Key()
	case VNil:
		return "nil"
	case VPtr:
		s := "p" + strconv.Itoa(v.Obj)
		for _, st := range v.Path {
			if st.Idx != nil {
				s += "[" + Key(st.Idx) + "]"
			} else {
				s += "." + strconv.Itoa(st.Field)
			}
		}
		return s
	case VMap:
		return "m" + strconv.Itoa(v.Obj)
	case VSlice:
		return "q" + strconv.Itoa(v.Obj)
	case VIter:
		return "i" + strconv.Itoa(v.Obj)
	case VFunc:
		s := "f" + v.Fn.String()
		for _, b := range v.Bind {
			s += "," + Key(b)
		}
		return s
	case VBuiltin:
		return "B" + v.Name
	case VIface:
		return "I" + v.T.String() + ":" + Key(v.V)
	case VStruct:
		s := "{"
		for _, f := range v.F {
			s += Key(f) + ";"
		}
		return s + "}"
	case VTuple:
		s := "("
		for _, f := range v.F {
			s += Key(f) + ";"
		}
		return s + ")"
	}
	panic(fmt.Sprintf("Key(%T)", v))
}

func (p *Pred) key() string {
	s := ""
	if p.Neg {
		s = "!"
	}
	switch p.Kind {
	case PTrue:
		return s + "T"
	case PZero:
		return s + "Z" + Key(VNum{B: p.B})
	case PGE:
		return s + "G" + p.L.key()
	case PEQ0:
		return s + "E" + p.L.key()
	case PAtom:
		return s + "A" + p.A.Key()
	case PAnd:
		s += "&("
		for _, q := range p.Sub {
			s += q.key() + ";"
		}
		return s + ")"
	}
	panic("pred")
}

// ---- linear arithmetic

func linConst(c int64) Lin { return Lin{C: c} }

func linAtom(t *Term) Lin { return Lin{T: []LinTerm{{1, t}}} }

func (l Lin) add(m Lin, k int64) Lin {
	r := Lin{C: l.C + k*m.C}
	acc := map[string]LinTerm{}
	for _, t := range l.T {
		acc[t.A.Key()] = t
	}
	for _, t := range m.T {
		a := acc[t.A.Key()]
		acc[t.A.Key()] = LinTerm{a.K + k*t.K, t.A}
	}
	for _, t := range acc {
		if t.K != 0 {
			r.T = append(r.T, t)
		}
	}
	sort.Slice(r.T, func(i, j int) bool { return r.T[i].A.Key() < r.T[j].A.Key() })
	return r
}

func (l Lin) scale(k int64) Lin { return Lin{}.add(l, k) }

// IsConst reports a constant expression.
func (l Lin) IsConst() bool { return len(l.T) == 0 }

// LinOf gives the linear form of a number.
func LinOf(v Val) (Lin, bool) {
	if n, ok := v.(VNum); ok && n.L != nil {
		return *n.L, true
	}
	return Lin{}, false
}

func numLin(l Lin) VNum { return VNum{L: &l} }

// ---- structural rewriting

// mapVal rebuilds v with f applied bottom-up to terms; nil-safe.
type rewriter struct {
	term func(*Term) *Term // applied after rebuilding arguments; may return its argument
	lin  func(Lin) Lin
	bv   func(BV) BV
}

func (r *rewriter) doTerm(t *Term) *Term {
	if t == nil {
		return nil
	}
	if len(t.Args) > 0 {
		changed := false
		args := make([]Val, len(t.Args))
		for i, a := range t.Args {
			args[i] = r.do(a)
			if Key(args[i]) != Key(a) {
				changed = true
			}
		}
		if changed {
			t = &Term{Op: t.Op, S: t.S, ID: t.ID, Args: args}
			if t.Op == "slice" {
				t = normSlice(t)
			}
		}
	}
	if r.term != nil {
		t = r.term(t)
	}
	return t
}

func (r *rewriter) doLin(l Lin) Lin {
	n := Lin{C: l.C}
	for _, t := range l.T {
		a := r.doTerm(t.A)
		if a.Op == "lin" { // a symbol replaced by an expression
			n = n.add(*a.Args[0].(VNum).L, t.K)
		} else if a.Op == "len" {
			n = n.add(lenLin(a.Args[0].(VStr).T), t.K)
		} else {
			n = n.add(linAtom(a), t.K)
		}
	}
	if r.lin != nil {
		n = r.lin(n)
	}
	return n
}

func (r *rewriter) doBV(b BV) BV {
	if r.bv != nil && b != nil {
		return r.bv(b)
	}
	return b
}

func (r *rewriter) doPred(p *Pred) *Pred {
	q := &Pred{Kind: p.Kind, Neg: p.Neg}
	if p.B != nil {
		q.B = r.doBV(p.B)
	}
	if p.Kind == PGE || p.Kind == PEQ0 {
		q.L = r.doLin(p.L)
	}
	if p.A != nil {
		q.A = r.doTerm(p.A)
	}
	for _, s := range p.Sub {
		q.Sub = append(q.Sub, r.doPred(s))
	}
	return q
}

func (r *rewriter) list(vs []Val) []Val {
	if vs == nil {
		return nil
	}
	n := make([]Val, len(vs))
	for i, v := range vs {
		n[i] = r.do(v)
	}
	return n
}

func (r *rewriter) do(v Val) Val {
	switch v := v.(type) {
	case nil, VNil, VMap, VSlice, VIter, VBuiltin:
		return v
	case VBool:
		if v.P.Kind == PTrue {
			return v
		}
		return VBool{r.doPred(v.P)}
	case VNum:
		n := VNum{}
		if v.L != nil {
			if v.L.IsConst() && r.lin == nil {
				return v
			}
			l := r.doLin(*v.L)
			n.L = &l
		}
		n.B = r.doBV(v.B)
		return n
	case VStr:
		return VStr{r.doTerm(v.T)}
	case VOpaque:
		return VOpaque{T: r.doTerm(v.T), NonNil: v.NonNil, Uniq: v.Uniq}
	case VPtr:
		p := VPtr{Obj: v.Obj}
		for _, s := range v.Path {
			p.Path = append(p.Path, Step{s.Field, r.do(s.Idx)})
		}
		return p
	case VFunc:
		return VFunc{v.Fn, r.list(v.Bind)}
	case VIface:
		return VIface{v.T, r.do(v.V)}
	case VStruct:
		return VStruct{r.list(v.F)}
	case VTuple:
		return VTuple{r.list(v.F)}
	}
	panic(fmt.Sprintf("rewrite(%T)", v))
}

// ---- strings

func strTermLen(t *Term) (Lin, bool) {
	if t.Op == "const" {
		return linConst(int64(len(t.S))), true
	}
	return Lin{}, false
}

// lenLin is the length of a string term.
func lenLin(t *Term) Lin {
	switch t.Op {
	case "const":
		return linConst(int64(len(t.S)))
	case "slice":
		lo, _ := LinOf(t.Args[1])
		hi, _ := LinOf(t.Args[2])
		return hi.add(lo, -1)
	case "cat":
		r := Lin{}
		for _, a := range t.Args {
			r = r.add(lenLin(a.(VStr).T), 1)
		}
		return r
	}
	return linAtom(App("len", VStr{t}))
}

// normSlice normalises t[lo:hi] (nested slices, whole slices, constants).
func normSlice(t *Term) *Term {
	s, ok := t.Args[0].(VStr)
	if !ok {
		return t
	}
	lo, _ := LinOf(t.Args[1])
	hi, _ := LinOf(t.Args[2])
	if lo.IsConst() && lo.C == 0 {
		if d := hi.add(lenLin(s.T), -1); d.IsConst() && d.C == 0 {
			return s.T
		}
	}
	if s.T.Op == "slice" {
		b, _ := LinOf(s.T.Args[1])
		return normSlice(App("slice", s.T.Args[0], numLin(b.add(lo, 1)), numLin(b.add(hi, 1))))
	}
	if s.T.Op == "const" && lo.IsConst() && hi.IsConst() && lo.C >= 0 && lo.C <= hi.C && hi.C <= int64(len(s.T.S)) {
		return &Term{Op: "const", S: s.T.S[lo.C:hi.C]}
	}
	if d := hi.add(lo, -1); d.IsConst() && d.C == 0 {
		return &Term{Op: "const"}
	}
	if s.T.Op == "cat" {
		// cut at the borders of the parts
		split := func(parts []*Term, at Lin) ([]*Term, []*Term, bool) {
			cum := Lin{}
			for k, p := range parts {
				d := at.add(cum, -1)
				if d.IsConst() {
					if d.C == 0 {
						return parts[:k], parts[k:], true
					}
					if p.Op == "const" && d.C > 0 && d.C < int64(len(p.S)) {
						l := append(append([]*Term(nil), parts[:k]...), &Term{Op: "const", S: p.S[:d.C]})
						r := append([]*Term{{Op: "const", S: p.S[d.C:]}}, parts[k+1:]...)
						return l, r, true
					}
				}
				cum = cum.add(lenLin(p), 1)
			}
			if d := at.add(cum, -1); d.IsConst() && d.C == 0 {
				return parts, nil, true
			}
			return nil, nil, false
		}
		var parts []*Term
		for _, a := range s.T.Args {
			parts = append(parts, a.(VStr).T)
		}
		if left, _, ok := split(parts, hi); ok {
			if _, mid, ok := split(left, lo); ok {
				r := &Term{Op: "const"}
				for _, p := range mid {
					r = concat(r, p)
				}
				return r
			}
		}
	}
	return t
}

func sliceStr(t *Term, lo, hi Lin) *Term {
	return normSlice(App("slice", VStr{t}, numLin(lo), numLin(hi)))
}

// concat normalises a + b.
func concat(a, b *Term) *Term {
	var parts []*Term
	flat := func(t *Term) {
		if t.Op == "cat" {
			for _, x := range t.Args {
				parts = append(parts, x.(VStr).T)
			}
		} else {
			parts = append(parts, t)
		}
	}
	flat(a)
	flat(b)
	var out []*Term
	for _, p := range parts {
		if p.Op == "const" && p.S == "" {
			continue
		}
		if n := len(out); n > 0 && p.Op == "const" && out[n-1].Op == "const" {
			out[n-1] = &Term{Op: "const", S: out[n-1].S + p.S}
			continue
		}
		if n := len(out); n > 0 && p.Op == "slice" && out[n-1].Op == "slice" {
			q := out[n-1]
			if Key(q.Args[0]) == Key(p.Args[0]) && Key(q.Args[2]) == Key(p.Args[1]) {
				out[n-1] = normSlice(App("slice", q.Args[0], q.Args[1], p.Args[2]))
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return &Term{Op: "const"}
	case 1:
		return out[0]
	}
	t := &Term{Op: "cat"}
	for _, p := range out {
		t.Args = append(t.Args, VStr{p})
	}
	return t
}

// ConstLin is a constant.
func ConstLin(c int64) Lin { return linConst(c) }

// LinVal makes a number of a linear expression.
func LinVal(l Lin) Val { return numLin(l) }

// Add is a + b.
func (a Lin) Add(b Lin) Lin { return a.add(b, 1) }

// Sub is a - b.
func (a Lin) Sub(b Lin) Lin { return a.add(b, -1) }

// Plus is a + c.
func (a Lin) Plus(c int64) Lin { return a.add(linConst(c), 1) }

// Holds reports whether l >= 0 is known.
func (s *State) Holds(l Lin) bool { return s.geFact(l) }

// LenOf is the length of a string term.
func LenOf(t *Term) Lin { return lenLin(t) }

// mentions reports that a occurs in l, also inside other terms.
func (l Lin) mentions(a *Term) bool {
	k := a.Key()
	var in func(t *Term) bool
	var val func(v Val) bool
	val = func(v Val) bool {
		switch v := v.(type) {
		case VStr:
			return in(v.T)
		case VOpaque:
			return in(v.T)
		case VNum:
			return v.L != nil && v.L.mentions(a)
		}
		return false
	}
	in = func(t *Term) bool {
		if t.Key() == k {
			return true
		}
		for _, x := range t.Args {
			if val(x) {
				return true
			}
		}
		return false
	}
	for _, t := range l.T {
		if in(t.A) {
			return true
		}
	}
	return false
}
