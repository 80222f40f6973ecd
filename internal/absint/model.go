package absint

import (
	"go/types"
	"path"
	"strings"
)

// model gives meaning to the library calls the code uses.
func (m *Machine) model(s *State, c *CallInfo, rt types.Type) ([]Outcome, bool) {
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{s, v}}, true }
	a := c.Args
	str := func(i int) (*Term, bool) {
		if i < len(a) {
			if x, ok := a[i].(VStr); ok {
				return x.T, true
			}
		}
		return nil, false
	}
	konst := func(i int) (string, bool) {
		t, ok := str(i)
		if ok && t.Op == "const" {
			return t.S, true
		}
		return "", false
	}
	switch c.Name {
	case "errors.New", "fmt.Errorf":
		if t, ok := str(0); ok && t.Op == "const" {
			return one(s.Err(t.S))
		}
		return one(s.Err("error"))
	case "errors.Is":
		return one(VBool{m.Eq(s, a[0], a[1])})
	case "path/filepath.VolumeName":
		if m.IsUnix() {
			return one(Str(""))
		}
		t, _ := str(0)
		return one(VStr{App("volume", VStr{t})})
	case "path/filepath.Abs":
		t, _ := str(0)
		n := s.Clone()
		return []Outcome{
			{s, VTuple{[]Val{VStr{App("abs", VStr{t})}, VNil{}}}},
			{n, VTuple{[]Val{Str(""), n.Err("filepath.Abs")}}},
		}, true
	case "path/filepath.Clean":
		t, _ := str(0)
		if t.Op == "clean" {
			return one(VStr{t})
		}
		return one(VStr{App("clean", VStr{t})})
	case "golang.org/x/sys/unix.ByteSliceToString":
		if sl, ok := a[0].(VSlice); ok {
			if o := s.Obj(sl.Obj); o.Bytes != nil {
				return one(m.newString(s, App("string", VOpaque{T: &Term{Op: "trimright", S: "\x00", Args: []Val{VOpaque{T: o.Bytes, NonNil: true}}}, NonNil: true})))
			}
		}
	case "path/filepath.Join", "path.Join":
		if sl, ok := a[0].(VSlice); ok {
			if o := s.Obj(sl.Obj); o.Bytes == nil && o.RestN == nil {
				if m.IsUnix() {
					var l []string
					for _, e := range o.Elems {
						if x, ok := e.(VStr); ok && x.T.Op == "const" {
							l = append(l, x.T.S)
						}
					}
					if len(l) == len(o.Elems) {
						return one(Str(path.Join(l...)))
					}
				}
				if len(o.Elems) == 2 && m.IsUnix() {
					// a clean directory other than the root, and one component
					x, ok1 := o.Elems[0].(VStr)
					y, ok2 := o.Elems[1].(VStr)
					if ok1 && ok2 && x.T.Op == "const" && x.T.S == "/" && y.T.Op != "const" {
						return one(VStr{concat(x.T, y.T)})
					}
					if ok1 && ok2 && y.T.Op != "const" {
						return one(VStr{concat(concat(x.T, &Term{Op: "const", S: "/"}), y.T)})
					}
				}
				return one(VStr{App("join", o.Elems...)})
			}
		}
		return one(m.Unknown(s, rt, "join"))
	case "path/filepath.IsAbs":
		return one(VBool{&Pred{Kind: PAtom, A: App("isabs", a[0])}})
	case "path/filepath.Dir", "path/filepath.Base", "path.Dir", "path.Base":
		return one(VStr{App(strings.ToLower(c.Name[strings.LastIndexByte(c.Name, '.')+1:]), a[0])})
	case "(io/fs.FileMode).IsDir", "(io/fs.FileMode).IsRegular", "(io/fs.FileMode).Type":
		if b, ok := a[0].(VNum); ok {
			mode := s.BVOf(b)
			const types = 1<<31 | 1<<27 | 1<<26 | 1<<25 | 1<<24 | 1<<21 | 1<<19
			switch c.Name {
			case "(io/fs.FileMode).IsDir":
				return one(VBool{&Pred{Kind: PZero, B: mode.And(s.Const(1 << 31)), Neg: true}})
			case "(io/fs.FileMode).IsRegular":
				return one(VBool{&Pred{Kind: PZero, B: mode.And(s.Const(types))}})
			}
			return one(BVal(mode.And(s.Const(types))))
		}
	case "strings.Join":
		if sl, ok := a[0].(VSlice); ok && sl.Obj >= 0 {
			sep, sok := str(1)
			if o := s.Obj(sl.Obj); sok && o.Bytes == nil && o.RestN == nil {
				t := &Term{Op: "const"}
				for i, e := range o.Elems {
					x, ok := e.(VStr)
					if !ok {
						return one(m.Unknown(s, rt, "join"))
					}
					if i > 0 {
						t = concat(t, sep)
					}
					t = concat(t, x.T)
				}
				return one(VStr{t})
			}
		} else if a[0] == nil {
			return one(Str(""))
		} else if _, ok := a[0].(VNil); ok {
			return one(Str(""))
		}
		return one(m.Unknown(s, rt, "join"))
	case "strings.HasSuffix", "strings.HasPrefix", "strings.Contains", "strings.EqualFold":
		x, xok := konst(0)
		y, yok := konst(1)
		if xok && yok {
			switch c.Name {
			case "strings.HasSuffix":
				return one(BoolOf(strings.HasSuffix(x, y)))
			case "strings.HasPrefix":
				return one(BoolOf(strings.HasPrefix(x, y)))
			case "strings.Contains":
				return one(BoolOf(strings.Contains(x, y)))
			}
		}
		if t, ok := str(0); ok && yok && c.Name == "strings.HasSuffix" {
			if has, known := endsWith(t, y); known {
				return one(BoolOf(has))
			}
		}
		op := map[string]string{"strings.HasSuffix": "hassuffix", "strings.HasPrefix": "hasprefix", "strings.Contains": "contains", "strings.EqualFold": "fold"}[c.Name]
		p := &Pred{Kind: PAtom, A: App(op, a[0], a[1])}
		if (op == "hassuffix" || op == "hasprefix") && yok {
			t, _ := str(0)
			if s.Truth(p) == -1 {
				n := s.Clone()
				n.Assume(p, false)
				if !s.Assume(p, true) || !s.AddGE(lenLin(t).add(linConst(-int64(len(y))), 1)) {
					return []Outcome{{n, BoolOf(false)}}, true
				}
				return []Outcome{{s, BoolOf(true)}, {n, BoolOf(false)}}, true
			}
		}
		return one(VBool{p})
	case "strings.IndexRune", "strings.IndexByte", "strings.Index", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny":
		t, _ := str(0)
		if c.Name != "strings.IndexAny" {
			b := int64(-1)
			if y, ok := konst(1); ok && len(y) == 1 {
				b = int64(y[0])
			} else if l, ok := LinOf(a[1]); ok && l.IsConst() {
				b = l.C
			}
			if b >= 0 && b < 0x80 {
				return m.findByte(s, t, byte(b), strings.HasPrefix(c.Name, "strings.Last")), true
			}
		}
		term := &Term{Op: "index", S: c.Name, Args: a}
		n := s.Clone()
		n.Assume(&Pred{Kind: PAtom, A: App("found", VOpaque{T: term})}, false)
		outs := []Outcome{{n, Num(-1)}}
		jl := linAtom(term)
		if s.Assume(&Pred{Kind: PAtom, A: App("found", VOpaque{T: term})}, true) && s.AddGE(jl) && s.AddGE(lenLin(t).add(jl, -1).add(linConst(-1), 1)) {
			outs = append(outs, Outcome{s, numLin(jl)})
		}
		return outs, true
	case "strings.TrimSuffix":
		t, _ := str(0)
		y, yok := konst(1)
		if yok {
			if has, known := endsWith(t, y); known {
				if !has {
					return one(a[0])
				}
				return one(VStr{s.cutStr(t, linConst(0), lenLin(t).add(linConst(-int64(len(y))), 1))})
			}
			p := &Pred{Kind: PAtom, A: App("hassuffix", a[0], a[1])}
			cut := func(n *State) Val {
				l := lenLin(t)
				n.AddGE(l.add(linConst(-int64(len(y))), 1))
				return VStr{sliceStr(t, linConst(0), l.add(linConst(-int64(len(y))), 1))}
			}
			switch s.Truth(p) {
			case 1:
				return one(cut(s))
			case 0:
				return one(a[0])
			}
			n := s.Clone()
			n.Assume(p, false)
			s.Assume(p, true)
			return []Outcome{{s, cut(s)}, {n, a[0]}}, true
		}
	case "strings.CutSuffix":
		t, _ := str(0)
		y, yok := konst(1)
		if yok {
			if has, known := endsWith(t, y); known {
				if !has {
					return one(VTuple{[]Val{a[0], BoolOf(false)}})
				}
				return one(VTuple{[]Val{VStr{s.cutStr(t, linConst(0), lenLin(t).add(linConst(-int64(len(y))), 1))}, BoolOf(true)}})
			}
			p := &Pred{Kind: PAtom, A: App("hassuffix", a[0], a[1])}
			n := s.Clone()
			var outs []Outcome
			if n.Assume(p, false) {
				outs = append(outs, Outcome{n, VTuple{[]Val{a[0], BoolOf(false)}}})
			}
			if s.Assume(p, true) {
				l := lenLin(t)
				s.AddGE(l.add(linConst(-int64(len(y))), 1))
				outs = append(outs, Outcome{s, VTuple{[]Val{VStr{sliceStr(t, linConst(0), l.add(linConst(-int64(len(y))), 1))}, BoolOf(true)}}})
			}
			return outs, true
		}
	case "strings.TrimRight":
		t, _ := str(0)
		if k, ok := konst(1); ok && t.Op == "string" {
			return one(m.newString(s, App("string", VOpaque{T: &Term{Op: "trimright", S: k, Args: t.Args}, NonNil: true})))
		}
	case "bytes.TrimRight":
		if sl, ok := a[0].(VSlice); ok {
			o := s.Obj(sl.Obj)
			if o.Bytes != nil {
				n := s.Int("len")
				s.AddGE(*n.L)
				cut := "?"
				if k, ok := konst(1); ok {
					cut = k
				}
				return one(VSlice{s.New(&Obj{Kind: 'q', Typ: o.Typ, Bytes: &Term{Op: "trimright", S: cut, Args: []Val{VOpaque{T: o.Bytes, NonNil: true}}}, RestN: n.L})})
			}
		}
	case "os.LookupEnv":
		return one(VTuple{[]Val{Str(""), BoolOf(false)}})
	case "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.Gosched":
		return one(VTuple{})
	case "sync/atomic.LoadInt32", "sync/atomic.LoadUint32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint64",
		"(*sync/atomic.Int32).Load", "(*sync/atomic.Uint32).Load", "(*sync/atomic.Int64).Load", "(*sync/atomic.Bool).Load":
		if p, ok := a[0].(VPtr); ok {
			if v, ok := m.load(s, p).(VStruct); ok && len(v.F) > 0 {
				return one(v.F[len(v.F)-1])
			}
			return one(m.load(s, p))
		}
	case "sync/atomic.StoreInt32", "sync/atomic.StoreUint32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint64",
		"(*sync/atomic.Int32).Store", "(*sync/atomic.Uint32).Store", "(*sync/atomic.Int64).Store":
		if p, ok := a[0].(VPtr); ok {
			if v, ok := m.load(s, p).(VStruct); ok && len(v.F) > 0 {
				n := VStruct{append([]Val(nil), v.F...)}
				n.F[len(n.F)-1] = a[1]
				m.store(s, p, n)
			} else {
				if m.H.Store != nil {
					m.H.Store(m, s, c.Site, p, a[1])
				}
				m.store(s, p, a[1])
			}
			return one(VTuple{})
		}
	}
	if strings.HasPrefix(c.Name, "(*sync.") || strings.HasPrefix(c.Name, "sync.") {
		if tup, ok := rt.(*types.Tuple); ok && tup.Len() == 0 {
			return one(VTuple{})
		}
	}
	return nil, false
}

// IsUnix reports whether the analysed configuration uses / as separator.
func (m *Machine) IsUnix() bool { return !m.Windows() }

// Windows reports a windows configuration.
func (m *Machine) Windows() bool {
	for _, mem := range m.Pkg.Members {
		if mem.Name() == "readdcw" {
			return true
		}
	}
	return false
}

// SepModel gives meaning to the package's own searches for a path separator,
// whose behaviour is decided separately.
func (m *Machine) SepModel(s *State, ci *CallInfo, pkg interface{}) ([]Outcome, bool) {
	if ci.Fn == nil || ci.Fn.Pkg != m.Pkg || len(ci.Args) != 1 {
		return nil, false
	}
	t, ok := ci.Args[0].(VStr)
	if !ok {
		return nil, false
	}
	switch ci.Fn.Name() {
	case "indexSep":
		return m.findByte(s, t.T, '/', false), true
	case "lastIndexSep":
		return m.findByte(s, t.T, '/', true), true
	}
	return nil, false
}

// findByte is the position of the first or last b in t.
func (m *Machine) findByte(s *State, t *Term, b byte, last bool) []Outcome {
	if t.Op == "const" {
		i := strings.IndexByte(t.S, b)
		if last {
			i = strings.LastIndexByte(t.S, b)
		}
		return []Outcome{{s, Num(int64(i))}}
	}
	if l, ok := s.findParts(t, b, last); ok {
		return []Outcome{{s, numLin(l)}}
	}
	if l, ok := s.knownByte(t, b, last); ok {
		return []Outcome{{s, numLin(l)}}
	}
	op := "first"
	if last {
		op = "last"
	}
	term := &Term{Op: op, S: string(b), Args: []Val{VStr{t}}}
	has := &Pred{Kind: PAtom, A: &Term{Op: "hasbyte", S: string(b), Args: []Val{VStr{t}}}}
	var outs []Outcome
	n := s.Clone()
	if n.Assume(has, true) {
		l := linAtom(term)
		if n.AddGE(l) && n.AddGE(lenLin(t).add(l, -1).add(linConst(-1), 1)) {
			n.byteFact(t, l, b)
			if last {
				n.noByteFact(t, l.add(linConst(1), 1), lenLin(t), b)
			} else {
				n.noByteFact(t, linConst(0), l, b)
			}
			outs = append(outs, Outcome{n, numLin(l)})
		}
	}
	if s.Assume(has, false) {
		s.noByteFact(t, linConst(0), lenLin(t), b)
		outs = append(outs, Outcome{s, Num(-1)})
	}
	return outs
}

// knownByte is the position of the first or last b in t where it follows from
// an earlier search.
func (s *State) knownByte(t *Term, b byte, last bool) (Lin, bool) {
	base, off := t, linConst(0)
	for base.Op == "slice" {
		o, _ := LinOf(base.Args[1])
		off = off.add(o, 1)
		base = base.Args[0].(VStr).T
	}
	end := off.add(lenLin(t), 1)
	for _, a := range s.Atoms {
		if a.T.Op != "nobyte" || a.T.S != string(b) || !a.OK {
			continue
		}
		src, ok := a.T.Args[0].(VStr)
		if !ok || src.T.Key() != base.Key() {
			continue
		}
		l0, ok1 := LinOf(a.T.Args[1])
		h0, ok2 := LinOf(a.T.Args[2])
		if !ok1 || !ok2 {
			continue
		}
		at := h0
		if last {
			if d := end.add(h0, -1); !d.IsConst() || d.C != 0 {
				continue
			}
			at = l0.add(linConst(-1), 1)
		} else if d := off.add(l0, -1); !d.IsConst() || d.C != 0 {
			continue
		}
		v := byteLin(base, at).add(linConst(-int64(b)), 1)
		if s.geFact(v) && s.geFact(v.scale(-1)) && s.geFact(at.add(off, -1)) && s.geFact(end.add(at, -1).add(linConst(-1), 1)) {
			return at.add(off, -1), true
		}
	}
	return Lin{}, false
}

// FindByte is findByte for scenarios.
func (m *Machine) FindByte(s *State, t *Term, b byte, last bool) []Outcome {
	return m.findByte(s, t, b, last)
}

// NameSet gives a set a name of its own: every occurrence of it becomes a set
// variable, so that it no longer matters how the set came about.
func (s *State) NameSet(b BV, name string) BV {
	nv := s.SetVar(name)
	s.AssumeZero(nv.Xor(b))
	s.rewrite(&rewriter{bv: func(x BV) BV {
		if x.EqualBV(b) {
			return nv
		}
		if x.deps() == 0 {
			return x
		}
		// bit by bit, so that a set which differs by known bits follows
		var r BV
		for k := range x {
			if x[k] != nv[k] && s.Cond.Care[k].and(x[k].xor(nv[k])).zero() {
				if r == nil {
					r = append(BV{}, x...)
				}
				r[k] = nv[k]
			}
		}
		if r != nil {
			return r
		}
		return x
	}})
	return nv
}

// Compound reports a set that depends on more than one variable.
func (b BV) Compound() bool {
	d := b.deps()
	return d&(d-1) != 0
}

// byteLin is the byte of t at a position, looking through slices.
func byteLin(t *Term, at Lin) Lin {
	for t.Op == "slice" {
		lo, _ := LinOf(t.Args[1])
		at = at.add(lo, 1)
		t = t.Args[0].(VStr).T
	}
	if at.IsConst() && t.Op == "const" && at.C >= 0 && int(at.C) < len(t.S) {
		return linConst(int64(t.S[at.C]))
	}
	return linAtom(App("byte", VStr{t}, numLin(at)))
}

// byteFact records t[at] == b.
func (s *State) byteFact(t *Term, at Lin, b byte) {
	l := byteLin(t, at).add(linConst(-int64(b)), 1)
	s.AddGE(l)
	s.AddGE(l.scale(-1))
}

// ByteAt records t[at] == b.
func (s *State) ByteAt(t *Term, at Lin, b byte) { s.byteFact(t, at, b) }

// NoByte reports that t[lo:hi] is known to be free of b.
func (s *State) NoByte(t *Term, lo, hi Lin, b byte) bool {
	sub := sliceStr(t, lo, hi)
	if s.Truth(&Pred{Kind: PAtom, A: &Term{Op: "hasbyte", S: string(b), Args: []Val{VStr{sub}}}}) == 0 {
		return true
	}
	base, off := t, linConst(0)
	if t.Op == "slice" {
		off, _ = LinOf(t.Args[1])
		base = t.Args[0].(VStr).T
	}
	lo, hi = lo.add(off, 1), hi.add(off, 1)
	for _, a := range s.Atoms {
		if a.T.Op != "nobyte" || a.T.S != string(b) || !a.OK {
			continue
		}
		src, ok := a.T.Args[0].(VStr)
		if !ok || src.T.Key() != base.Key() {
			continue
		}
		l0, ok1 := LinOf(a.T.Args[1])
		h0, ok2 := LinOf(a.T.Args[2])
		if ok1 && ok2 && s.geFact(lo.add(l0, -1)) && s.geFact(h0.add(hi, -1)) {
			return true
		}
	}
	return false
}

// noByteFact records that t[lo:hi] is free of b.
func (s *State) noByteFact(t *Term, lo, hi Lin, b byte) {
	if t.Op == "slice" {
		off, _ := LinOf(t.Args[1])
		lo, hi = lo.add(off, 1), hi.add(off, 1)
		t = t.Args[0].(VStr).T
	}
	s.Atoms = append(s.Atoms, AtomFact{&Term{Op: "nobyte", S: string(b), Args: []Val{VStr{t}, numLin(lo), numLin(hi)}}, true})
}

// EndsAt reports that t ends at hi or has b there.
func (s *State) EndsAt(t *Term, hi Lin, b byte) bool {
	if d := hi.add(lenLin(t), -1); d.IsConst() && d.C == 0 {
		return true
	}
	l := byteLin(t, hi).add(linConst(-int64(b)), 1)
	return s.geFact(l) && s.geFact(l.scale(-1))
}

// cutStr is t[lo:hi], where what is known of lengths tells in which part of a
// concatenation the bounds lie.
func (s *State) cutStr(t *Term, lo, hi Lin) *Term {
	r := sliceStr(t, lo, hi)
	if r.Op != "slice" {
		return r
	}
	x, ok := r.Args[0].(VStr)
	if !ok || x.T.Op != "cat" {
		return r
	}
	lo, _ = LinOf(r.Args[1])
	hi, _ = LinOf(r.Args[2])
	out := &Term{Op: "const"}
	cum := Lin{}
	in := false
	for _, a := range x.T.Args {
		p := a.(VStr).T
		n := lenLin(p)
		end := cum.add(n, 1)
		from := linConst(0)
		if !in {
			if s.geFact(lo.add(end, -1)) { // lo >= end: later
				cum = end
				continue
			}
			if !s.geFact(lo.add(cum, -1)) || !s.geFact(end.add(lo, -1)) {
				return r
			}
			from, in = lo.add(cum, -1), true
		}
		if s.geFact(hi.add(end, -1)) { // all of it
			out = concat(out, sliceStr(p, from, n))
			cum = end
			continue
		}
		if !s.geFact(hi.add(cum, -1)) || !s.geFact(end.add(hi, -1)) {
			return r
		}
		return concat(out, sliceStr(p, from, hi.add(cum, -1)))
	}
	return out
}

// findParts is the position of a byte in a concatenation whose symbolic parts
// are known not to hold it.
func (s *State) findParts(t *Term, b byte, last bool) (Lin, bool) {
	if t.Op != "cat" {
		if s.NoByte(t, linConst(0), lenLin(t), b) {
			return linConst(-1), true
		}
		return Lin{}, false
	}
	cum := Lin{}
	at := linConst(-1)
	for _, a := range t.Args {
		p := a.(VStr).T
		if p.Op == "const" {
			i := strings.IndexByte(p.S, b)
			if last {
				i = strings.LastIndexByte(p.S, b)
			}
			if i >= 0 {
				at = cum.add(linConst(int64(i)), 1)
				if !last {
					return at, true
				}
			}
		} else if !s.NoByte(p, linConst(0), lenLin(p), b) {
			return Lin{}, false
		}
		cum = cum.add(lenLin(p), 1)
	}
	return at, true
}

// endsWith tells whether t ends with y where its last part tells.
func endsWith(t *Term, y string) (has, known bool) {
	if t.Op == "const" {
		return strings.HasSuffix(t.S, y), true
	}
	if t.Op == "cat" {
		t = t.Args[len(t.Args)-1].(VStr).T
		if t.Op != "const" {
			return false, false
		}
		n := len(t.S)
		if n >= len(y) {
			return strings.HasSuffix(t.S, y), true
		}
		if !strings.HasSuffix(y, t.S) {
			return false, true
		}
	}
	return false, false
}

// NoByteFact records that t is free of b.
func (s *State) NoByteFact(t *Term, b byte) { s.noByteFact(t, linConst(0), lenLin(t), b) }

// SliceTerm is t[lo:hi].
func SliceTerm(t *Term, lo, hi Lin) *Term { return sliceStr(t, lo, hi) }

// Concat is a+b.
func Concat(a, b *Term) *Term { return concat(a, b) }

// AtomLin is a term as a number.
func AtomLin(t *Term) Lin { return linAtom(t) }
