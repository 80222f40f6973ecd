package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
	"notifysa/internal/load"
)

// treeH interprets the operations of the per-directory tree on an arbitrary
// tree. Nodes come into being when the code reaches them, holding any
// combination of registrations that satisfies the tree's invariant; what the
// operation did to a node is checked when the code lets go of it, or at the
// end. So the result holds for trees of every shape and depth.
type treeH struct {
	c    *Ctx
	p    *load.Program
	n    *names
	m    *absint.Machine
	name string
	op   string // watch, stop, create, remove, dispatch
	fail failFn
	obl  int
	ends int
	// field positions of node
	fName, fWatch, fChild int
	group                 string
	faults                bool // the watcher may refuse
	perdir                bool // the tree follows directories itself
	listErr               bool // listing a directory may fail
	settle                bool // forget the registrations of nodes that are as they must be
	touched               bool // a forgotten node was looked at again
	stranger              bool // the channel has no registrations
	strict                bool // children must be looked up by the path's components
	treeT                 types.Type
	onCall                func(s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool)
}

func str(s string) absint.Val { return absint.Str(s) }

func ghostStr(g map[string]absint.Val, k string) string {
	if v, ok := g[k].(absint.VStr); ok && v.T.Op == "const" {
		return v.T.S
	}
	return ""
}

// newTreeH resolves the shape of a node.
func (c *Ctx) newTreeH(p *load.Program, n *names) (*treeH, bool) {
	h := &treeH{c: c, p: p, n: n, fName: -1, fWatch: -1, fChild: -1}
	st, ok := n.node.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String && h.fName < 0 {
				h.fName = i
			}
			if types.Identical(t, n.watchpoint) {
				h.fWatch = i
			} else if mt, ok := t.Underlying().(*types.Map); ok && types.Identical(mt.Elem(), n.node) {
				h.fChild = i
			}
		}
	}
	if h.fName < 0 || h.fWatch < 0 || h.fChild < 0 {
		c.Fail("resolve", "type node", "", "a node no longer consists of a name, a watchpoint and children by name")
		return nil, false
	}
	return h, true
}

func (h *treeH) isNode(v absint.Val) (absint.VStruct, bool) {
	st, ok := v.(absint.VStruct)
	if !ok || len(st.F) != h.n.node.Underlying().(*types.Struct).NumFields() {
		return st, false
	}
	if _, ok := st.F[h.fName].(absint.VStr); !ok {
		return st, false
	}
	_, a := st.F[h.fWatch].(absint.VMap)
	_, b := st.F[h.fChild].(absint.VMap)
	return st, a && b
}

func (h *treeH) wpOf(nd absint.VStruct) int    { return nd.F[h.fWatch].(absint.VMap).Obj }
func (h *treeH) childOf(nd absint.VStruct) int { return nd.F[h.fChild].(absint.VMap).Obj }
func nodeName(h *treeH, nd absint.VStruct) *absint.Term {
	return nd.F[h.fName].(absint.VStr).T
}

// fresh makes a node nobody has looked at yet.
func (h *treeH) fresh(s *absint.State, name *absint.Term, role string, pOld, pNew absint.Val) absint.VStruct {
	st := absint.VStruct{F: make([]absint.Val, h.n.node.Underlying().(*types.Struct).NumFields())}
	wp := s.New(&absint.Obj{Kind: 'm', Typ: h.n.watchpoint, Lazy: "wp", Label: "watchpoint", Ghost: map[string]absint.Val{
		"name": absint.VStr{T: name}, "role": str(role)}})
	ch := s.New(&absint.Obj{Kind: 'm', Typ: h.n.node.Underlying().(*types.Struct).Field(h.fChild).Type(), Lazy: "child", Label: "children", Ghost: map[string]absint.Val{
		"name": absint.VStr{T: name}, "wp": absint.VMap{Obj: wp}, "role": str(role)}})
	g := s.Mut(wp).Ghost
	if pOld != nil {
		g["pOld"], g["pNew"] = pOld, pNew
	}
	st.F[h.fName] = absint.VStr{T: name}
	st.F[h.fWatch] = absint.VMap{Obj: wp}
	st.F[h.fChild] = absint.VMap{Obj: ch}
	if role == "target" {
		s.Ghost["target"] = st
	}
	return st
}

// role classifies a node by its name.
func (h *treeH) role(s *absint.State, name *absint.Term) string {
	p, ok := s.Ghost["path"].(absint.VStr)
	if !ok {
		return "sub"
	}
	if name.Key() == p.T.Key() {
		return "target"
	}
	if name.Op == "const" && name.S == "" {
		return "root"
	}
	if p.T.Op == "const" {
		if name.Op == "const" && strings.HasPrefix(p.T.S, name.S+"/") {
			return "above"
		}
		return "sub"
	}
	if name.Op == "slice" && absint.Key(name.Args[0]) == absint.Key(p) {
		return "above"
	}
	return "sub"
}

// childName gives the name a child must have, and whether key is the
// component of the path that follows the parent's name.
func (h *treeH) childName(s *absint.State, parent *absint.Term, key *absint.Term) (name *absint.Term, onPath, aligned bool) {
	p, ok := s.Ghost["path"].(absint.VStr)
	if ok && p.T.Op == "const" {
		name := absint.Concat(absint.Concat(parent, &absint.Term{Op: "const", S: "/"}), key)
		r := h.role(s, name)
		return name, r == "target" || r == "above", key.Op == "const" && !strings.Contains(key.S, "/")
	}
	if ok && (key.Op == "slice" && absint.Key(key.Args[0]) == absint.Key(p)) {
		lo, _ := absint.LinOf(key.Args[1])
		hi, _ := absint.LinOf(key.Args[2])
		// the parent's extent
		end := absint.ConstLin(0)
		okp := false
		switch {
		case parent.Op == "const" && parent.S == "":
			okp = true
		case parent.Op == "slice" && absint.Key(parent.Args[0]) == absint.Key(p):
			a, _ := absint.LinOf(parent.Args[1])
			end, _ = absint.LinOf(parent.Args[2])
			okp = a.IsConst() && a.C == 0
		}
		if okp {
			d := lo.Sub(end)
			if d.IsConst() && d.C == 1 || !d.IsConst() && s.Holds(d.Plus(-1)) && s.Holds(absint.ConstLin(1).Sub(d)) {
				return absint.SliceTerm(p.T, absint.ConstLin(0), hi), true, s.NoByte(p.T, lo, hi, '/') && s.EndsAt(p.T, hi, '/')
			}
			return absint.Concat(absint.Concat(parent, &absint.Term{Op: "const", S: "/"}), key), true, false
		}
	}
	return absint.Concat(absint.Concat(parent, &absint.Term{Op: "const", S: "/"}), key), false, false
}

// expand gives the states in which the registrations at a node are known.
func (h *treeH) expand(s *absint.State, id int) []*absint.State {
	var out []*absint.State
	n := h.n
	for cc := 0; cc < 3; cc++ { // channel c: absent, registered, registered recursively
		for dd := 0; dd < 3; dd++ {
			for r := 0; r < 2; r++ {
				if (cc == 2 || dd == 2) && r == 0 {
					continue
				}
				if h.op == "dispatch" && dd != 0 {
					continue
				}
				if (h.op == "create" || h.op == "remove" || h.stranger) && cc != 0 {
					continue // nobody acts on behalf of a channel; d stands for any
				}
				x := s.Clone()
				g := x.Obj(id).Ghost
				zero := x.Const(0)
				C, D, R := zero, zero, zero
				ok := true
				assume := func(b bool) { ok = ok && b }
				var regs []wpVar
				mk := func(label string, kind int) absint.BV {
					v := x.SetVar(label)
					assume(x.AssumeNonzero(v.AndNot(x.Const(n.internal))))
					assume(x.AssumeZero(v.And(x.Const(n.omit))))
					if kind == 2 {
						assume(x.AssumeSub(x.Const(n.recursive), v))
					} else {
						assume(x.AssumeZero(v.And(x.Const(n.recursive))))
					}
					return v
				}
				ck := x.Ghost["c"]
				if h.op == "dispatch" {
					ck = x.Opq("ch", true, true)
				}
				if cc > 0 {
					C = mk("C", cc)
					regs = append(regs, wpVar{ck, C})
				}
				if dd > 0 {
					D = mk("D", dd)
					regs = append(regs, wpVar{x.Ghost["d"], D})
				}
				if r > 0 {
					R = x.SetVar("R")
					assume(x.AssumeSub(x.Const(n.internal|n.create), R))
					// a recursive watch has put at least one event into both
					if cc == 2 {
						assume(x.AssumeNonzero(C.And(R).AndNot(x.Const(n.internal))))
					}
					if dd == 2 {
						assume(x.AssumeNonzero(D.And(R).AndNot(x.Const(n.internal))))
					}
					if po, has := g["pOld"]; has {
						up := x.BVOf(po).Or(x.Const(n.internal | n.create))
						needed := cc == 2 || dd == 2
						if cc == 2 {
							up = up.Or(C)
						}
						if dd == 2 {
							up = up.Or(D)
						}
						assume(x.AssumeSub(R, up))
						if !needed {
							assume(x.AssumeNonzero(x.BVOf(po)))
						}
					}
					regs = append(regs, wpVar{x.Ghost["rec"], R})
				}
				if !ok {
					continue
				}
				o := x.Mut(id)
				o.Lazy = ""
				total := C.Or(D).Or(R).AndNot(x.Const(n.omit))
				for _, r := range regs {
					o.Ent = append(o.Ent, absint.MapEnt{K: r.Key, V: absint.BVal(r.Set)})
				}
				if len(regs) > 0 {
					o.Ent = append(o.Ent, absint.MapEnt{K: absint.VNil{}, V: absint.BVal(total)})
				}
				ng := map[string]absint.Val{}
				for k, v := range o.Ghost {
					ng[k] = v
				}
				ng["C0"], ng["D0"], ng["R0"] = absint.BVal(C), absint.BVal(D), absint.BVal(R)
				ng["K"] = absint.BVal(total.AndNot(x.Const(n.internal)))
				if h.op == "dispatch" {
					ng["ch"] = ck
					ng["sent"] = absint.Num(0)
				}
				o.Ghost = ng
				if h.op == "create" && onpath(ghostStr(ng, "role")) && x.Ghost["need"] != nil {
					x.Ghost["need"] = absint.BVal(x.BVOf(x.Ghost["need"]).Or(R))
				}
				if h.op == "dispatch" && (cc == 2 || r == 1) {
					x.Ghost["isrec"] = absint.BoolOf(true)
				}
				out = append(out, x)
			}
		}
	}
	return out
}

func onpath(role string) bool { return role == "root" || role == "above" || role == "target" }

// adopt gives a node made by the code its ghosts.
func (h *treeH) adopt(s *absint.State, nd absint.VStruct) {
	name := nd.F[h.fName]
	w := h.wpOf(nd)
	if s.Obj(w).Ghost["name"] == nil && s.Obj(w).Lazy == "" {
		z := absint.BVal(s.Const(0))
		role := h.role(s, nodeName(h, nd))
		o := s.Mut(w)
		if o.Ghost == nil {
			o.Ghost = map[string]absint.Val{}
		}
		for _, k := range []string{"C0", "D0", "R0", "K"} {
			o.Ghost[k] = z
		}
		o.Ghost["name"] = name
		o.Ghost["role"] = str(role)
		o.Ghost["new"] = absint.BoolOf(true)
		if h.op == "dispatch" {
			o.Ghost["sent"] = absint.Num(0)
		}
		if len(o.Ent) != 0 {
			h.fail(s, "tree/new", "node", "a node enters the tree with registrations")
		}
	}
	ch := h.childOf(nd)
	if s.Obj(ch).Ghost["name"] == nil {
		o := s.Mut(ch)
		if o.Ghost == nil {
			o.Ghost = map[string]absint.Val{}
		}
		o.Ghost["name"] = name
		o.Ghost["wp"] = absint.VMap{Obj: w}
		o.Ghost["role"] = s.Obj(w).Ghost["role"]
	}
	if ghostStr(s.Obj(w).Ghost, "role") == "target" {
		s.Ghost["target"] = nd
	}
}

// hooks installs the tree's environment.
func (h *treeH) hooks(m *absint.Machine) {
	h.m = m
	m.BitName = h.n.bitName
	m.WidenAfter = 0
	m.Unroll = 2
	if h.op == "remove" {
		m.Unroll = 8
	}
	m.H.Lazy = h.lazy
	m.H.NextLazy = h.nextLazy
	m.H.RangeDone = func(s *absint.State, obj int) {
		if o := s.Obj(obj); o.Ghost["name"] != nil {
			s.Mut(obj).Ghost["ranged"] = absint.BoolOf(true)
		}
	}
	m.H.MapWrite = h.mapWrite
	m.H.Fold = h.fold
	m.H.Head = h.settled
	m.H.Unfold = h.unfold
	m.H.HoldEntry = h.holds
	m.H.Counts = func(rest absint.Val) bool {
		t, ok := rest.(absint.VTuple)
		return ok && absint.Key(t.F[0]) != absint.Key(str("dirent"))
	}
	m.H.Forget = func(s *absint.State, id int, o *absint.Obj) { h.forget(s, o, false) }
	m.H.Call = h.call
	m.H.Go = noteGo
	m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
		if s.Ghost["panicok"] != nil {
			h.ends++
			return
		}
		h.fail(s, "tree/panic", h.construct(s), "%s can panic: %s", h.op, why)
	}
}

// holds keeps the nodes of a path that is spelled out.
func (h *treeH) holds(s *absint.State, o *absint.Obj, e absint.MapEnt) bool {
	p, ok := s.Ghost["path"].(absint.VStr)
	if !ok || p.T.Op != "const" {
		return false
	}
	nd, ok := h.isNode(e.V)
	return ok && h.role(s, nodeName(h, nd)) != "sub"
}

func (h *treeH) construct(s *absint.State) string {
	w := s.Where()
	if i := strings.Index(w, "("); i >= 0 && strings.HasSuffix(w, ")") {
		return strings.Trim(w[i+1:len(w)-1], "()")
	}
	return h.op
}

func (h *treeH) lazy(m *absint.Machine, s *absint.State, obj int, op string, key absint.Val) []*absint.State {
	o := s.Obj(obj)
	switch o.Lazy {
	case "wp":
		return h.expand(s, obj)
	case "settled":
		h.touched = true
		m.Steps = m.MaxSteps
		return nil
	case "child":
		k, ok := key.(absint.VStr)
		if !ok {
			return nil // the number of children
		}
		parent := o.Ghost["name"].(absint.VStr).T
		if k.T.Op == "const" && k.T.S == "" {
			x := s.Clone()
			q := x.Mut(obj)
			q.Absent = append(q.Absent, key)
			return []*absint.State{x}
		}
		name, onPath, aligned := h.childName(s, parent, k.T)
		if h.strict && onPath && !aligned {
			h.fail(s, "route/component", h.construct(s), "a child is looked up under a key which is not the next component of the path: %s below %s", k.T.Show(), parent.Show())
		}
		role := h.role(s, name)
		if role == "target" {
			if t, ok := s.Ghost["target"].(absint.VStruct); ok && s.Ghost["deleted"] == nil {
				x := s.Clone()
				q := x.Mut(obj)
				q.Ent = append(q.Ent, absint.MapEnt{K: key, V: t})
				return []*absint.State{x}
			}
		}
		a := s.Clone()
		qa := a.Mut(obj)
		qa.Absent = append(qa.Absent, key)
		b := s.Clone()
		if h.op == "dispatch" && onPath {
			a.Ghost["absent"] = absint.BoolOf(true)
			if role != "target" {
				a.Ghost["absentparent"] = absint.BoolOf(true)
			}
			if role == "target" {
				b.Ghost["leaf"] = absint.BoolOf(true)
			}
		}
		if h.op == "remove" && role == "target" {
			b.Ghost["known"] = absint.BoolOf(true)
		}
		nd := h.fresh(b, name, role, nil, nil)
		qb := b.Mut(obj)
		qb.Ent = append(qb.Ent, absint.MapEnt{K: key, V: nd})
		return []*absint.State{a, b}
	}
	panic("lazy " + o.Lazy)
}

// pending counts a node that must be visited.
func pending(s *absint.State, d int64) {
	l, _ := absint.LinOf(s.Ghost["len:obl"])
	s.Ghost["len:obl"] = absint.LinVal(l.Plus(d))
}

func (h *treeH) nextLazy(m *absint.Machine, s *absint.State, obj int) []absint.Outcome {
	o := s.Obj(obj)
	if o.Lazy == "wp" {
		return nil
	}
	if o.Lazy == "settled" {
		return nil // goes to the lazy hook
	}
	parent := o.Ghost["name"].(absint.VStr).T
	w := o.Ghost["wp"].(absint.VMap).Obj
	if s.Obj(w).Lazy == "settled" {
		var outs []absint.Outcome
		for _, b := range h.bounds(s) {
			outs = append(outs, h.nextChild(b.s, obj, parent, b.old, b.now))
		}
		return outs
	}
	if s.Obj(w).Lazy != "" {
		// the parent's registrations bound the child's
		panic(absint.Undecided{Msg: "children are visited before the node's own registrations were read"})
	}
	x := s.Clone()
	pOld := x.Obj(w).Ghost["R0"]
	pNew, _ := entry(x, w, x.Ghost["rec"])
	return []absint.Outcome{h.nextChild(x, obj, parent, pOld, absint.BVal(pNew))}
}

// nextChild is one more child of a node, whose registrations are pOld before
// and pNew after the operation.
func (h *treeH) nextChild(x *absint.State, obj int, parent *absint.Term, pOld, pNew absint.Val) absint.Outcome {
	key := x.Sym("component")
	name := absint.Concat(absint.Concat(parent, &absint.Term{Op: "const", S: "/"}), key)
	x.Assume(h.m.Eq(x, absint.VStr{T: key}, str("")), false)
	nd := h.fresh(x, name, "sub", pOld, pNew)
	x.Mut(h.wpOf(nd)).Ghost["pend"] = absint.BoolOf(true)
	pending(x, 1)
	q := x.Mut(obj)
	q.Ent = append(q.Ent, absint.MapEnt{K: absint.VStr{T: key}, V: nd})
	return absint.Outcome{S: x, V: tuple(absint.VStr{T: key}, nd)}
}

// settled checks the visited nodes at a loop head and forgets what is
// registered at those that are as the operation has to leave them. Code that
// looks at such a node again makes the scenario run without this.
func (h *treeH) settled(s *absint.State) {
	if n := s.Ghost["need"]; n != nil && s.BVOf(n).Compound() {
		s.NameSet(s.BVOf(n), "needed above")
	}
	if !h.settle || s.Ghost["nocheck"] != nil {
		return
	}
	fail := h.fail
	defer func() { h.fail = fail }()
	for id, o := range s.Heap {
		if o.Kind != 'm' || o.Lazy != "" || o.Ghost["wp"] != nil || o.Ghost["name"] == nil {
			continue
		}
		switch ghostStr(o.Ghost, "role") {
		case "sub":
			if o.Ghost["visit"] == nil {
				continue
			}
		case "target":
			if h.op != "create" || o.Ghost["listed"] == nil {
				continue
			}
		default:
			continue
		}
		bad := false
		h.fail = func(*absint.State, string, string, string, ...interface{}) { bad = true }
		h.forgetNode(s, o, h.read(s, o), false)
		if bad {
			continue
		}
		q := s.Mut(id)
		q.Lazy, q.Ent, q.Absent = "settled", nil, nil
		g := map[string]absint.Val{}
		for _, k := range []string{"name", "role", "visit", "stacked", "listed"} {
			if v, ok := q.Ghost[k]; ok {
				g[k] = v
			}
		}
		q.Ghost = g
	}
}

func (h *treeH) mapWrite(m *absint.Machine, s *absint.State, in ssa.Instruction, obj int, k, v absint.Val) {
	o := s.Obj(obj)
	if mt, ok := o.Typ.Underlying().(*types.Map); !ok || !types.Identical(mt.Elem(), h.n.node) {
		return
	}
	key, ok := k.(absint.VStr)
	if !ok {
		return
	}
	if v == nil { // delete
		h.obl++
		old, ok := s.MapGet(obj, k)
		if !ok {
			return
		}
		nd, ok := h.isNode(old)
		if !ok {
			return
		}
		w, ch := s.Obj(h.wpOf(nd)), s.Obj(h.childOf(nd))
		if h.op == "remove" && ghostStr(w.Ghost, "role") == "target" {
			s.Ghost["deleted"] = absint.BoolOf(true)
			return
		}
		if w.Lazy != "" || len(w.Ent) > 0 {
			h.fail(s, "tree/drop", h.construct(s), "a node which may hold registrations is removed from the tree")
		} else if (ch.Lazy != "" && (ch.LenAtom == nil || !s.Holds(absint.ConstLin(0).Sub(absint.AtomLin(ch.LenAtom))))) || len(ch.Ent) > 0 {
			h.fail(s, "tree/drop", h.construct(s), "a node which may have children is removed from the tree")
		}
		return
	}
	nd, ok := h.isNode(v)
	if !ok {
		h.fail(s, "tree/new", h.construct(s), "something without name, watchpoint or children is put into the tree")
		return
	}
	parent, ok := o.Ghost["name"].(absint.VStr)
	if !ok {
		panic(absint.Undecided{Msg: "a child is added to a node outside the tree"})
	}
	want, onPath, aligned := h.childName(s, parent.T, key.T)
	h.obl++
	if nodeName(h, nd).Key() != want.Key() {
		h.fail(s, "tree/name", h.construct(s), "a child of %q stored under %s is named %s", parent.T.Show(), key.T.Show(), nodeName(h, nd).Show())
	}
	if onPath && !aligned {
		h.fail(s, "route/component", h.construct(s), "a child is stored under a key which is not the next component of the path: %s below %s", key.T.Show(), parent.T.Show())
	}
	h.adopt(s, nd)
	if s.Ghost["entry"] != nil && absint.Key(key) == absint.Key(s.Ghost["entry"]) {
		h.discovered(s, nd)
	}
}

// discovered marks the node of a listed directory as one to be visited.
func (h *treeH) discovered(s *absint.State, nd absint.VStruct) {
	s.Mut(h.wpOf(nd)).Ghost["pend"] = absint.BoolOf(true)
}

// ---- stacks of nodes still to be visited

func (h *treeH) fold(s *absint.State, v absint.Val) (absint.Val, bool) {
	if nd, ok := h.isNode(v); ok {
		w := s.Obj(h.wpOf(nd))
		role := ghostStr(w.Ghost, "role")
		if role == "above" || role == "root" {
			return nil, false
		}
		if role != "sub" {
			return nil, false
		}
		ch := s.Obj(h.childOf(nd))
		virgin := w.Lazy == "wp" && ch.Lazy == "child" && len(ch.Ent) == 0 && len(ch.Absent) == 0
		empty := w.Lazy == "" && len(w.Ent) == 0 && ch.Lazy == "" && len(ch.Ent) == 0 && w.Ghost["new"] != nil
		if !virgin && !empty {
			return nil, false
		}
		if w.Ghost["stacked"] != nil {
			h.fail(s, h.walkRule("twice"), h.construct(s), "a node is put twice on the list of nodes to visit")
			s.Kill()
			return nil, false
		}
		if w.Ghost["pend"] == nil {
			if s.Ghost["entry"] != nil && absint.Key(w.Ghost["name"]) == absint.Key(s.Ghost["entryname"]) {
				// an entry that was in the tree already
			} else {
				h.fail(s, h.walkRule("extra"), h.construct(s), "a node which is not a child of the visited one is put on the list of nodes to visit")
				s.Kill()
				return nil, false
			}
		}
		s.Mut(h.wpOf(nd)).Ghost["stacked"] = absint.BoolOf(true)
		h.loosen(s, h.wpOf(nd))
		if s.Ghost["entry"] != nil {
			delete(s.Ghost, "entry")
			delete(s.Ghost, "entryname")
		}
		return tuple(str("node")), true
	}
	st, ok := v.(absint.VStruct)
	if !ok {
		return nil, false
	}
	var t absint.VTuple
	t.F = append(t.F, str("struct"))
	var nd absint.VStruct
	found := false
	for _, f := range st.F {
		if x, ok := h.isNode(f); ok {
			nd, found = x, true
		}
	}
	if !found {
		return nil, false
	}
	w := h.wpOf(nd)
	for _, f := range st.F {
		if x, ok := h.isNode(f); ok {
			ft, ok := h.fold(s, x)
			if !ok {
				return nil, false
			}
			t.F = append(t.F, ft)
			continue
		}
		num, ok := f.(absint.VNum)
		if !ok {
			return nil, false
		}
		pn, has := s.Obj(w).Ghost["pNew"]
		if !has {
			return nil, false
		}
		if s.SameSet(s.BVOf(num), s.BVOf(pn)) {
			t.F = append(t.F, str("bound"))
		} else {
			h.fail(s, "stop/bound", h.construct(s), "a child is visited with a bound that differs from what its parent still needs for recursive watches in %s", s.Describe(s.BVOf(num).Xor(s.BVOf(pn))))
			s.Kill()
			return nil, false
		}
	}
	return t, true
}

// loosen forgets which children a new node has, once one of them is on the
// list of nodes to visit.
func (h *treeH) loosen(s *absint.State, wp int) {
	for id, o := range s.Heap {
		if o.Kind != 'm' || o.Ghost["wp"] == nil || o.Lazy != "" {
			continue
		}
		for _, e := range o.Ent {
			if nd, ok := h.isNode(e.V); ok && h.wpOf(nd) == wp {
				s.Mut(id).Lazy = "child"
				return
			}
		}
	}
}

func (h *treeH) unfold(m *absint.Machine, s *absint.State, tmpl absint.Val) []absint.Outcome {
	t := tmpl.(absint.VTuple)
	switch t.F[0].(absint.VStr).T.S {
	case "node":
		h.popped(s)
		var outs []absint.Outcome
		for _, b := range h.bounds(s) {
			for _, kind := range []string{"old", "new"} {
				x := b.s.Clone()
				nd := h.fresh(x, x.Sym("node"), "sub", b.old, b.now)
				w := h.wpOf(nd)
				x.Mut(w).Ghost["visit"] = absint.BoolOf(true)
				x.Mut(w).Ghost["stacked"] = absint.BoolOf(true)
				if kind == "new" {
					if h.op == "stop" || h.op == "remove" || x.Ghost["listing"] == nil {
						continue
					}
					h.emptied(x, nd)
				}
				outs = append(outs, absint.Outcome{S: x, V: nd})
			}
		}
		return outs
	case "struct":
		h.popped(s)
		var outs []absint.Outcome
		for _, b := range h.bounds(s) {
			x := b.s
			r := absint.VStruct{}
			for _, f := range t.F[1:] {
				if _, ok := f.(absint.VTuple); ok {
					nd := h.fresh(x, x.Sym("node"), "sub", b.old, b.now)
					x.Mut(h.wpOf(nd)).Ghost["visit"] = absint.BoolOf(true)
					x.Mut(h.wpOf(nd)).Ghost["stacked"] = absint.BoolOf(true)
					r.F = append(r.F, nd)
				} else {
					r.F = append(r.F, b.now)
				}
			}
			outs = append(outs, absint.Outcome{S: x, V: r})
		}
		return outs
	case "dirent":
		return h.dirent(s)
	}
	panic("unfold")
}

// bounds gives what recursive watches above need at a node, before and after
// the operation: nothing, or a set with the bookkeeping bits.
func (h *treeH) bounds(s *absint.State) []inherited {
	bk := h.n.internal | h.n.create
	var outs []inherited
	for i := 0; i < 4; i++ {
		if i == 1 && h.op == "watch" || i == 1 && h.op == "create" {
			continue // an operation that adds does not take away
		}
		x := s.Clone()
		mk := func(label string, has bool) absint.BV {
			if !has {
				return x.Const(0)
			}
			v := x.SetVar(label)
			x.AssumeSub(x.Const(bk), v)
			return v
		}
		po, pn := mk("inherited before", i&1 != 0), mk("inherited after", i&2 != 0)
		if h.op == "watch" || h.op == "create" {
			x.AssumeSub(po, pn)
		}
		if h.stranger {
			if i == 1 || i == 2 {
				continue
			}
			pn = po
		}
		outs = append(outs, inherited{x, absint.BVal(po), absint.BVal(pn)})
	}
	return outs
}

type inherited struct {
	s        *absint.State
	old, now absint.Val
}

// popped notes that one more node of the list is visited.
func (h *treeH) popped(s *absint.State) {
	h.listed(s)
	pending(s, -1)
}

// listed checks that the listing of the last visited directory was used up.
func (h *treeH) listed(s *absint.State) {
	if v, ok := s.Ghost["entleft"]; ok {
		h.obl++
		l, _ := absint.LinOf(v)
		if !s.Holds(absint.ConstLin(0).Sub(l)) {
			h.fail(s, "walk/entries", h.construct(s), "the walk goes on although entries of a listed directory were not looked at")
		}
		delete(s.Ghost, "entleft")
	}
	if s.Ghost["entry"] != nil {
		h.obl++
		h.fail(s, "walk/subdirectory", h.construct(s), "a subdirectory found in a listing is not put on the list of directories to visit")
		delete(s.Ghost, "entry")
		delete(s.Ghost, "entryname")
	}
}

// emptied makes nd a node which was just added to the tree.
func (h *treeH) emptied(s *absint.State, nd absint.VStruct) {
	w, ch := s.Mut(h.wpOf(nd)), s.Mut(h.childOf(nd))
	w.Lazy, ch.Lazy = "", ""
	z := absint.BVal(s.Const(0))
	for _, k := range []string{"C0", "D0", "R0", "K"} {
		w.Ghost[k] = z
	}
	w.Ghost["new"] = absint.BoolOf(true)
}

// dirent gives the next entry of a directory listing.
func (h *treeH) dirent(s *absint.State) []absint.Outcome {
	if s.Ghost["entry"] != nil {
		h.fail(s, "walk/subdirectory", h.construct(s), "a subdirectory found in a listing is not put on the list of directories to visit")
		s.Kill()
		return nil
	}
	var outs []absint.Outcome
	for _, kind := range []string{"directory", "file", "symlink", "pipe", "link to a directory"} {
		x := s.Clone()
		e := x.Sym("dirent!" + kind)
		nm := x.Sym("component")
		x.Assume(h.m.Eq(x, absint.VStr{T: nm}, str("")), false)
		if v, ok := x.Ghost["entleft"]; ok {
			l, _ := absint.LinOf(v)
			x.Ghost["entleft"] = absint.LinVal(l.Plus(-1))
		}
		ent := absint.VOpaque{T: e, NonNil: true, Uniq: true}
		x.Ghost["~dirent"] = tuple(ent, str(kind), absint.VStr{T: nm})
		delete(x.Ghost, "entry")
		if kind == "directory" {
			x.Ghost["entry"] = absint.VStr{T: nm}
			cur, ok := x.Ghost["listing"].(absint.VStr)
			if ok {
				x.Ghost["entryname"] = absint.VStr{T: absint.Concat(absint.Concat(cur.T, &absint.Term{Op: "const", S: "/"}), nm)}
			}
			pending(x, 1)
		}
		outs = append(outs, absint.Outcome{S: x, V: ent})
	}
	return outs
}

const (
	modeDir       = 1 << 31
	modeSymlink   = 1 << 27
	modeNamedPipe = 1 << 25
)

func kindMode(kind string) int64 {
	switch kind {
	case "directory":
		return modeDir
	case "symlink":
		return modeSymlink
	case "pipe":
		return modeNamedPipe
	case "link to a directory":
		return modeDir | modeSymlink
	}
	return 0
}

// node finds the watchpoint of the node with the given name.
func (h *treeH) nodeByName(s *absint.State, name absint.Val) (int, bool) {
	k := absint.Key(name)
	best, ok := 0, false
	for id, o := range s.Heap {
		if o.Kind == 'm' && o.Ghost["name"] != nil && o.Ghost["wp"] == nil && absint.Key(o.Ghost["name"]) == k {
			if !ok || id > best {
				best, ok = id, true
			}
		}
	}
	return best, ok
}

func (h *treeH) call(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	if h.onCall != nil {
		if o, ok := h.onCall(s, ci); ok {
			return o, ok
		}
	}
	ret := func(v absint.Val) ([]absint.Outcome, bool) { return []absint.Outcome{{S: s, V: v}}, true }
	if ci.Method != nil {
		rk := absint.Key(ci.Recv)
		if t, ok := s.Ghost["~dirent"].(absint.VTuple); ok && rk == absint.Key(t.F[0]) {
			kind := t.F[1].(absint.VStr).T.S
			switch ci.Method.Name() {
			case "Type":
				return ret(absint.BVal(s.Const(uint32(kindMode(kind)))))
			case "Name":
				return ret(t.F[2])
			case "IsDir":
				return ret(absint.BoolOf(kindMode(kind)&modeDir != 0))
			}
		}
		switch rk {
		case absint.Key(s.Ghost["w"]):
			return h.watcherCall(s, ci)
		case absint.Key(s.Ghost["ei"]):
			switch ci.Method.Name() {
			case "Event":
				return ret(s.Ghost["event"])
			case "Path":
				return ret(s.Ghost["path"])
			case "isDir":
				v := ghostStr(s.Ghost, "dir")
				switch v {
				case "yes":
					return ret(tuple(absint.BoolOf(true), absint.VNil{}))
				case "no":
					return ret(tuple(absint.BoolOf(false), absint.VNil{}))
				}
				return ret(tuple(absint.BoolOf(false), s.OSErr("isDir")))
			}
		}
		return nil, false
	}
	if ci.Fn != nil && ci.Fn.Pkg == h.p.Pkg {
		switch ci.Fn.Name() {
		case "cleanpath":
			if s.Ghost["path"] == nil {
				return nil, false
			}
			var outs []absint.Outcome
			for i, r := range []string{"plain", "recursive", "failed"} {
				if only := ghostStr(s.Ghost, "only"); only != "" && only != r {
					continue
				}
				x := s.Clone()
				x.Ghost["mode"] = str(r)
				if i < 2 {
					outs = append(outs, absint.Outcome{S: x, V: tuple(x.Ghost["path"], absint.BoolOf(i == 1), absint.VNil{})})
				} else {
					outs = append(outs, absint.Outcome{S: x, V: tuple(str(""), absint.BoolOf(false), x.Err("cleanpath"))})
				}
			}
			return outs, true
		}
		if strings.HasPrefix(ci.Fn.Name(), "dbgprint") {
			return ret(tuple())
		}
	}
	switch ci.Name {
	case "os.ReadDir", "io/ioutil.ReadDir":
		return h.readDir(s, ci)
	}
	if o, ok := m.SepModel(s, ci, h.p.Pkg); ok {
		return o, ok
	}
	return nil, false
}

func (h *treeH) readDir(s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	h.listed(s)
	id, ok := h.nodeByName(s, ci.Args[0])
	h.obl++
	if !ok {
		h.fail(s, "walk/list", h.construct(s), "a directory is listed which is not the node being visited: %s", absint.Show(ci.Args[0]))
		s.Kill()
		return nil, true
	}
	s.Mut(id).Ghost["listed"] = absint.BoolOf(true)
	var outs []absint.Outcome
	if h.listErr && s.Ghost["failed"] == nil {
		x := s.Clone()
		x.Ghost["failed"] = str("ReadDir")
		x.Ghost["listfail"] = absint.BoolOf(true)
		outs = append(outs, absint.Outcome{S: x, V: tuple(absint.VNil{}, x.OSErr("ReadDir"))})
	}
	n := s.Int("entries")
	s.AddGE(*n.L)
	o := s.New(&absint.Obj{Kind: 'q', Typ: ci.Fn.Signature.Results().At(0).Type(), Rest: tuple(str("dirent")), RestN: n.L, Label: "listing"})
	s.Ghost["entleft"] = n
	s.Ghost["listing"] = ci.Args[0]
	outs = append([]absint.Outcome{{S: s, V: tuple(absint.VSlice{Obj: o}, absint.VNil{})}}, outs...)
	return outs, true
}

// watcherCall models the underlying watcher.
func (h *treeH) watcherCall(s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	name := ci.Method.Name()
	if name == "Close" {
		return nil, false
	}
	h.obl++
	if h.op == "args" || h.stranger {
		h.fail(s, "args/effect", h.name, "%s calls %s of the watcher", h.name, name)
	}
	cons := h.construct(s) + ": " + name
	id, ok := h.nodeByName(s, ci.Args[0])
	if !ok {
		h.fail(s, "sync/node", cons, "%s is called for a path which is not the name of a node at hand: %s", name, absint.Show(ci.Args[0]))
		s.Kill()
		return nil, true
	}
	o := s.Obj(id)
	if o.Lazy == "wp" { // nobody has looked at its registrations
		var outs []absint.Outcome
		for _, x := range h.expand(s, id) {
			if os, ok := h.watcherCall(x, ci); ok {
				outs = append(outs, os...)
			}
		}
		return outs, true
	}
	if o.Lazy != "" {
		panic(absint.Undecided{Msg: name + " is called for a node whose registrations were not looked at"})
	}
	K := s.BVOf(o.Ghost["K"])
	internal := s.Const(h.n.internal)
	var nk absint.BV
	check := func(e absint.BV) {
		if !s.IsZero(e.And(internal)) {
			h.fail(s, "sync/internal", cons, "%s passes internal bits on to the watcher: %s", name, s.Describe(e.And(internal)))
		}
		if !s.IsNonzero(e) {
			h.fail(s, "sync/empty", cons, "%s may be called with an empty set of events", name)
		}
	}
	dirty := s.Ghost["failed"] != nil
	switch name {
	case "Watch":
		nk = s.BVOf(ci.Args[1])
		check(nk)
		if !s.IsZero(K) && !dirty {
			h.fail(s, "sync/watched", cons, "Watch is called for a path that is watched already")
		}
	case "Rewatch":
		old := s.BVOf(ci.Args[1])
		nk = s.BVOf(ci.Args[2])
		check(nk)
		if !s.SameSet(old, K) && !dirty {
			h.fail(s, "sync/old", cons, "Rewatch is told an old set that differs from the one in force in %s", s.Describe(old.Xor(K)))
		}
	case "Unwatch":
		nk = s.Const(0)
		if !s.IsNonzero(K) && !dirty {
			h.fail(s, "sync/unwatched", cons, "Unwatch may be called for a path that is not watched")
		}
	default:
		panic(absint.Undecided{Msg: "watcher method " + name})
	}
	var outs []absint.Outcome
	if h.faults && s.Ghost["failed"] == nil {
		x := s.Clone()
		x.Ghost["failed"] = str(name)
		x.Mut(id).Ghost["refused"] = absint.BoolOf(true)
		outs = append(outs, absint.Outcome{S: x, V: x.OSErr("watcher " + name)})
	}
	s.Mut(id).Ghost["K"] = absint.BVal(nk)
	return append([]absint.Outcome{{S: s, V: absint.VNil{}}}, outs...), true
}

// ---- what an operation must have done to a node

// after is the state of a node.
type after struct {
	C, D, R, T, K  absint.BV
	C0, D0, R0     absint.BV
	nC, nD, nR, nT bool
	extra          int
	role           string
	isnew, visit   bool
}

func (h *treeH) read(s *absint.State, o *absint.Obj) after {
	var a after
	z := s.Const(0)
	a.C, a.D, a.R, a.T = z, z, z, z
	for _, e := range o.Ent {
		b := s.BVOf(e.V)
		switch {
		case s.M.KeyEq(s, e.K, absint.VNil{}) == 1:
			a.T, a.nT = b, true
		case absint.Key(e.K) == absint.Key(s.Ghost["c"]) || o.Ghost["ch"] != nil && absint.Key(e.K) == absint.Key(o.Ghost["ch"]):
			a.C, a.nC = b, true
		case absint.Key(e.K) == absint.Key(s.Ghost["d"]):
			a.D, a.nD = b, true
		case absint.Key(e.K) == absint.Key(s.Ghost["rec"]):
			a.R, a.nR = b, true
		default:
			a.extra++
		}
	}
	get := func(k string) absint.BV {
		if v, ok := o.Ghost[k]; ok {
			return s.BVOf(v)
		}
		return z
	}
	a.C0, a.D0, a.R0, a.K = get("C0"), get("D0"), get("R0"), get("K")
	a.role = ghostStr(o.Ghost, "role")
	a.isnew = o.Ghost["new"] != nil
	a.visit = o.Ghost["visit"] != nil
	return a
}

// forget checks a node that the code lets go of.
func (h *treeH) forget(s *absint.State, o *absint.Obj, final bool) {
	if s.Dead() || s.Ghost["nocheck"] != nil {
		return
	}
	if o.Kind != 'm' || o.Ghost["name"] == nil {
		return
	}
	if o.Ghost["wp"] != nil { // a map of children
		h.forgetChildren(s, o)
		return
	}
	if o.Lazy == "settled" {
		return
	}
	if o.Lazy == "wp" {
		if o.Ghost["visit"] != nil || h.op == "dispatch" {
			h.forgetUnread(s, o)
		}
		return
	}
	if o.Ghost["stacked"] != nil && o.Ghost["visit"] == nil {
		return // on the list of nodes to visit
	}
	h.forgetNode(s, o, h.read(s, o), final)
}

func (h *treeH) forgetChildren(s *absint.State, o *absint.Obj) {
	need := false
	w, ok := s.Heap[o.Ghost["wp"].(absint.VMap).Obj]
	if !ok || w == nil {
		return
	}
	switch h.op {
	case "stop", "remove":
		need = w.Ghost["visit"] != nil || (h.op == "remove" && ghostStr(w.Ghost, "role") == "target" && s.Ghost["deleted"] != nil) || (h.op == "stop" && ghostStr(w.Ghost, "role") == "root")
	}
	if h.op == "watch" || h.op == "create" {
		need = w.Ghost["visit"] != nil && w.Ghost["listed"] == nil && s.Ghost["failed"] == nil
	}
	if need && o.Lazy != "" && o.Ghost["ranged"] == nil {
		h.obl++
		h.fail(s, h.walkRule("children"), h.op, "the children of a visited node are not visited")
	}
}

// walkRule names a rule about the walk over the tree.
func (h *treeH) walkRule(name string) string {
	if h.op == "stop" {
		return "stop/" + name
	}
	return "walk/" + name
}

func (h *treeH) forgetUnread(s *absint.State, o *absint.Obj) {
	h.obl++
	switch h.op {
	case "stop":
		h.fail(s, "stop/skipped", h.op, "a node is passed over without removing the channel's registrations there")
	case "dispatch":
		h.fail(s, "route/skipped", h.op, "a node on the path of the event is passed over without the event being offered to its channels")
	default:
		h.fail(s, "walk/skipped", h.op, "a node of the subtree is passed over without being watched or unwatched")
	}
}

// common checks the aggregate and the underlying watch of a node.
func (h *treeH) common(s *absint.State, a after, cons string) {
	h.obl += 3
	omit, internal := s.Const(h.n.omit), s.Const(h.n.internal)
	total := a.C.Or(a.D).Or(a.R).AndNot(omit)
	if a.extra > 0 {
		h.fail(s, "tree/stranger", cons, "a channel that was never registered is found at a node")
	}
	if !s.SameSet(a.T, total) {
		h.fail(s, "sync/total", cons, "the aggregate of a node differs from the union of its registrations in %s", s.Describe(a.T.Xor(total)))
	}
	if s.Ghost["failed"] == nil && !s.SameSet(a.K, total.AndNot(internal)) {
		d := a.K.Xor(total.AndNot(internal))
		h.fail(s, "sync/kernel", cons, "the path of a node is watched for other events than its registrations need; they differ in %s (watched: %s, needed: %s)", s.Describe(d), s.Describe(a.K), s.Describe(total.AndNot(internal)))
	}
}

func (h *treeH) unchanged(s *absint.State, a after, cons, rule string) {
	h.obl++
	if !s.SameSet(a.C, a.C0) || !s.SameSet(a.D, a.D0) || !s.SameSet(a.R, a.R0) {
		h.fail(s, rule, cons, "the registrations at a node the operation does not concern have changed (c: %s, other: %s, bookkeeping: %s)", s.Describe(a.C.Xor(a.C0)), s.Describe(a.D.Xor(a.D0)), s.Describe(a.R.Xor(a.R0)))
	}
}

func (h *treeH) forgetNode(s *absint.State, o *absint.Obj, a after, final bool) {
	n := h.n
	bk := s.Const(n.internal | n.create)
	rec := s.Const(n.recursive)
	failed := s.Ghost["failed"] != nil
	cons := h.op + " at " + a.role
	if a.role == "sub" || a.role == "" {
		cons = h.op + " below"
	}
	if h.op != "dispatch" && !(h.op == "remove" && (a.visit || a.role == "target")) {
		h.common(s, a, cons)
	}
	// nobody touches other channels
	h.obl++
	if !s.SameSet(a.D, a.D0) {
		h.fail(s, "reg/other", cons, "%s changes the registration of another channel at a node in %s", h.op, s.Describe(a.D.Xor(a.D0)))
	}
	switch h.op {
	case "watch":
		mode := ghostStr(s.Ghost, "mode")
		e := s.BVOf(s.Ghost["e"])
		switch {
		case a.role == "target":
			if !final {
				h.fail(s, "reg/lost", cons, "the node of the watched path is not in the tree")
				return
			}
			h.watchTarget(s, a, mode, e, failed, cons)
		case a.role == "sub" && mode == "recursive":
			if o.Ghost["visit"] == nil && o.Ghost["pend"] == nil {
				return
			}
			want := a.R0.Or(e).Or(bk)
			h.obl += 2
			if !s.SameSet(a.C, a.C0) {
				h.fail(s, "reg/below", cons, "a recursive Watch registers the user's channel at a node below the path")
			}
			if !s.SameSet(a.R, want) {
				h.fail(s, "need/below", cons, "a node below a recursive watch does not get the events it needs, differing in %s", s.Describe(a.R.Xor(want)))
			}
		default:
			h.unchanged(s, a, cons, "reg/elsewhere")
		}
	case "stop":
		h.obl += 3
		if h.stranger {
			h.unchanged(s, a, cons, "args/effect")
			break
		}
		if a.nC {
			h.fail(s, "stop/left", cons, "Stop leaves a registration of the channel at a node")
		}
		up := bk
		if po, ok := o.Ghost["pNew"]; ok {
			up = up.Or(s.BVOf(po))
		} else if a.role == "sub" {
			return
		}
		keep := up
		if s.IsNonzero(a.D.And(rec)) {
			keep = keep.Or(a.D)
		}
		if !s.SubSet(a.R, keep) {
			h.fail(s, "need/leftover", cons, "after Stop a node is still watched for events no remaining recursive watch needs: %s", s.Describe(a.R.AndNot(keep)))
		}
		need := s.IsNonzero(a.D.And(rec))
		if po, ok := o.Ghost["pNew"]; ok && !need {
			if s.IsZero(s.BVOf(po)) && a.nR {
				h.fail(s, "need/leftover", cons, "after Stop a node is still watched recursively although no recursive watch remains")
			}
		}
		low := a.R0.And(keep)
		if need && !s.SubSet(low, a.R) {
			h.fail(s, "need/missing", cons, "Stop drops events at a node which a remaining recursive watch needs: %s", s.Describe(low.AndNot(a.R)))
		}
		if pn, ok := o.Ghost["pNew"]; ok && s.IsNonzero(s.BVOf(pn)) && !s.SubSet(low, a.R) {
			h.fail(s, "need/missing", cons, "Stop drops events at a node which a recursive watch above needs: %s", s.Describe(low.AndNot(a.R)))
		}
	case "create":
		want := s.BVOf(s.Ghost["need"])
		switch {
		case a.role != "target" && o.Ghost["listed"] == nil:
			// A node which is known already may be looked at; what is
			// registered there does not change, or to what is needed.
			if !s.SameSet(a.R, a.R0) && !s.SameSet(a.R, a.R0.Or(want).Or(bk)) || !s.SameSet(a.C, a.C0) {
				h.unchanged(s, a, cons, "reg/elsewhere")
			}
		case a.role == "target" || a.visit:
			h.obl++
			if s.IsZero(want) {
				h.unchanged(s, a, cons, "reg/elsewhere")
				break
			}
			w := a.R0.Or(want).Or(bk)
			if !s.SameSet(a.C, a.C0) {
				h.fail(s, "follow/user", cons, "following a new directory changes a user's registration")
			}
			if !s.SameSet(a.R, w) {
				h.fail(s, "follow/set", cons, "a new directory is not watched for what the recursive watches above need; it differs in %s", s.Describe(a.R.Xor(w)))
			}
		default:
			h.unchanged(s, a, cons, "reg/elsewhere")
		}
	case "remove":
		if a.role == "target" || a.visit {
			h.obl++
			if !s.IsZero(a.K) && s.Ghost["known"] != nil && o.Ghost["refused"] == nil {
				h.fail(s, "follow/unwatch", cons, "a removed directory stays watched")
			}
			break
		}
		h.unchanged(s, a, cons, "reg/elsewhere")
	case "dispatch":
		h.dispatchNode(s, o, a, cons)
	}
}

func (h *treeH) watchTarget(s *absint.State, a after, mode string, e absint.BV, failed bool, cons string) {
	n := h.n
	bk := s.Const(n.internal | n.create)
	rec := s.Const(n.recursive)
	h.obl += 2
	ok := s.Ghost["result"] != nil && ghostStr(s.Ghost, "result") == "nil"
	if !ok {
		if !s.SameSet(a.C, a.C0) {
			h.fail(s, "rollback/entry", cons+" ("+mode+")", "after a failed Watch the channel's registration differs from before in %s", s.Describe(a.C.Xor(a.C0)))
		}
		if !s.SameSet(a.R, a.R0) {
			h.fail(s, "rollback/bookkeeping", cons+" ("+mode+")", "after a failed Watch the recursive bookkeeping of the path differs from before in %s", s.Describe(a.R.Xor(a.R0)))
		}
		return
	}
	want := a.C0.Or(e)
	if mode == "recursive" {
		want = want.Or(rec)
	}
	if !s.SameSet(a.C, want) {
		h.fail(s, "reg/set", cons+" ("+mode+")", "after Watch the channel is registered for a set that differs from what was asked in %s", s.Describe(a.C.Xor(want)))
	}
	wantR := a.R0
	if mode == "recursive" {
		wantR = a.R0.Or(e).Or(bk)
	}
	if !s.SameSet(a.R, wantR) && !failed {
		h.fail(s, "need/set", cons+" ("+mode+")", "after Watch the recursive bookkeeping of the path differs from what is needed in %s", s.Describe(a.R.Xor(wantR)))
	}
	_ = failed
}

// finish checks every node still at hand.
func (h *treeH) finish(s *absint.State) {
	for _, o := range s.Heap {
		if o.Kind == 'm' && o.Ghost["name"] != nil {
			h.forget(s, o, true)
		}
	}
}

// start builds the tree through its constructor and makes it arbitrary.
func (h *treeH) start(m *absint.Machine, s *absint.State, ctor string) []absint.Outcome {
	fn := h.p.Pkg.Func(ctor)
	if fn == nil {
		h.c.Fail("resolve", ctor, "", "constructor not found")
		return nil
	}
	w := s.Opq("w", true, true)
	s.Ghost["w"] = w
	s.Ghost["c"] = s.Opq("c", true, true)
	s.Ghost["d"] = s.Opq("d", true, true)
	s.Ghost["events"] = s.Opq("events", true, true)
	s.Ghost["len:obl"] = absint.Num(0)
	args := []absint.Val{w, s.Ghost["events"]}
	if fn.Signature.Params().Len() == 3 {
		h.perdir = true
		s.Ghost["rec"] = s.Opq("rec", true, true)
		args = append(args, s.Ghost["rec"])
	} else {
		s.Ghost["rec"] = s.Opq("norec", true, true)
	}
	h.treeT = fn.Signature.Results().At(0).Type()
	s.Ghost["nocheck"] = absint.BoolOf(true)
	var outs []absint.Outcome
	for _, o := range m.Eval(s, fn, args, nil) {
		// find the root
		found := false
		var visit func(v absint.Val)
		visit = func(v absint.Val) {
			if nd, ok := h.isNode(v); ok && !found {
				found = true
				z := absint.BVal(o.S.Const(0))
				wo := o.S.Mut(h.wpOf(nd))
				wo.Ghost = map[string]absint.Val{"name": nd.F[h.fName], "role": str("root"), "C0": z, "D0": z, "R0": z, "K": z, "sent": absint.Num(0)}
				co := o.S.Mut(h.childOf(nd))
				co.Lazy = "child"
				co.Ghost = map[string]absint.Val{"name": nd.F[h.fName], "role": str("root"), "wp": nd.F[h.fWatch]}
				return
			}
			if st, ok := v.(absint.VStruct); ok {
				for _, f := range st.F {
					visit(f)
				}
			}
		}
		tv, ok := o.S.LoadPtr(o.V)
		if ok {
			visit(tv)
		}
		if !found {
			h.c.Fail("resolve", ctor, PosOf(h.p, fn), "the tree made by %s holds no root node", ctor)
			return nil
		}
		delete(o.S.Ghost, "nocheck")
		o.S.Ghost["t"] = o.V
		outs = append(outs, o)
	}
	return outs
}

// tree is the tree as a value whose methods can be called.
func (h *treeH) tree(s *absint.State) absint.VIface {
	return absint.VIface{T: h.treeT, V: s.Ghost["t"]}
}

// path makes an arbitrary clean absolute path other than the root.
func (h *treeH) path(s *absint.State) {
	p := s.Sym("path")
	s.Ghost["path"] = absint.VStr{T: p}
	s.AddGE(absint.LenOf(p).Plus(-2))
	s.ByteAt(p, absint.ConstLin(0), '/')
}
