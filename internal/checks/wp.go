package checks

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
	"notifysa/internal/load"
)

// names resolves the package-level names the scenarios rest on.
type names struct {
	p                *load.Program
	internal         uint32
	recursive, omit  uint32
	create, remove   uint32
	write, rename    uint32
	watchpoint, node types.Type
	treeIface        *types.Interface
	watcherIface     *types.Interface
	recWatcherIface  *types.Interface
	eventInfo, event types.Type
	missing          []string
}

func constU32(p *load.Program, name string) (uint32, bool) {
	nc, ok := p.Pkg.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	v, ok := constant.Uint64Val(constant.ToInt(nc.Value.Value))
	return uint32(v), ok
}

// resolveNames finds the anchors; a missing one is a finding.
func (c *Ctx) resolveNames(p *load.Program) (*names, bool) {
	n := &names{p: p}
	get := func(name string, dst *uint32) {
		v, ok := constU32(p, name)
		if !ok {
			n.missing = append(n.missing, "constant "+name)
		}
		*dst = v
	}
	get("recursive", &n.recursive)
	get("omit", &n.omit)
	get("Create", &n.create)
	get("Remove", &n.remove)
	get("Write", &n.write)
	get("Rename", &n.rename)
	n.internal = n.recursive | n.omit
	typ := func(name string) types.Type {
		t := p.Pkg.Type(name)
		if t == nil {
			n.missing = append(n.missing, "type "+name)
			return nil
		}
		return t.Type()
	}
	iface := func(name string) *types.Interface {
		t := typ(name)
		if t == nil {
			return nil
		}
		i, ok := t.Underlying().(*types.Interface)
		if !ok {
			n.missing = append(n.missing, "interface "+name)
		}
		return i
	}
	n.watchpoint = typ("watchpoint")
	n.node = typ("node")
	n.eventInfo = typ("EventInfo")
	n.event = typ("Event")
	n.treeIface = iface("tree")
	n.watcherIface = iface("watcher")
	n.recWatcherIface = iface("recursiveWatcher")
	if n.watchpoint != nil {
		if _, ok := n.watchpoint.Underlying().(*types.Map); !ok {
			n.missing = append(n.missing, "watchpoint is not a map")
		}
	}
	for _, m := range n.missing {
		c.Fail("resolve", m, "", "anchor not found in configuration %s", p.Config.Name)
	}
	return n, len(n.missing) == 0
}

// method resolves T.name or (*T).name.
func method(p *load.Program, t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		if f := p.Prog.LookupMethod(tt, p.Pkg.Pkg, name); f != nil && len(f.Blocks) > 0 {
			return f
		}
	}
	return nil
}

// wpVar is one registration of an abstract watchpoint.
type wpVar struct {
	Key absint.Val
	Set absint.BV
}

// newWP builds a watchpoint map holding regs and the matching total.
func newWP(s *absint.State, n *names, regs []wpVar) (obj int, total absint.BV) {
	o := &absint.Obj{Kind: 'm', Typ: n.watchpoint, Label: "watchpoint"}
	total = s.Const(0)
	for _, r := range regs {
		total = total.Or(r.Set)
		o.Ent = append(o.Ent, absint.MapEnt{K: r.Key, V: absint.BVal(r.Set)})
	}
	total = total.AndNot(s.Const(n.omit))
	if len(regs) > 0 {
		o.Ent = append(o.Ent, absint.MapEnt{K: absint.VNil{}, V: absint.BVal(total)})
	}
	return s.New(o), total
}

func (n *names) bitName(m uint32) string {
	switch m {
	case n.create:
		return "Create"
	case n.remove:
		return "Remove"
	case n.write:
		return "Write"
	case n.rename:
		return "Rename"
	case n.recursive:
		return "recursive"
	case n.omit:
		return "omit"
	case n.internal:
		return "recursive|omit"
	}
	return fmt.Sprintf("%#x", m)
}

// entry reads wp[k] as (set, present).
func entry(s *absint.State, obj int, k absint.Val) (absint.BV, bool) {
	v, ok := s.MapGet(obj, k)
	if !ok {
		return s.Const(0), false
	}
	return s.BVOf(v), true
}

func init() { register("C08", checkAlgebra) }

// checkAlgebra decides the registration algebra: what adding and removing a
// set does to every registration of a watchpoint, to its total and to the
// reported change, for all sets at once.
func checkAlgebra(c *Ctx) {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	c.R.Cov["explanation"] = "Abstract interpretation of the watchpoint operations over the Boolean-function domain (every event set is a symbolic set variable; results hold for all 2^32 values of each), for a watchpoint that holds any combination of the operated channel and up to two others."
	for _, op := range []string{"Add", "Del"} {
		fn := method(p, n.watchpoint, op)
		if fn == nil {
			c.Fail("resolve", "watchpoint."+op, "", "method not found")
			continue
		}
		if fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 {
			c.Fail("resolve", "watchpoint."+op, PosOf(p, fn), "unexpected signature")
			continue
		}
		for mask := 0; mask < 8; mask++ {
			op, mask := op, mask
			name := fmt.Sprintf("%s on {c:%v d:%v d2:%v}", op, mask&1 != 0, mask&2 != 0, mask&4 != 0)
			ends := 0
			c.Scenario(p, name, []uint32{n.recursive, n.omit}, func(m *absint.Machine, s *absint.State) {
				m.BitName = n.bitName
				ends = 0
				keys := []absint.Val{s.Opq("c", true, true), s.Opq("d", true, true), s.Opq("d2", true, true)}
				label := []string{"wp[c]", "wp[d]", "wp[d2]"}
				sets := make([]absint.BV, 3)
				var regs []wpVar
				for i := range keys {
					sets[i] = s.Const(0)
					if mask>>uint(i)&1 == 1 {
						sets[i] = s.SetVar(label[i])
						s.AssumeNonzero(sets[i])
						regs = append(regs, wpVar{keys[i], sets[i]})
					}
				}
				obj, total := newWP(s, n, regs)
				e := s.SetVar("e")
				s.AssumeNonzero(e)
				omit := s.Const(n.omit)
				var want [3]absint.BV
				copy(want[:], sets)
				if op == "Add" {
					want[0] = sets[0].Or(e)
				} else {
					want[0] = sets[0].AndNot(e)
				}
				newTotal := want[0].Or(want[1]).Or(want[2]).AndNot(omit)
				s.Ghost["wp"] = absint.VMap{Obj: obj}
				for i := range want {
					s.Ghost[fmt.Sprint("want", i)] = absint.BVal(want[i])
					s.Ghost[fmt.Sprint("key", i)] = keys[i]
				}
				s.Ghost["newTotal"], s.Ghost["total"] = absint.BVal(newTotal), absint.BVal(total)
				fail := func(s *absint.State, rule, format string, a ...interface{}) {
					c.FailTrace(rule, "watchpoint."+op, PosOf(p, fn), append([]string{"scenario: " + name}, s.Trace...), format, a...)
				}
				m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
					fail(s, "algebra/panic", "%s can panic: %s", op, why)
				}
				m.H.Return = func(m *absint.Machine, s *absint.State, res []absint.Val) {
					ends++
					c.Oblige(6)
					var want [3]absint.BV
					for i := range want {
						want[i] = s.BVOf(s.Ghost[fmt.Sprint("want", i)])
					}
					newTotal, total := s.BVOf(s.Ghost["newTotal"]), s.BVOf(s.Ghost["total"])
					internal := s.Const(n.internal)
					for i := range keys {
						got, present := entry(s, obj, keys[i])
						if !s.SameSet(got, want[i]) {
							fail(s, "algebra/entry", "after %s, %s differs from the expected set in %s", op, label[i], s.Describe(got.Xor(want[i])))
						}
						if present && !s.IsNonzero(got) && op == "Del" {
							fail(s, "algebra/empty-entry", "after %s, an empty registration %s may remain", op, label[i])
						}
					}
					got, present := entry(s, obj, absint.VNil{})
					if !s.SameSet(got, newTotal) {
						fail(s, "algebra/total", "after %s, the total differs from the union of the registrations in %s", op, s.Describe(got.Xor(newTotal)))
					}
					if present {
						live := false
						for i := range keys {
							if _, ok := entry(s, obj, keys[i]); ok {
								live = true
							}
						}
						if !live {
							fail(s, "algebra/dangling-total", "after %s, a total remains although no channel is registered", op)
						}
					}
					st, ok := res[0].(absint.VStruct)
					if !ok || len(st.F) != 2 {
						fail(s, "algebra/diff", "the change is not a pair of sets")
						return
					}
					d0, d1 := s.BVOf(st.F[0]), s.BVOf(st.F[1])
					w0, w1 := total.AndNot(internal), newTotal.AndNot(internal)
					isNone := s.IsZero(d0) && s.IsZero(d1)
					if isNone {
						if !s.SameSet(w0, w1) {
							fail(s, "algebra/diff", "%s reports no change although the total may change in %s", op, s.Describe(w0.Xor(w1)))
						}
						return
					}
					if !s.SameSet(d0, w0) {
						fail(s, "algebra/diff", "%s reports an old total that differs from the real one in %s", op, s.Describe(d0.Xor(w0)))
					}
					if !s.SameSet(d1, w1) {
						fail(s, "algebra/diff", "%s reports a new total that differs from the real one in %s", op, s.Describe(d1.Xor(w1)))
					}
					if s.SameSet(w0, w1) && !isNone {
						fail(s, "algebra/diff", "%s reports a change although the total stays the same", op)
					}
				}
				m.Push(s, fn, []absint.Val{absint.VMap{Obj: obj}, keys[0], absint.BVal(e)}, nil, nil, nil)
				m.Run(s)
			})
			if ends == 0 {
				c.Fail("algebra/vacuous", "watchpoint."+op, PosOf(p, fn), "no path of %s returns", name)
			}
			c.Count("scenarios", 1)
			c.Sample("%s: %d return states checked for every value of e and of the registered sets", name, ends)
		}
	}
}
