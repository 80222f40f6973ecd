package checks

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
)

func init() { register("C07", func(c *Ctx) { c.filter(false) }) }

var label3 = []string{"c", "d", "bookkeeping"}

// filter decides which registered channels an event dispatched to a
// watchpoint is offered to.
// With drops, only what becomes of the other channels when one cannot take
// the event is judged.
func (c *Ctx) filter(drops bool) {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	if !drops {
		c.R.Cov["explanation"] = "Abstract interpretation of the dispatch of one event to a watchpoint, over the Boolean-function domain: event, extra bits and every registered set are symbolic set variables. A channel must be offered the event exactly when its set is free of the internal omit bit and includes every bit of the event and of the extra bits; exactly once; and through a non-waiting send."
	}
	fn := method(p, n.watchpoint, "Dispatch")
	if fn == nil || fn.Signature.Params().Len() != 2 {
		c.Fail("resolve", "watchpoint.Dispatch", "", "method not found, or its signature changed")
		return
	}
	for mask := 0; mask < 16; mask++ {
		for _, extra := range []uint32{0, n.recursive} {
			mask, extra := mask, extra
			name := fmt.Sprintf("Dispatch(event, %s) on {c:%v d:%v bookkeeping:%v stale total:%v}", n.bitName(extra), mask&1 != 0, mask&2 != 0, mask&4 != 0, mask&8 != 0)
			if mask&8 != 0 && mask&7 != 0 {
				continue
			}
			ends := 0
			fail := func(s *absint.State, rule, format string, a ...interface{}) {
				if drops {
					switch rule {
					case "filter/missed":
						n := int64(0)
						for i := range label3 {
							k, _ := absint.LinOf(s.Ghost["n"+label3[i]])
							n += k.C
						}
						if n == 0 {
							return
						}
						rule = "send/stops"
					case "filter/blocking":
						rule = "send/blocks"
					default:
						return
					}
				}
				c.FailTrace(rule, "watchpoint.Dispatch", PosOf(p, fn), append([]string{"scenario: " + name}, s.Trace...), format, a...)
			}
			c.Scenario(p, name, []uint32{n.recursive, n.omit}, func(m *absint.Machine, s *absint.State) {
				m.BitName = n.bitName
				ends = 0
				keys := []absint.Val{s.Opq("c", true, true), s.Opq("d", true, true), s.Opq("bookkeeping", true, true)}
				label := label3
				omit, rec := s.Const(n.omit), s.Const(n.recursive)
				var regs []wpVar
				for i := range keys {
					set := s.Const(0)
					if mask>>uint(i)&1 == 1 {
						set = s.SetVar("wp[" + label[i] + "]")
						s.AssumeNonzero(set)
						if i == 2 {
							s.AssumeSub(s.Const(n.internal|n.create), set)
						} else {
							s.AssumeZero(set.And(omit))
						}
						regs = append(regs, wpVar{keys[i], set})
					}
					s.Ghost["set"+label[i]] = absint.BVal(set)
					s.Ghost["key"+label[i]] = keys[i]
					s.Ghost["n"+label[i]] = absint.Num(0)
				}
				obj, _ := newWP(s, n, regs)
				if mask&8 != 0 {
					s.MapSet(obj, absint.VNil{}, absint.BVal(s.Const(0)))
				}
				ev := s.SetVar("event")
				s.AssumeNonzero(ev)
				s.AssumeZero(ev.And(omit.Or(rec)))
				s.Ghost["event"] = absint.BVal(ev)
				ei := s.Opq("ei", true, true)
				s.Ghost["ei"] = ei
				path := absint.VStr{T: s.Sym("path")}
				m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
					if ci.Method != nil && absint.Key(ci.Recv) == absint.Key(s.Ghost["ei"]) {
						switch ci.Method.Name() {
						case "Event":
							return []absint.Outcome{{S: s, V: s.Ghost["event"]}}, true
						case "Path":
							return []absint.Outcome{{S: s, V: path}}, true
						}
					}
					return nil, false
				}
				m.H.Offer = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch, v absint.Val, blocking bool) {
					if blocking {
						fail(s, "filter/blocking", "the event is sent with a send that waits for the receiver")
					}
					if absint.Key(v) != absint.Key(s.Ghost["ei"]) {
						fail(s, "filter/payload", "something other than the dispatched event is sent")
					}
					for i := range label {
						if absint.Key(ch) == absint.Key(s.Ghost["key"+label[i]]) {
							k, _ := absint.LinOf(s.Ghost["n"+label[i]])
							if k.C > 0 {
								fail(s, "filter/twice", "the event is offered twice to %s", label[i])
								return
							}
							s.Ghost["n"+label[i]] = absint.Num(k.C + 1)
							return
						}
					}
					fail(s, "filter/stranger", "the event is sent to a channel that is not registered: %s", absint.Show(ch))
				}
				m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
					fail(s, "filter/panic", "Dispatch can panic: %s", why)
				}
				m.H.Return = func(m *absint.Machine, s *absint.State, res []absint.Val) {
					ends++
					e := s.BVOf(s.Ghost["event"]).Or(s.Const(extra))
					for i := range label {
						c.Oblige(1)
						set := s.BVOf(s.Ghost["set"+label[i]])
						k, _ := absint.LinOf(s.Ghost["n"+label[i]])
						omit := s.Const(n.omit)
						// the event must be offered iff e is a subset and set has no omit
						if k.C > 0 {
							if !s.SubSet(e, set) {
								fail(s, "filter/unwanted", "%s is offered an event it did not ask for (not registered: %s)", label[i], s.Describe(e.AndNot(set)))
							}
							if !s.IsZero(set.And(omit)) {
								fail(s, "filter/unwanted", "%s is offered the event although its registration is internal", label[i])
							}
						} else if !s.IsNonzero(e.AndNot(set).Or(set.And(omit))) {
							fail(s, "filter/missed", "%s is not offered an event although it may have asked for it", label[i])
						}
					}
				}
				m.Push(s, fn, []absint.Val{absint.VMap{Obj: obj}, ei, absint.BVal(s.Const(extra))}, nil, nil, nil)
				m.Run(s)
			})
			if ends == 0 {
				c.Fail("filter/vacuous", "watchpoint.Dispatch", PosOf(p, fn), "no path of %s returns", name)
			}
			c.Count("scenarios", 1)
			c.Sample("%s: %d return states checked", name, ends)
		}
	}
}
