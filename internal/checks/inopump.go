package checks

import (
	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
)

// inotifyPump runs the goroutines of the Linux watcher through everything the
// kernel may answer while the watcher is in use - an interrupted wait, a
// read that fails, a read of nothing - and requires each to go on: the reader
// waits again, a consumer receives again.
func (c *Ctx) inotifyPump() {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	consts := []uint32{n.recursive, n.omit, n.create, n.remove, n.write, n.rename, 0xfff}
	name := "a watcher in use: interrupted waits, failing and empty reads"
	reads, recvs := 0, 0
	c.Scenario(p, name, consts, func(m *absint.Machine, s *absint.State) {
		reads, recvs = 0, 0
		m.BitName = n.bitName
		fail := c.filtered([]string{"pump"}, name)
		k := &inoKernel{p: p}
		fdTrack(p, k, c, fail)
		step := func(s *absint.State) int64 { v, _ := constOr0(s, "pstep"); return v }
		k.wait = func(m *absint.Machine, s *absint.State, ev absint.Val) []absint.Outcome {
			st := step(s)
			s.Ghost["pstep"] = absint.Num(st + 1)
			c.Oblige(1)
			if s.Ghost["probe"] == nil || st == 6 {
				if st == 6 {
					reads++
				}
				s.Kill()
				return nil
			}
			if st == 0 || st == 3 {
				s.Note("the wait is interrupted")
				s.Ghost["at"] = absint.Str("an interrupted wait")
				return []absint.Outcome{{S: s, V: tuple(absint.Num(-1), errno(p, eINTR))}}
			}
			if !epollReady(p, s, ev, fdInotify) {
				fail(s, "pump/blind", "reader", "the reader never learns of changes: the inotify descriptor is not registered with epoll")
				s.Kill()
				return nil
			}
			return []absint.Outcome{{S: s, V: tuple(absint.Num(1), absint.VNil{})}}
		}
		k.read = func(m *absint.Machine, s *absint.State, buf absint.Val) []absint.Outcome {
			c.Oblige(1)
			if st := step(s); st%2 == 0 {
				s.Note("the read fails")
				s.Ghost["at"] = absint.Str("a read that fails")
				return []absint.Outcome{{S: s, V: tuple(absint.Num(-1), anyErrno(p, s, "Read"))}}
			}
			s.Note("the read gives nothing")
			s.Ghost["at"] = absint.Str("a read that gives nothing")
			return []absint.Outcome{{S: s, V: tuple(absint.Num(0), absint.VNil{})}}
		}
		m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
			if o, ok := waitGroup(s, ci); ok {
				return o, ok
			}
			if o, ok := finalizer(s, ci); ok {
				return o, ok
			}
			return k.hook(m, s, ci)
		}
		m.H.Go = noteGo
		m.H.Recv = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch absint.Val, commaOk bool) ([]absint.Outcome, bool) {
			if s.Ghost["probe"] == nil {
				s.Kill()
				return nil, true
			}
			c.Oblige(1)
			r, _ := constOr0(s, "received")
			s.Ghost["received"] = absint.Num(r + 1)
			if r == 2 {
				recvs++
				s.Kill()
				return nil, true
			}
			s.Note("a batch of no events arrives")
			s.Ghost["at"] = absint.Str("a batch of no events")
			var v absint.Val = absint.VNil{}
			if commaOk {
				v = tuple(absint.VNil{}, absint.BoolOf(true))
			}
			return []absint.Outcome{{S: s, V: v}}, true
		}
		m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
			fail(s, "pump/panic", "reader", "a goroutine of the watcher can panic: %s", why)
		}
		for _, o := range c.inoNew(p, m, s, s.Opq("events", true, true)) {
			for _, w := range m.CallMethod(o.S, o.V, "Watch", absint.VStr{T: o.S.Sym("path")}, absint.BVal(o.S.Const(n.write))) {
				if _, ok := w.V.(absint.VNil); !ok {
					continue
				}
				for _, g := range goList(w.S) {
					x := w.S.Clone()
					x.Ghost["probe"] = absint.BoolOf(true)
					for _, y := range m.EvalVal(x, g.fn, g.args) {
						at := y.S.Ghost["at"]
						if at == nil {
							continue
						}
						fail(y.S, "pump/ends", "reader", "a goroutine of the watcher ends after %s, while the watcher is in use", at.(absint.VStr).T.S)
					}
				}
			}
		}
	})
	if reads == 0 {
		c.Fail("pump/vacuous", "reader", "", "no goroutine gets through the answers of the kernel")
	}
	c.Count("scenarios", 1)
	c.Sample("%s: the reader goes on on %d paths, consumers on %d", name, reads, recvs)
}
