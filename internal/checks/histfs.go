package checks

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
)

// The file system of a history changes by
//
//	+ /a/n /a/n/m   mkdir /a/n /a/n/m, before anyone looks
//	- /a/b          rm -r /a/b
//
// The kernel reports a change of a directory that is watched for it, and
// drops the watch of a directory that is removed. What it reports runs through
// the goroutine that dispatches events and the one that follows directories.

func (h *histH) dirs(s *absint.State) (r []string) {
	if v, ok := s.Ghost["fs"]; ok {
		return strings.Split(v.(absint.VStr).T.S, "\n")
	}
	for d := range histDirs {
		r = append(r, d)
	}
	sort.Strings(r)
	return
}

func (h *histH) isdir(s *absint.State, p string) bool {
	for _, d := range h.dirs(s) {
		if d == p {
			return true
		}
	}
	return false
}

func (h *histH) subdirs(s *absint.State, p string) (r []string) {
	for _, d := range h.dirs(s) {
		if path.Dir(d) == p {
			r = append(r, path.Base(d))
		}
	}
	return
}

// alive is the set of events the kernel reports for p.
func (h *histH) alive(s *absint.State, p string) absint.BV {
	if s.Ghost["gone:"+p] != nil {
		return s.Const(0)
	}
	return h.k(s, p)
}

type fsEvent struct {
	bit uint32
	p   string
}

// change runs one change of the file system.
func (h *histH) change(s *absint.State, op string, f func(s *absint.State, evs []fsEvent)) {
	args := strings.Fields(op)[1:]
	var bit uint32
	var paths []string
	if op[0] == '+' {
		bit, paths = h.n.create, args
		if h.isdir(s, args[0]) || !h.isdir(s, path.Dir(args[0])) {
			return // there is no such history
		}
	} else {
		bit = h.n.remove
		if !h.isdir(s, args[0]) {
			return
		}
		for _, d := range h.dirs(s) {
			if within(d, args[0]) {
				paths = append(paths, d)
			}
		}
		sort.Sort(sort.Reverse(sort.StringSlice(paths)))
	}
	var step func(s *absint.State, i int, evs []fsEvent)
	step = func(s *absint.State, i int, evs []fsEvent) {
		if i == len(paths) {
			f(s, evs)
			return
		}
		p := paths[i]
		split(s, func(s *absint.State) absint.BV { return h.alive(s, path.Dir(p)) }, []uint32{bit}, func(s *absint.State, has map[uint32]bool) {
			evs := evs[:len(evs):len(evs)]
			if has[bit] {
				evs = append(evs, fsEvent{bit, p})
			}
			var l []string
			for _, d := range h.dirs(s) {
				if d != p {
					l = append(l, d)
				}
			}
			if bit == h.n.create {
				l = append(l, p)
			} else if !s.IsZero(h.k(s, p)) {
				s.Ghost["gone:"+p] = absint.BoolOf(true)
			}
			sort.Strings(l)
			s.Ghost["fs"] = absint.Str(strings.Join(l, "\n"))
			step(s, i+1, evs)
		})
	}
	step(s, 0, nil)
}

// pump runs a goroutine of the tree that receives from a channel until it has
// dealt with one value and waits for the next.
func (h *histH) pump(m *absint.Machine, s *absint.State, from string) (got []*absint.State) {
	m.H.Recv = func(m *absint.Machine, s *absint.State, in ssa.Instruction, c absint.Val, commaOk bool) ([]absint.Outcome, bool) {
		switch {
		case absint.Key(c) != absint.Key(s.Ghost[from]):
		case s.Ghost["got"] == nil:
			s.Ghost["got"] = absint.BoolOf(true)
			v := s.Ghost["ei"]
			if commaOk {
				v = tuple(v, absint.BoolOf(true))
			}
			return []absint.Outcome{{S: s, V: v}}, true
		default:
			x := s.Clone()
			delete(x.Ghost, "got")
			got = append(got, x)
		}
		s.Kill()
		return nil, true
	}
	defer func() { m.H.Recv = nil }()
	for _, g := range goList(s) {
		x := s.Clone()
		m.EvalVal(x, g.fn, g.args)
	}
	return got
}

// deliver runs one event of the kernel through the tree.
func (h *histH) deliver(m *absint.Machine, s *absint.State, ev fsEvent) (r []*absint.State) {
	s.Ghost["event"], s.Ghost["evpath"], s.Ghost["ei"] = absint.BVal(s.Const(ev.bit)), absint.Str(ev.p), s.Opq("ei", true, true)
	s.Ghost["isdir"] = absint.BoolOf(true)
	delete(s.Ghost, "handed")
	m.H.Offer = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch, v absint.Val, blocking bool) {
		if absint.Key(ch) == absint.Key(s.Ghost["rec"]) {
			n, _ := constOr0(s, "handed")
			s.Ghost["handed"] = absint.Num(n + 1)
		}
	}
	defer func() { m.H.Offer = nil }()
	n := len(goList(s))
	for _, y := range h.pump(m, s, "events") {
		gs := goList(y)[n:]
		for i := range gs {
			delete(y.Ghost, fmt.Sprint("go", n+i))
		}
		ends := []*absint.State{y}
		for _, g := range gs {
			var nx []*absint.State
			for _, e := range ends {
				for _, o := range m.EvalVal(e, g.fn, g.args) {
					nx = append(nx, o.S)
				}
			}
			ends = nx
		}
		for _, e := range ends {
			k, _ := constOr0(e, "handed")
			sts := []*absint.State{e}
			for ; k > 0; k-- {
				var nx []*absint.State
				for _, z := range sts {
					nx = append(nx, h.pump(m, z, "rec")...)
				}
				sts = nx
			}
			for _, z := range sts {
				for _, g := range []string{"event", "evpath", "ei", "isdir", "handed"} {
					delete(z.Ghost, g)
				}
				r = append(r, z)
			}
		}
	}
	return r
}

// fsOp is the step of a history that changes the file system.
func (h *histH) fsOp(m *absint.Machine, s *absint.State, t absint.VIface, past []string, next func(past []string) []string) {
	op := past[len(past)-1]
	cons := strings.Join(past, "; ")
	h.change(s, op, func(s *absint.State, evs []fsEvent) {
		sts := []*absint.State{s}
		for _, ev := range evs {
			if ev.bit == h.n.remove {
				for _, x := range sts {
					for _, r := range h.regs(x) {
						if within(r.path, ev.p) {
							delete(x.Ghost, "reg:"+r.path+":"+r.ch)
							delete(x.Ghost, "rec:"+r.path+":"+r.ch)
						}
					}
				}
			}
			var nx []*absint.State
			for _, x := range sts {
				nx = append(nx, h.deliver(m, x, ev)...)
			}
			sts = nx
		}
		for _, x := range sts {
			// Nobody says what becomes of the registration for a directory
			// which was removed without a notice.
			for _, r := range h.regs(x) {
				if !h.isdir(x, r.path) {
					x.Kill()
				}
			}
			if x.Dead() {
				continue
			}
			h.ends++
			h.cons = cons
			n1 := h.nfail
			h.check(x, cons)
			if h.nfail == n1 {
				h.run(m, x, t, past, next)
			}
		}
	})
}
