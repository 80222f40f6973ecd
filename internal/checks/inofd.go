package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
	"notifysa/internal/load"
)

func init() {
	register("C14", func(c *Ctx) {
		c.R.Cov["explanation"] = "Abstract interpretation of set-up, Watch, the reader and consumer goroutines and Close of the Linux watcher against a model of the system calls in which every call may fail; typestate of every descriptor (opened, registered, closed) along every path."
		c.inotifyLife("fd")
	})
	register("C23", func(c *Ctx) {
		c.R.Cov["explanation"] = "Abstract interpretation of Watch, Rewatch and Unwatch of the Linux watcher against a model of the system calls in which every call may fail; the returned error and the table of watched paths are compared with what the system calls answered."
		c.inotifyLife("err")
		c.inotifyErrors()
	})
}

// filter keeps the findings of some rule groups.
func (c *Ctx) filtered(groups []string, name string) func(s *absint.State, rule, construct, format string, a ...interface{}) {
	return func(s *absint.State, rule, construct, format string, a ...interface{}) {
		for _, g := range groups {
			if strings.HasPrefix(rule, g+"/") {
				c.FailTrace(rule, construct, s.Where(), append([]string{"scenario: " + name}, s.Trace...), format, a...)
				return
			}
		}
	}
}

var inoFds = []int64{fdInotify, fdEpoll, fdPipeR, fdPipeW}

func fdName(fd int64) string {
	switch fd {
	case fdInotify:
		return "the inotify descriptor"
	case fdEpoll:
		return "the epoll descriptor"
	case fdPipeR:
		return "the pipe's read end"
	case fdPipeW:
		return "the pipe's write end"
	}
	return fmt.Sprintf("descriptor %d", fd)
}

func openKey(fd int64) string { return fmt.Sprint("open", fd) }

func isOpen(s *absint.State, fd int64) bool { return s.Ghost[openKey(fd)] != nil }

func anyOpen(s *absint.State) string {
	var r []string
	for _, fd := range inoFds {
		if isOpen(s, fd) {
			r = append(r, fdName(fd))
		}
	}
	return strings.Join(r, ", ")
}

type failFn func(s *absint.State, rule, construct, format string, a ...interface{})

// fdTrack gives the typestate transitions of the descriptors.
func fdTrack(p *load.Program, k *inoKernel, c *Ctx, fail failFn) {
	use := func(s *absint.State, name string, v absint.Val) bool {
		c.Oblige(1)
		fd, ok := constArg(v)
		if !ok {
			return true
		}
		if fd == -1 && s.Ghost["finalizing"] != nil {
			return true // closing no descriptor is harmless
		}
		if !isOpen(s, fd) {
			fail(s, "fd/use", name, "%s uses %s, which is not open", name, fdName(fd))
			s.Kill()
			return false
		}
		return true
	}
	open := func(fds ...int64) func(n *absint.State) {
		return func(n *absint.State) {
			for _, fd := range fds {
				if isOpen(n, fd) {
					fail(n, "fd/leak", fdName(fd), "%s is opened again while it is open", fdName(fd))
				}
				n.Ghost[openKey(fd)] = absint.BoolOf(true)
			}
		}
	}
	k.call = func(s *absint.State, ci *absint.CallInfo, name string, args []absint.Val) {
		switch name {
		case "InotifyAddWatch", "InotifyRmWatch", "Read", "Write":
			use(s, name, args[0])
		case "EpollWait":
			use(s, name, args[0])
		case "EpollCtl":
			if use(s, name, args[0]) {
				use(s, name, args[2])
			}
		case "Close":
			use(s, name, args[0])
		}
	}
	k.done = func(s *absint.State, ci *absint.CallInfo, name string, args []absint.Val) {
		switch name {
		case "InotifyInit", "InotifyInit1":
			open(fdInotify)(s)
		case "EpollCreate", "EpollCreate1":
			open(fdEpoll)(s)
		case "Pipe", "Pipe2":
			open(fdPipeR, fdPipeW)(s)
		case "EpollCtl":
			if fd, ok := constArg(args[2]); ok {
				ev, _ := s.LoadPtr(args[3])
				if op, _ := constArg(args[1]); op == 1 && ev != nil {
					s.Ghost[fmt.Sprint("epdata", fd)] = ev
				}
			}
		case "Close":
			if fd, ok := constArg(args[0]); ok {
				delete(s.Ghost, openKey(fd))
				delete(s.Ghost, fmt.Sprint("epdata", fd))
			}
		case "Write":
			if fd, ok := constArg(args[0]); ok && fd == fdPipeW {
				s.Ghost["woken"] = absint.BoolOf(true)
			}
		case "InotifyAddWatch":
			if s.Ghost["adds"] == nil {
				s.Ghost["adds"] = absint.Num(0)
			}
		}
	}
}

// waitGroup models sync.WaitGroup counting in the ghost state.
func waitGroup(s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	get := func(k string) int64 {
		if v, ok := s.Ghost[k]; ok {
			x, _ := constArg(v)
			return x
		}
		return 0
	}
	switch ci.Name {
	case "(*sync.WaitGroup).Add":
		n, ok := constArg(ci.Args[1])
		if !ok {
			n = 1000
		}
		s.Ghost["wg.add"] = absint.Num(get("wg.add") + n)
		return []absint.Outcome{{S: s, V: tuple()}}, true
	case "(*sync.WaitGroup).Done":
		s.Ghost["wg.done"] = absint.Num(get("wg.done") + 1)
		return []absint.Outcome{{S: s, V: tuple()}}, true
	case "(*sync.WaitGroup).Wait":
		s.Ghost["wg.wait"] = absint.Num(get("wg.wait") + 1)
		return []absint.Outcome{{S: s, V: tuple()}}, true
	}
	return nil, false
}

// finalizer notes runtime.SetFinalizer.
func finalizer(s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	if ci.Name != "runtime.SetFinalizer" || len(ci.Args) != 2 {
		return nil, false
	}
	strip := func(v absint.Val) absint.Val {
		if i, ok := v.(absint.VIface); ok {
			return i.V
		}
		return v
	}
	delete(s.Ghost, "fin")
	if f, ok := strip(ci.Args[1]).(absint.VFunc); ok {
		s.Ghost["fin"], s.Ghost["finobj"] = f, strip(ci.Args[0])
	}
	return []absint.Outcome{{S: s, V: tuple()}}, true
}

// finalize runs the finalizer of a watcher nothing uses any more: it closes
// what is still open, and nothing that was closed before.
func (c *Ctx) finalize(m *absint.Machine, s *absint.State, when string, fail failFn) {
	if s.Ghost["fin"] == nil {
		return
	}
	x := s.Clone()
	x.Ghost["finalizing"] = absint.BoolOf(true)
	for _, o := range m.EvalVal(x, x.Ghost["fin"], []absint.Val{x.Ghost["finobj"]}) {
		c.Oblige(1)
		if left := anyOpen(o.S); left != "" {
			fail(o.S, "fd/final-leak", when, "after %s and the finalizer, %s stays open", when, left)
		}
	}
}

// epollReady makes EpollWait report the descriptor fd, the way it was registered.
func epollReady(p *load.Program, s *absint.State, ev absint.Val, fd int64) bool {
	d := s.Ghost[fmt.Sprint("epdata", fd)]
	if d == nil {
		return false
	}
	s.SeqStore(ev, 0, d)
	return true
}

// inotifyLife runs the life of the Linux watcher: set-up, use, Close, re-use.
func (c *Ctx) inotifyLife(groups ...string) {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	consts := []uint32{n.recursive, n.omit, n.create, n.remove, n.write, n.rename, 0xfff}
	e := func(s *absint.State) absint.Val { return absint.BVal(s.Const(n.write)) }

	// --- set-up with failures
	ends := 0
	name := "first Watch, any system call failing; then Watch again"
	c.Scenario(p, name, consts, func(m *absint.Machine, s *absint.State) {
		ends = 0
		m.BitName = n.bitName
		fail := c.filtered(groups, name)
		k := &inoKernel{p: p}
		fdTrack(p, k, c, fail)
		k.fail = func(s *absint.State, call string) bool {
			return s.Ghost["failed"] == nil && call != "Close" && call != "InotifyRmWatch" && s.Ghost["second"] == nil
		}
		m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
			if o, ok := waitGroup(s, ci); ok {
				return o, ok
			}
			if o, ok := finalizer(s, ci); ok {
				return o, ok
			}
			return k.hook(m, s, ci)
		}
		m.H.Go = noteGo
		m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
			fail(s, "err/panic", "Watch", "Watch can panic: %s", why)
		}
		path := absint.VStr{T: s.Sym("path")}
		s.Ghost["path"] = path
		for _, o := range c.inoNew(p, m, s, s.Opq("events", true, true)) {
			s.Ghost["w"] = o.V
			for _, w := range m.CallMethod(o.S, o.V, "Watch", path, e(o.S)) {
				ends++
				c.Oblige(4)
				_, nilErr := w.V.(absint.VNil)
				failed := w.S.Ghost["failed"]
				what := ""
				if failed != nil {
					what = failed.(absint.VStr).T.S
				}
				switch {
				case nilErr && failed != nil:
					fail(w.S, "err/swallowed", "Watch: "+what, "Watch returns nil although %s failed", what)
				case !nilErr && failed == nil:
					fail(w.S, "err/spurious", "Watch", "Watch fails although no system call did")
				}
				if failed != nil && what != "InotifyAddWatch" {
					if left := anyOpen(w.S); left != "" {
						fail(w.S, "fd/setup-leak", what, "after %s failed during set-up, Watch leaves %s open", what, left)
					}
					if len(goList(w.S)) != 0 {
						fail(w.S, "fd/setup-goroutine", what, "after %s failed during set-up, goroutines are running", what)
					}
				}
				if failed == nil {
					for _, fd := range inoFds {
						if !isOpen(w.S, fd) {
							fail(w.S, "fd/setup", fdName(fd), "after a successful Watch %s is not open", fdName(fd))
						}
					}
					for _, fd := range []int64{fdInotify, fdPipeR} {
						if w.S.Ghost[fmt.Sprint("epdata", fd)] == nil {
							fail(w.S, "fd/register", fdName(fd), "%s is not registered with epoll", fdName(fd))
						}
					}
				}
				if failed != nil && what != "InotifyAddWatch" {
					c.finalize(m, w.S, "the failure of "+what, fail)
				}
				// try again
				w.S.Ghost["second"] = absint.BoolOf(true)
				delete(w.S.Ghost, "failed")
				g0 := len(goList(w.S))
				for _, x := range m.CallMethod(w.S, o.V, "Watch", path, e(w.S)) {
					c.Oblige(2)
					if _, ok := x.V.(absint.VNil); !ok {
						fail(x.S, "err/retry", "Watch", "Watch fails for good after an earlier failure of %s", what)
						continue
					}
					for _, fd := range inoFds {
						if !isOpen(x.S, fd) {
							fail(x.S, "fd/setup", fdName(fd), "after a second Watch %s is not open", fdName(fd))
						}
					}
					if g0 != 0 && len(goList(x.S)) != g0 {
						fail(x.S, "fd/setup-goroutine", "Watch", "a second Watch starts the goroutines again")
					}
				}
			}
		}
	})
	if ends == 0 {
		c.Fail("fd/vacuous", "Watch", "", "no path of %q returns", name)
	}
	c.Count("scenarios", 1)
	c.Sample("%s: %d end states", name, ends)

	// --- Close
	for _, use := range []int{0, 1, 2} {
		use := use
		name := fmt.Sprintf("%d watches, then Close, goroutines to their end, then Watch again", use)
		ends := 0
		c.Scenario(p, name, consts, func(m *absint.Machine, s *absint.State) {
			ends = 0
			m.BitName = n.bitName
			fail := c.filtered(groups, name)
			k := &inoKernel{p: p}
			fdTrack(p, k, c, fail)
			stage := func(s *absint.State) string {
				if v, ok := s.Ghost["stage"]; ok {
					return v.(absint.VStr).T.S
				}
				return ""
			}
			k.fail = func(s *absint.State, call string) bool {
				return stage(s) == "close" && call == "InotifyRmWatch" && s.Ghost["failed"] == nil
			}
			k.wd = func(s *absint.State, path absint.Val) int64 {
				if absint.Key(path) == absint.Key(s.Ghost["path1"]) {
					return 2
				}
				return 1
			}
			k.wait = func(m *absint.Machine, s *absint.State, ev absint.Val) []absint.Outcome {
				switch stage(s) {
				case "probe":
					s.Ghost["stage"] = absint.Str("loop")
					// first an interruption, then the wake-up
					return []absint.Outcome{{S: s, V: tuple(absint.Num(-1), errno(p, eINTR))}}
				case "loop":
					if s.Ghost["pipeseen"] != nil {
						fail(s, "down/reader", "reader", "the reader goes on waiting after the wake-up by Close")
						s.Kill()
						return nil
					}
					s.Ghost["pipeseen"] = absint.BoolOf(true)
					if !epollReady(p, s, ev, fdPipeR) {
						fail(s, "down/reader", "reader", "the wake-up cannot reach the reader: the pipe is not registered with epoll")
						s.Kill()
						return nil
					}
					return []absint.Outcome{{S: s, V: tuple(absint.Num(1), absint.VNil{})}}
				}
				s.Kill()
				return nil
			}
			m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
				if o, ok := waitGroup(s, ci); ok {
					return o, ok
				}
				if o, ok := finalizer(s, ci); ok {
					return o, ok
				}
				return k.hook(m, s, ci)
			}
			m.H.Go = noteGo
			m.H.Close = func(m *absint.Machine, s *absint.State, ch absint.Val) {
				key := "closed:" + absint.Key(ch)
				if s.Ghost[key] != nil {
					fail(s, "down/close-twice", "channel", "a channel is closed twice")
				}
				s.Ghost[key] = ch
			}
			m.H.Offer = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch, v absint.Val, blocking bool) {
				if s.Ghost["closed:"+absint.Key(ch)] != nil {
					fail(s, "down/send-closed", "channel", "a send on a closed channel")
				}
			}
			m.H.Recv = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch absint.Val, commaOk bool) ([]absint.Outcome, bool) {
				if stage(s) == "consumer" {
					if s.Ghost["closed:"+absint.Key(ch)] == nil {
						fail(s, "down/consumer", "consumer", "a consumer waits on a channel that is not closed when the reader ends")
						s.Kill()
						return nil, true
					}
					var v absint.Val = absint.VNil{}
					if commaOk {
						v = tuple(absint.VNil{}, absint.BoolOf(false))
					}
					return []absint.Outcome{{S: s, V: v}}, true
				}
				s.Kill()
				return nil, true
			}
			m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
				fail(s, "fd/panic", "Close", "shutting down can panic: %s", why)
			}
			for i := 0; i < 2; i++ {
				s.Ghost[fmt.Sprint("path", i)] = absint.VStr{T: s.Sym(fmt.Sprint("path", i))}
			}
			for _, o := range c.inoNew(p, m, s, s.Opq("events", true, true)) {
				sts := []*absint.State{o.S}
				for i := 0; i < use; i++ {
					var nx []*absint.State
					for _, st := range sts {
						for _, w := range m.CallMethod(st, o.V, "Watch", st.Ghost[fmt.Sprint("path", i)], e(st)) {
							nx = append(nx, w.S)
						}
					}
					sts = nx
				}
				for _, st := range sts {
					st.Ghost["stage"] = absint.Str("close")
					delete(st.Ghost, "failed")
					for _, w := range m.CallMethod(st, o.V, "Close") {
						c.Oblige(4)
						_, nilErr := w.V.(absint.VNil)
						if w.S.Ghost["failed"] != nil && nilErr {
							fail(w.S, "err/swallowed", "Close", "Close returns nil although %s failed", absint.Show(w.S.Ghost["failed"]))
						}
						if w.S.Ghost["failed"] == nil && !nilErr {
							fail(w.S, "err/spurious", "Close", "Close fails although nothing else did")
						}
						if use == 0 {
							ends++
							c.finalize(m, w.S, "Close", fail)
							continue
						}
						if w.S.Ghost["woken"] == nil {
							fail(w.S, "down/wake", "Close", "Close does not wake the reader up")
							continue
						}
						if w.S.Ghost["wg.wait"] == nil {
							fail(w.S, "down/wait", "Close", "Close does not wait for the goroutines")
						}
						adds, _ := constOr0(w.S, "wg.add") // what Close waits for
						gs := goList(w.S)
						w.S.Ghost["ngo"] = absint.Num(int64(len(gs)))
						loops := 0
						for i, g := range gs {
							x := w.S.Clone()
							x.Ghost["stage"] = absint.Str("probe")
							delete(x.Ghost, "pipeseen")
							m.H.Return = nil
							for _, y := range m.EvalVal(x, g.fn, g.args) {
								if stage(y.S) != "loop" {
									continue
								}
								loops++
								ends++
								c.Oblige(6)
								if left := anyOpen(y.S); left != "" {
									fail(y.S, "fd/close-leak", "Close", "after Close and the end of the reader, %s stays open", left)
								}
								// consumers
								y.S.Ghost["stage"] = absint.Str("consumer")
								z := y.S
								okc := true
								for j, h := range gs {
									if j == i {
										continue
									}
									outs := m.EvalVal(z, h.fn, h.args)
									if len(outs) == 0 {
										okc = false
										fail(z, "down/consumer", "consumer", "a consumer does not end when the reader closes its channel")
										break
									}
									z = outs[0].S
								}
								if okc {
									d, _ := constOr0(z, "wg.done")
									if adds != d {
										fail(z, "down/waitgroup", "Close", "Close waits for %d completions, the goroutines signal %d", adds, d)
									}
								}
								c.finalize(m, z, "Close", fail)
								// start over
								z.Ghost["stage"] = absint.Str("again")
								for _, q := range m.CallMethod(z, o.V, "Watch", z.Ghost["path0"], e(z)) {
									if _, ok := q.V.(absint.VNil); !ok {
										continue
									}
									for _, fd := range inoFds {
										if !isOpen(q.S, fd) {
											fail(q.S, "fd/reopen", fdName(fd), "a Watch after Close does not open %s again", fdName(fd))
										}
									}
								}
							}
						}
						if loops == 0 {
							fail(w.S, "down/reader", "reader", "the reader does not end after Close")
						}
					}
				}
			}
		})
		if ends == 0 {
			c.Fail("fd/vacuous", "Close", "", "no path of %q gets to the end", name)
		}
		c.Count("scenarios", 1)
		c.Sample("%s: %d end states", name, ends)
	}
}

func constOr0(s *absint.State, k string) (int64, bool) {
	if v, ok := s.Ghost[k]; ok {
		return constArg(v)
	}
	return 0, true
}

// tables snapshots the maps of the watcher.
func tables(s *absint.State, w absint.Val) string {
	i, ok := w.(absint.VIface)
	if !ok {
		return "?"
	}
	v, ok := s.LoadPtr(i.V)
	st, ok2 := v.(absint.VStruct)
	if !ok || !ok2 {
		return "?"
	}
	var r []string
	for _, f := range st.F {
		if mv, ok := f.(absint.VMap); ok {
			r = append(r, s.MapDump(mv.Obj))
		}
	}
	return strings.Join(r, " ")
}

// inotifyErrors decides what Watch, Rewatch and Unwatch return and record.
func (c *Ctx) inotifyErrors() {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	consts := []uint32{n.recursive, n.omit, n.create, n.remove, n.write, n.rename, 0xfff}
	type step struct {
		op   string
		path string
		ev   uint32
		wd   int64
	}
	scen := []struct {
		name  string
		setup []step
		op    step
	}{
		{"Watch of a second path", []step{{"Watch", "a", n.write, 1}}, step{"Watch", "b", n.create, 2}},
		{"Rewatch of a watched path", []step{{"Watch", "a", n.write, 1}}, step{"Rewatch", "a", n.create, 1}},
		{"Unwatch of one of two paths", []step{{"Watch", "a", n.write, 1}, {"Watch", "b", n.write, 2}}, step{"Unwatch", "a", 0, 1}},
		{"Unwatch of an unknown path", []step{{"Watch", "a", n.write, 1}}, step{"Unwatch", "b", 0, 0}},
		{"Unwatch of a path that was re-created", []step{{"Watch", "a", n.write, 1}, {"Rewatch", "a", n.write | n.create, 2}}, step{"Unwatch", "a", 0, 2}},
		{"Watch of a renamed directory under its new name", []step{{"Watch", "a", n.write, 1}}, step{"Watch", "b", n.write, 1}},
	}
	for _, sc := range scen {
		sc := sc
		ends := 0
		c.Scenario(p, sc.name, consts, func(m *absint.Machine, s *absint.State) {
			ends = 0
			m.BitName = n.bitName
			fail := c.pipeFail(sc.name)
			k := &inoKernel{p: p}
			wd := int64(1)
			k.wd = func(s *absint.State, path absint.Val) int64 { return wd }
			k.fail = func(s *absint.State, call string) bool {
				return s.Ghost["test"] != nil && s.Ghost["failed"] == nil
			}
			k.done = func(s *absint.State, ci *absint.CallInfo, name string, args []absint.Val) {
				if name == "InotifyRmWatch" && s.Ghost["test"] != nil {
					if x, ok := constArg(args[1]); ok {
						s.Ghost[fmt.Sprint("rm", x)] = absint.BoolOf(true)
					}
				}
				if name == "InotifyAddWatch" && s.Ghost["test"] != nil {
					s.Ghost["added"] = absint.BoolOf(true)
				}
			}
			k.einval = func(s *absint.State, args []absint.Val) {
				if x, ok := constArg(args[1]); ok {
					s.Ghost[fmt.Sprint("rm", x)] = absint.BoolOf(true)
				}
			}
			m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
				return k.hook(m, s, ci)
			}
			m.H.Go = noteGo
			m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
				fail(s, "err/panic", sc.op.op, "%s can panic: %s", sc.op.op, why)
			}
			for _, x := range []string{"a", "b"} {
				s.Ghost["path "+x] = absint.Str("/" + x)
			}
			call := func(s *absint.State, w absint.Val, st step) []absint.Outcome {
				wd = st.wd
				args := []absint.Val{s.Ghost["path "+st.path]}
				ev := absint.BVal(s.Const(st.ev))
				switch st.op {
				case "Watch":
					args = append(args, ev)
				case "Rewatch":
					args = append(args, ev, ev)
				}
				return m.CallMethod(s, w, st.op, args...)
			}
			for _, o := range c.inoNew(p, m, s, s.Opq("events", true, true)) {
				sts := []*absint.State{o.S}
				for _, st := range sc.setup {
					var nx []*absint.State
					for _, x := range sts {
						for _, w := range call(x, o.V, st) {
							nx = append(nx, w.S)
						}
					}
					sts = nx
				}
				for _, st := range sts {
					before := tables(st, o.V)
					st.Ghost["test"] = absint.BoolOf(true)
					for _, w := range call(st, o.V, sc.op) {
						ends++
						c.Oblige(3)
						_, nilErr := w.V.(absint.VNil)
						failed := w.S.Ghost["failed"] != nil
						after := tables(w.S, o.V)
						if failed && nilErr {
							fail(w.S, "err/swallowed", sc.op.op, "%s returns nil although %s failed", sc.op.op, absint.Show(w.S.Ghost["failed"]))
						}
						again := 0
						for _, x := range sc.setup {
							if x.path == sc.op.path {
								again++
							}
						}
						if failed && !nilErr && sc.op.op == "Unwatch" && again > 1 {
							// the path must still be known, so that Unwatch can be tried again
							delete(w.S.Ghost, "test")
							for _, q := range call(w.S, o.V, step{"Unwatch", sc.op.path, 0, 0}) {
								if _, ok := q.V.(absint.VNil); !ok {
									fail(w.S, "err/table", "Unwatch", "after a failed Unwatch the path is no longer in the table of watched paths")
								}
							}
						} else if failed && !nilErr && before != after {
							fail(w.S, "err/table", sc.op.op, "after a failed %s the table of watched paths has changed: %s became %s", sc.op.op, before, after)
						}
						if failed {
							continue
						}
						switch sc.op.op {
						case "Watch", "Rewatch":
							if !nilErr {
								fail(w.S, "err/spurious", sc.op.op, "%s fails although the kernel granted the watch", sc.op.op)
								break
							}
							delete(w.S.Ghost, "test")
							for _, q := range call(w.S, o.V, step{"Unwatch", sc.op.path, 0, 0}) {
								if _, ok := q.V.(absint.VNil); !ok {
									fail(w.S, "err/record", sc.op.op, "after a successful %s the path is not in the table of watched paths", sc.op.op)
								}
							}
						case "Unwatch":
							if sc.op.wd == 0 {
								if nilErr {
									fail(w.S, "err/unknown", "Unwatch", "Unwatch of a path that is not watched returns nil")
								}
								if before != after {
									fail(w.S, "err/table", "Unwatch", "Unwatch of a path that is not watched changes the table")
								}
								break
							}
							if !nilErr {
								fail(w.S, "err/spurious", "Unwatch", "Unwatch fails although the kernel removed the watch or had removed it already")
							}
							if w.S.Ghost[fmt.Sprint("rm", sc.op.wd)] == nil {
								fail(w.S, "err/unwatch", "Unwatch", "Unwatch returns without removing the kernel's watch of the path")
							}
							for _, x := range sc.setup {
								if x.path != sc.op.path && w.S.Ghost[fmt.Sprint("rm", x.wd)] != nil {
									fail(w.S, "err/unwatch", "Unwatch", "Unwatch removes the watch of another path")
								}
							}
							// the path must be unknown now
							delete(w.S.Ghost, "test")
							for _, q := range call(w.S, o.V, step{"Unwatch", sc.op.path, 0, 0}) {
								if _, ok := q.V.(absint.VNil); ok {
									fail(w.S, "err/record", "Unwatch", "after Unwatch the path is still in the table of watched paths")
								}
							}
						}
					}
				}
			}
		})
		if ends == 0 {
			c.Fail("err/vacuous", sc.op.op, "", "no path of %q returns", sc.name)
		}
		c.Count("scenarios", 1)
		c.Sample("%s: %d end states", sc.name, ends)
	}
}

var _ = types.Identical
