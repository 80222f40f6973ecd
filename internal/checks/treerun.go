package checks

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
)

// treeFindings runs scenarios of the per-directory tree and keeps the
// findings of the given rule groups.
type treeRun struct {
	c      *Ctx
	h      *treeH
	consts []uint32
	ctor   string
	groups []string
}

func (c *Ctx) newTreeRun(ctor string, groups ...string) *treeRun {
	p := c.Load(Linux)
	if p == nil {
		return nil
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return nil
	}
	h, ok := c.newTreeH(p, n)
	if !ok {
		return nil
	}
	return &treeRun{c: c, h: h, ctor: ctor, groups: groups, consts: []uint32{n.recursive, n.omit, n.create, n.remove}}
}

// scenario runs body for every start state.
func (r *treeRun) scenario(name, op string, body func(m *absint.Machine, s *absint.State)) {
	h := r.h
	h.op, h.name = op, name
	back := r.c.mark()
	h.touched, h.settle = false, op == "watch" || op == "create"
again:
	r.c.Scenario(h.p, name, r.consts, func(m *absint.Machine, s *absint.State) {
		h.ends, h.obl = 0, 0
		h.fail = r.c.filtered(r.groups, name)
		h.hooks(m)
		for _, o := range h.start(m, s, r.ctor) {
			body(m, o.S)
		}
	})
	if h.touched {
		back()
		h.touched, h.settle = false, false
		goto again
	}
	r.c.Oblige(h.obl)
	if h.ends == 0 {
		r.c.Fail("tree/vacuous", name, "", "no path of %q returns", name)
	}
	r.c.Count("scenarios", 1)
	r.c.Count("paths_to_the_end", h.ends)
	r.c.Sample("%s: %d end states, %d obligations", name, h.ends, h.obl)
}

// watch runs Watch of one path for one set of events.
func (r *treeRun) watch(faults, listErr bool, only string) {
	h := r.h
	h.faults, h.listErr = faults, listErr
	name := "Watch"
	if only != "" {
		name += " (" + only + ")"
	}
	if faults {
		name += ", the watcher may refuse"
	}
	if listErr {
		name += ", listing a directory may fail"
	}
	r.scenario(name, "watch", func(m *absint.Machine, s *absint.State) {
		h.path(s)
		e := s.SetVar("e")
		s.AssumeNonzero(e)
		s.AssumeZero(e.And(s.Const(h.n.internal)))
		s.Ghost["e"] = absint.BVal(e)
		if only != "" {
			s.Ghost["only"] = str(only)
		}
		q := s.New(&absint.Obj{Kind: 'q', Typ: nil, Elems: []absint.Val{s.Ghost["e"]}, Label: "events"})
		for _, o := range m.CallMethod(s, h.tree(s), "Watch", absint.VStr{T: s.Sym("arg")}, s.Ghost["c"], absint.VSlice{Obj: q}) {
			h.ends++
			_, isnil := o.V.(absint.VNil)
			h.endWatch(o.S, isnil)
		}
	})
}

func (h *treeH) endWatch(s *absint.State, isnil bool) {
	failed := s.Ghost["failed"]
	mode := ghostStr(s.Ghost, "mode")
	h.obl++
	cons := "Watch (" + mode + ")"
	if isnil {
		s.Ghost["result"] = str("nil")
		if mode == "failed" {
			h.fail(s, "args/cleanpath", cons, "Watch returns nil for a path that cannot be resolved")
		}
		if failed != nil {
			what := ghostStr(s.Ghost, "failed")
			if what == "ReadDir" {
				h.fail(s, "walk/list-error", cons, "Watch returns nil although a directory could not be listed")
			} else {
				h.fail(s, "rollback/swallowed", cons+": "+what, "Watch returns nil although the watcher refused %s", what)
			}
		}
		h.listed(s)
		l, _ := absint.LinOf(s.Ghost["len:obl"])
		if !s.Holds(absint.ConstLin(0).Sub(l)) {
			h.fail(s, "walk/unvisited", cons, "the walk ends although nodes which it found were not visited")
		}
	} else {
		s.Ghost["result"] = str("error")
		if failed == nil && mode != "failed" {
			h.fail(s, "rollback/spurious", cons, "Watch fails although nothing went wrong")
		}
	}
	h.finish(s)
}

// stop runs Stop on an arbitrary tree; a stranger is a channel that nothing
// was registered for.
func (r *treeRun) stop(stranger, faults bool) {
	h := r.h
	h.faults, h.listErr, h.stranger = faults, false, stranger
	defer func() { h.stranger = false }()
	name := "Stop"
	if stranger {
		name = "Stop of a channel that was never registered"
	}
	if faults {
		name += ", the watcher may refuse"
	}
	r.scenario(name, "stop", func(m *absint.Machine, s *absint.State) {
		for _, o := range m.CallMethod(s, h.tree(s), "Stop", s.Ghost["c"]) {
			h.ends++
			s := o.S
			l, _ := absint.LinOf(s.Ghost["len:obl"])
			h.obl++
			if !s.Holds(absint.ConstLin(0).Sub(l)) {
				h.fail(s, "stop/unvisited", "Stop", "the walk ends although nodes which it found were not visited")
			}
			h.finish(s)
		}
	})
}

// dispatchNode checks which channels at a node on the event's path the event
// was offered to.
func (h *treeH) dispatchNode(s *absint.State, o *absint.Obj, a after, cons string) {
	if o.Ghost["ch"] == nil {
		return
	}
	p := s.Ghost["path"].(absint.VStr).T
	e := s.BVOf(s.Ghost["event"])
	name := o.Ghost["name"].(absint.VStr).T
	switch {
	case a.role == "target":
		cons = "the path's own node"
	case a.role == "above":
		hi, _ := absint.LinOf(name.Args[2])
		last, _ := absint.LinOf(s.Ghost["lastsep"])
		d := hi.Sub(last)
		switch {
		case d.IsConst() && d.C == 0:
			cons = "the parent directory's node"
		case s.Holds(last.Sub(hi).Plus(-1)):
			cons = "a node further up"
			e = e.Or(s.Const(h.n.recursive))
		default:
			panic(absint.Undecided{Msg: "it is not known which part of the path " + name.Show() + " of " + p.Show() + " is"})
		}
	default:
		h.fail(s, "route/node", cons, "an event is dispatched to a node which is not on its path")
		return
	}
	h.obl += 2
	k, _ := absint.LinOf(o.Ghost["sent"])
	omit := s.Const(h.n.omit)
	if k.C > 1 {
		h.fail(s, "route/twice", cons, "a channel is offered the event more than once for one registration")
	}
	if k.C > 0 {
		if !s.SubSet(e, a.C0) || !s.IsZero(a.C0.And(omit)) {
			h.fail(s, "route/unwanted", cons, "a channel is offered an event it did not ask for (not registered: %s)", s.Describe(e.AndNot(a.C0)))
		}
	} else if !s.IsNonzero(e.AndNot(a.C0).Or(a.C0.And(omit))) {
		h.fail(s, "route/missed", cons, "a channel is not offered an event although it may have asked for it")
	}
}

// loops runs body, once for each goroutine of the tree, from the start of a
// round in which the event arrives on the channel ch names; next is called
// when the goroutine asks for another event.
func (h *treeH) loops(m *absint.Machine, s *absint.State, ch string, next, inner func(m *absint.Machine, s *absint.State)) {
	m.H.Recv = func(m *absint.Machine, s *absint.State, in ssa.Instruction, c absint.Val, commaOk bool) ([]absint.Outcome, bool) {
		if absint.Key(c) != absint.Key(s.Ghost[ch]) {
			s.Kill()
			return nil, true
		}
		if s.Ghost["got"] == nil {
			s.Ghost["got"] = absint.BoolOf(true)
			v := s.Ghost["ei"]
			if commaOk {
				v = tuple(v, absint.BoolOf(true))
			}
			return []absint.Outcome{{S: s, V: v}}, true
		}
		next(m, s)
		s.Kill()
		return nil, true
	}
	m.H.Return = func(m *absint.Machine, s *absint.State, res []absint.Val) {
		if s.Ghost["inner"] != nil {
			inner(m, s)
			return
		}
		if s.Ghost["got"] != nil {
			h.fail(s, h.group+"/ends", "loop over events", "the goroutine ends although its channel is open")
		}
	}
	for _, g := range goList(s) {
		x := s.Clone()
		m.Restart(x, g.fn, g.args)
		m.Run(x)
	}
}

// follow runs what happens when a directory appears or disappears.
func (r *treeRun) follow(op, at string, faults, listErr bool) {
	h := r.h
	h.faults, h.listErr, h.group = faults, listErr, "follow"
	name := map[string]string{"create": "a directory appears", "remove": "a directory disappears"}[op]
	if at != "" {
		name += " at " + at
	}
	if listErr {
		name += ", listing a directory may fail"
	}
	if faults {
		name += ", the watcher may refuse"
	}
	r.scenario(name, op, func(m *absint.Machine, s *absint.State) {
		if op == "remove" {
			s.Ghost["path"] = str(at)
		} else {
			h.path(s)
		}
		s.Ghost["ei"] = s.Opq("ei", true, true)
		s.Ghost["dir"] = str("yes")
		s.Ghost["need"] = absint.BVal(s.Const(0))
		ev := h.n.create
		if op == "remove" {
			ev = h.n.remove
		}
		s.Ghost["event"] = absint.BVal(s.Const(ev))
		h.loops(m, s, "rec", func(m *absint.Machine, s *absint.State) {
			h.ends++
			h.listed(s)
			h.obl += 3
			if l, _ := absint.LinOf(s.Ghost["len:obl"]); !s.Holds(absint.ConstLin(0).Sub(l)) && (s.Ghost["failed"] == nil || op == "remove") {
				h.fail(s, "follow/unvisited", h.op, "the walk ends although nodes which it found were not visited")
			}
			switch {
			case op == "remove" && s.Ghost["known"] != nil && s.Ghost["deleted"] == nil:
				h.fail(s, "follow/kept", h.op, "the node of a removed directory stays in the tree although it is no longer watched")
			case op == "create" && s.Ghost["failed"] == nil && !s.IsZero(s.BVOf(s.Ghost["need"])):
				t, ok := s.Ghost["target"].(absint.VStruct)
				if !ok {
					h.fail(s, "follow/missing", h.op, "a new directory below a recursive watch does not enter the tree")
					break
				}
				if s.Obj(h.wpOf(t)).Ghost["listed"] == nil {
					h.fail(s, "follow/unlisted", h.op, "a new directory below a recursive watch is not searched for subdirectories")
				}
			}
			h.finish(s)
		}, nil)
	})
}

// dispatch runs the routing of one event.
func (r *treeRun) dispatch() {
	h := r.h
	h.faults, h.listErr, h.group = false, false, "route"
	h.strict = true
	defer func() { h.strict = false }()
	r.scenario("an event is dispatched", "dispatch", func(m *absint.Machine, s *absint.State) {
		h.path(s)
		p := s.Ghost["path"].(absint.VStr).T
		s.Ghost["ei"] = s.Opq("ei", true, true)
		ev := s.SetVar("event")
		s.AssumeNonzero(ev)
		s.AssumeZero(ev.And(s.Const(h.n.internal)))
		s.Ghost["event"] = absint.BVal(ev)
		end := func(m *absint.Machine, s *absint.State) {
			h.ends++
			h.obl += 3
			if s.Ghost["absent"] == nil && s.Ghost["leaf"] == nil {
				cons := "an event is dispatched"
				if last, _ := absint.LinOf(s.Ghost["lastsep"]); s.Holds(absint.ConstLin(0).Sub(last)) {
					cons = "an event directly below the root directory"
				}
				h.fail(s, "route/incomplete", cons, "the event's path is not followed down to the last node known")
			}
			h.handoff(s)
			h.finish(s)
		}
		m.H.Offer = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch, v absint.Val, blocking bool) {
			if absint.Key(ch) == absint.Key(s.Ghost["rec"]) {
				if s.Ghost["handed"] != nil {
					h.fail(s, "route/handoff", "hand-off", "an event is handed over for following directories more than once")
				}
				s.Ghost["handed"] = absint.BoolOf(true)
				if !blocking {
					h.fail(s, "route/handoff", "hand-off", "the hand-over of a new directory may be dropped")
				}
				if absint.Key(v) != absint.Key(s.Ghost["ei"]) {
					h.fail(s, "route/payload", "hand-off", "something other than the event is handed over")
				}
				return
			}
			if blocking {
				h.fail(s, "route/blocking", "dispatch", "an event is sent to a channel with a send that waits for the receiver")
			}
			if absint.Key(v) != absint.Key(s.Ghost["ei"]) {
				h.fail(s, "route/payload", "dispatch", "something other than the dispatched event is sent")
			}
			for id, o := range s.Heap {
				if o.Kind == 'm' && o.Ghost["ch"] != nil && absint.Key(o.Ghost["ch"]) == absint.Key(ch) {
					k, _ := absint.LinOf(o.Ghost["sent"])
					s.Mut(id).Ghost["sent"] = absint.Num(k.C + 1)
					return
				}
			}
			h.fail(s, "route/stranger", "dispatch", "the event is sent to a channel that is not registered: %s", absint.Show(ch))
		}
		for _, o := range m.FindByte(s, p, '/', true) {
			x := o.S
			last, _ := absint.LinOf(o.V)
			if last.IsConst() || !x.AddGE(absint.LenOf(p).Sub(last).Plus(-2)) {
				continue
			}
			x.Ghost["lastsep"] = o.V
			for _, dir := range []string{"yes", "no", "error"} {
				y := x.Clone()
				y.Ghost["dir"] = str(dir)
				have := len(goList(y))
				h.loops(m, y, "events", func(m *absint.Machine, s *absint.State) {
					gs := goList(s)
					if len(gs) == have {
						end(m, s)
						return
					}
					for _, g := range gs[have:] {
						z := s.Clone()
						z.Ghost["inner"] = absint.BoolOf(true)
						for i := range gs {
							delete(z.Ghost, fmt.Sprint("go", i))
						}
						m.Restart(z, g.fn, g.args)
						m.Fork(z)
					}
				}, end)
			}
		}
	})
}

// handoff checks whether the event goes on to the goroutine that follows
// directories.
func (h *treeH) handoff(s *absint.State) {
	if !h.perdir {
		return
	}
	ev := s.BVOf(s.Ghost["event"]).And(s.Const(h.n.create | h.n.remove))
	rec := s.Ghost["isrec"] != nil
	dir := ghostStr(s.Ghost, "dir") == "yes"
	if s.Ghost["handed"] != nil {
		if !rec || !dir || !s.IsNonzero(ev) {
			h.fail(s, "route/handoff", "hand-off", "an event is handed over for following directories although no new or removed directory below a recursive watch is at hand")
		}
		return
	}
	if rec && dir && s.Ghost["absentparent"] == nil && !s.IsZero(ev) {
		h.fail(s, "route/handoff", "hand-off", "a new or removed directory below a recursive watch is not handed over to be followed")
	}
}

// args runs what Watch and Stop do with their arguments before anything else.
func (r *treeRun) args() {
	h := r.h
	h.faults, h.listErr = false, false
	type variant struct {
		name     string
		mode     string
		nilchan  bool
		n        int // events
		panics   bool
		err      bool
		nochange bool
	}
	for _, v := range []variant{
		{"Watch of a nil channel", "plain", true, 1, true, false, true},
		{"Watch of a nil channel for nothing", "plain", true, 0, true, false, true},
		{"Watch for nothing", "plain", false, 0, false, false, true},
		{"recursive Watch for nothing", "recursive", false, 0, false, false, true},
		{"Watch of a path that cannot be resolved", "failed", false, 1, false, true, true},
		{"Watch for nothing of a path that cannot be resolved", "failed", false, 0, false, false, true},
		{"Watch of a nil channel and a path that cannot be resolved", "failed", true, 1, true, false, true},
	} {
		v := v
		ended := false
		r.scenario(v.name, "args", func(m *absint.Machine, s *absint.State) {
			h.path(s)
			s.Ghost["only"] = str(v.mode)
			m.H.MapWrite = func(m *absint.Machine, s *absint.State, in ssa.Instruction, obj int, k, val absint.Val) {
				h.fail(s, "args/effect", v.name, "%s changes the tree", v.name)
			}
			m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, val absint.Val, why string) {
				h.ends++
				h.obl++
				ended = true
				if !v.panics {
					h.fail(s, "args/panic", v.name, "%s panics: %s", v.name, why)
				}
			}
			var evs []absint.Val
			for i := 0; i < v.n; i++ {
				e := s.SetVar("e")
				s.AssumeNonzero(e)
				s.AssumeZero(e.And(s.Const(h.n.internal)))
				evs = append(evs, absint.BVal(e))
			}
			var q absint.Val = absint.VNil{}
			if v.n > 0 {
				q = absint.VSlice{Obj: s.New(&absint.Obj{Kind: 'q', Elems: evs, Label: "events"})}
			}
			c := s.Ghost["c"]
			if v.nilchan {
				c = absint.VNil{}
			}
			for _, o := range m.CallMethod(s, h.tree(s), "Watch", absint.VStr{T: s.Sym("arg")}, c, q) {
				h.ends++
				h.obl += 2
				ended = true
				_, isnil := o.V.(absint.VNil)
				switch {
				case v.panics:
					h.fail(o.S, "args/nil", v.name, "%s does not panic", v.name)
				case v.err && isnil:
					h.fail(o.S, "args/cleanpath", v.name, "%s returns nil", v.name)
				case !v.err && !isnil:
					h.fail(o.S, "args/error", v.name, "%s returns an error", v.name)
				}
			}
		})
		_ = ended
	}
}

// two runs Watch for two events at once.
func (r *treeRun) two(mode string) {
	h := r.h
	h.faults, h.listErr = false, false
	r.scenario("Watch ("+mode+") for two events at once", "watch", func(m *absint.Machine, s *absint.State) {
		h.path(s)
		var evs []absint.Val
		e := s.Const(0)
		for i := 0; i < 2; i++ {
			x := s.SetVar("e")
			s.AssumeNonzero(x)
			s.AssumeZero(x.And(s.Const(h.n.internal)))
			evs = append(evs, absint.BVal(x))
			e = e.Or(x)
		}
		s.Ghost["e"] = absint.BVal(e)
		s.Ghost["only"] = str(mode)
		q := s.New(&absint.Obj{Kind: 'q', Elems: evs, Label: "events"})
		for _, o := range m.CallMethod(s, h.tree(s), "Watch", absint.VStr{T: s.Sym("arg")}, s.Ghost["c"], absint.VSlice{Obj: q}) {
			h.ends++
			_, isnil := o.V.(absint.VNil)
			h.endWatch(o.S, isnil)
		}
	})
}

// forwards checks that the package's functions hand their arguments to the
// one tree there is, and its answer back.
func (r *treeRun) forwards() {
	h := r.h
	for _, name := range []string{"Watch", "Stop"} {
		fn := h.p.Pkg.Func(name)
		if fn == nil {
			h.c.Fail("resolve", "notify."+name, "", "function not found")
			continue
		}
		name := name
		ends := 0
		r.c.Scenario(h.p, "notify."+name, r.consts, func(m *absint.Machine, s *absint.State) {
			ends = 0
			fail := r.c.filtered(r.groups, "notify."+name)
			var args []absint.Val
			for i, p := range fn.Params {
				switch {
				case i == 0 && name == "Watch":
					args = append(args, absint.VStr{T: s.Sym("path")})
				case fn.Signature.Variadic() && i == len(fn.Params)-1:
					q := s.New(&absint.Obj{Kind: 'q', Elems: []absint.Val{absint.BVal(s.SetVar("e"))}, Label: "events"})
					args = append(args, absint.VSlice{Obj: q})
				default:
					args = append(args, s.Opq(p.Name(), true, true))
				}
			}
			var res absint.Val = s.Err("answer")
			m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
				if ci.Method == nil || ci.Method.Name() != name {
					return nil, false
				}
				n, _ := absint.LinOf(s.Ghost["forwarded"])
				s.Ghost["forwarded"] = absint.LinVal(n.Plus(1))
				r.c.Oblige(1)
				for i, a := range ci.Args {
					if i < len(args) && absint.Key(a) != absint.Key(args[i]) {
						fail(s, "args/forward", "notify."+name, "notify.%s passes something else than its argument %d on to the tree", name, i+1)
					}
				}
				if name == "Stop" {
					return []absint.Outcome{{S: s, V: tuple()}}, true
				}
				return []absint.Outcome{{S: s, V: res}}, true
			}
			s.Ghost["forwarded"] = absint.Num(0)
			for _, o := range m.Eval(s, fn, args, nil) {
				ends++
				r.c.Oblige(2)
				if n, ok := absint.LinOf(o.S.Ghost["forwarded"]); !ok || !n.IsConst() || n.C != 1 {
					fail(o.S, "args/forward", "notify."+name, "notify.%s does not call the tree exactly once", name)
				}
				if name == "Watch" && absint.Key(o.V) != absint.Key(res) {
					fail(o.S, "args/result", "notify."+name, "notify.Watch does not return what the tree answers")
				}
			}
		})
		if ends == 0 {
			r.c.Fail("tree/vacuous", "notify."+name, "", "no path returns")
		}
	}
}

const (
	perdir = "newNonrecursiveTree"
	recur  = "newRecursiveTree"
)

// tree registers a check of the tree's operations.
func tree(id string, groups []string, run func(c *Ctx, r *treeRun)) {
	register(id, func(c *Ctx) {
		r := c.newTreeRun(perdir, append(groups, "tree")...)
		if r == nil {
			return
		}
		run(c, r)
	})
}

func init() {
	tree("C03", []string{"stop", "reg"}, func(c *Ctx, r *treeRun) {
		r.stop(false, false)
		r.stop(false, true)
		r.watch(false, false, "plain")
		r.watch(false, false, "recursive")
		c.checkHistories(histStops, "offer")
	})
	tree("C09", []string{"sync", "need", "stop"}, func(c *Ctx, r *treeRun) {
		r.stop(false, false)
		r.watch(false, false, "plain")
		r.watch(false, false, "recursive")
		r.follow("create", "", false, false)
		c.checkHistories(histWatches, "sync", "need")
	})
	tree("C10", []string{"rollback", "reg"}, func(c *Ctx, r *treeRun) {
		r.watch(true, false, "plain")
		r.watch(true, true, "recursive")
		c.checkHistories(histFaults, "rollback", "need", "offer", "sync")
	})
	tree("C16", []string{"walk"}, func(c *Ctx, r *treeRun) {
		r.watch(false, true, "recursive")
		r.follow("create", "", false, true)
	})
	tree("C17", []string{"follow", "walk", "reg", "sync"}, func(c *Ctx, r *treeRun) {
		r.follow("create", "", false, false)
		for _, at := range []string{"/a", "/a/b", "/a/b/c"} {
			r.follow("remove", at, false, false)
			r.follow("remove", at, true, false)
		}
		c.checkHistories(histFollows, "need", "sync")
	})
	tree("C18", []string{"route"}, func(c *Ctx, r *treeRun) {
		r.dispatch()
		if r := c.newTreeRun(recur, "route", "tree"); r != nil {
			r.dispatch()
		}
		c.checkHistories(histOffers, "offer")
	})
	tree("C22", []string{"args"}, func(c *Ctx, r *treeRun) {
		r.args()
		if r := c.newTreeRun(recur, "args", "tree"); r != nil {
			r.args()
		}
		r.forwards()
		r.groups = append(r.groups, "reg")
		r.two("plain")
		r.stop(true, false)
	})
}
