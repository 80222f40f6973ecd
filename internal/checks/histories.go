package checks

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
	"notifysa/internal/load"
)

// A history is a short sequence of operations on a tree which starts empty.
// The paths are constants, the event sets are arbitrary.
//
//	w1 /a      Watch("/a", c1, e)      w1 /a/...   recursively
//	w1! /a     the same; the watcher may refuse one call
//	w1!! /a    the same; the watcher refuses one call
//	s1         Stop(c1)
//	s1!        the same; the watcher may refuse one call
//
// Afterwards events with arbitrary sets are dispatched.
type histH struct {
	c      *Ctx
	p      *load.Program
	n      *names
	name   string
	ctor   string
	groups []string
	fail   func(s *absint.State, rule, construct, format string, a ...interface{})
	native bool // the watcher watches recursively
	ends   int
	obl    int
	fault  bool
	events []string
	hist   int
	nfail  int
	cons   string
	site   string // a construct that does not depend on the history
}

// the directories of the file system
var histDirs = map[string][]string{"/a": {"b", "c"}, "/a/b": {"d"}, "/a/b/d": nil, "/a/c": nil}

type hreg struct {
	path string
	ch   string
	set  absint.BV
	rec  absint.BV // what was asked for recursively
}

func (h *histH) regs(s *absint.State) (r []hreg) {
	for k, v := range s.Ghost {
		if strings.HasPrefix(k, "reg:") {
			f := strings.Split(k, ":")
			b := s.BVOf(v)
			if !s.IsZero(b) {
				g := hreg{f[1], f[2], b, s.Const(0)}
				if v, ok := s.Ghost["rec:"+f[1]+":"+f[2]]; ok {
					g.rec = s.BVOf(v)
				}
				r = append(r, g)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].path+r[i].ch < r[j].path+r[j].ch })
	return
}

func within(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

func (h *histH) k(s *absint.State, p string) absint.BV {
	if v, ok := s.Ghost["K:"+p]; ok {
		return s.BVOf(v)
	}
	return s.Const(0)
}

func (h *histH) watched(s *absint.State) (r []string) {
	for k := range s.Ghost {
		if strings.HasPrefix(k, "K:") {
			r = append(r, k[2:])
		}
	}
	sort.Strings(r)
	return
}

func (h *histH) call(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	ret := func(v absint.Val) ([]absint.Outcome, bool) { return []absint.Outcome{{S: s, V: v}}, true }
	if ci.Method != nil {
		rk := absint.Key(ci.Recv)
		switch {
		case rk == absint.Key(s.Ghost["w"]):
			return h.watcher(s, ci)
		case s.Ghost["ei"] != nil && rk == absint.Key(s.Ghost["ei"]):
			switch ci.Method.Name() {
			case "Event":
				return ret(s.Ghost["event"])
			case "Path":
				return ret(s.Ghost["evpath"])
			case "isDir":
				return ret(tuple(absint.BoolOf(s.Ghost["isdir"] != nil), absint.VNil{}))
			}
		}
		if o, ok := ci.Recv.(absint.VOpaque); ok && strings.HasPrefix(o.T.S, "dirent ") {
			switch ci.Method.Name() {
			case "Name":
				return ret(absint.Str(o.T.S[len("dirent "):]))
			case "Type":
				return ret(absint.BVal(s.Const(modeDir)))
			case "IsDir":
				return ret(absint.BoolOf(true))
			}
		}
		return nil, false
	}
	if ci.Fn != nil && ci.Fn.Pkg == h.p.Pkg {
		switch {
		case ci.Fn.Name() == "cleanpath":
			t, ok := ci.Args[0].(absint.VStr)
			if !ok || t.T.Op != "const" {
				return nil, false
			}
			p := strings.TrimSuffix(t.T.S, "/...")
			return ret(tuple(absint.Str(p), absint.BoolOf(p != t.T.S), absint.VNil{}))
		case strings.HasPrefix(ci.Fn.Name(), "dbgprint"):
			return ret(tuple())
		}
	}
	switch ci.Name {
	case "os.ReadDir", "io/ioutil.ReadDir":
		t, ok := ci.Args[0].(absint.VStr)
		if !ok || t.T.Op != "const" {
			panic(absint.Undecided{Msg: "listing of an unknown directory"})
		}
		var l []absint.Val
		if !h.isdir(s, t.T.S) {
			return ret(tuple(absint.VNil{}, s.OSErr("ReadDir")))
		}
		for _, n := range h.subdirs(s, t.T.S) {
			l = append(l, s.Opq("dirent "+n, true, true))
		}
		var q absint.Val = absint.VNil{}
		if len(l) > 0 {
			q = absint.VSlice{Obj: s.New(&absint.Obj{Kind: 'q', Elems: l})}
		}
		return ret(tuple(q, absint.VNil{}))
	}
	if o, ok := m.SepModel(s, ci, h.p.Pkg); ok {
		return o, ok
	}
	return nil, false
}

// watcher models the underlying watcher.
func (h *histH) watcher(s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	name := ci.Method.Name()
	if name == "Close" {
		return nil, false
	}
	str := func(i int) string {
		t, ok := ci.Args[i].(absint.VStr)
		if !ok || t.T.Op != "const" {
			panic(absint.Undecided{Msg: name + " of an unknown path"})
		}
		return t.T.S
	}
	h.obl += 2
	cons := ghostStr(s.Ghost, "op") + ": " + name
	internal := s.Const(h.n.internal)
	dirty := s.Ghost["failed"] != nil
	set := func(e absint.BV) {
		if !s.IsZero(e.And(internal)) {
			h.fail(s, "sync/internal", cons, "%s passes internal bits on to the watcher: %s", name, s.Describe(e.And(internal)))
		}
		if !s.IsNonzero(e) {
			h.fail(s, "sync/empty", cons, "%s may be called with an empty set of events", name)
		}
	}
	old := func(p string, e absint.BV) {
		if !dirty && !s.SameSet(e, h.k(s, p)) {
			h.fail(s, "sync/old", cons, "%s of %s is told an old set that differs from the one in force in %s", name, p, s.Describe(e.Xor(h.k(s, p))))
		}
	}
	var outs []absint.Outcome
	if s.Ghost["mayfail"] != nil && !dirty {
		x := s.Clone()
		x.Ghost["failed"] = absint.Str(name)
		outs = append(outs, absint.Outcome{S: x, V: x.OSErr("watcher " + name)})
	}
	switch name {
	case "Watch", "Rewatch":
		if p := str(0); s.Ghost["fs"] != nil && !h.isdir(s, p) && within(p, "/a") {
			return []absint.Outcome{{S: s, V: s.OSErr("watcher " + name)}}, true // there is nothing to watch
		}
	}
	put := func(p string, e absint.BV, rec bool) {
		delete(s.Ghost, "gone:"+p)
		s.Ghost["K:"+p] = absint.BVal(e)
		delete(s.Ghost, "R:"+p)
		if rec {
			s.Ghost["R:"+p] = absint.BoolOf(true)
		}
	}
	drop := func(p string) { delete(s.Ghost, "gone:"+p); delete(s.Ghost, "K:"+p); delete(s.Ghost, "R:"+p) }
	fresh := func(p string) {
		if !dirty && !s.IsZero(h.alive(s, p)) {
			h.fail(s, "sync/watched", cons, "%s is called for %s, which is watched already", name, p)
		}
	}
	p := str(0)
	k, _ := constOr0(s, "calls")
	for i := range outs {
		outs[i].S.Ghost["calls"] = absint.Num(k + 1)
	}
	s.Ghost["calls"] = absint.Num(k + 1)
	switch name {
	case "Watch", "RecursiveWatch":
		e := s.BVOf(ci.Args[1])
		set(e)
		fresh(p)
		put(p, e, name == "RecursiveWatch")
	case "Rewatch":
		o, e := s.BVOf(ci.Args[1]), s.BVOf(ci.Args[2])
		set(e)
		old(p, o)
		put(p, e, false)
	case "RecursiveRewatch":
		q := str(1)
		o, e := s.BVOf(ci.Args[2]), s.BVOf(ci.Args[3])
		set(e)
		old(p, o)
		if q != p {
			fresh(q)
			drop(p)
		}
		put(q, e, true)
	case "Unwatch", "RecursiveUnwatch":
		if !dirty && !s.IsNonzero(h.k(s, p)) {
			h.fail(s, "sync/unwatched", cons, "%s may be called for %s, which is not watched", name, p)
		}
		drop(p)
	default:
		panic(absint.Undecided{Msg: "watcher method " + name})
	}
	return append([]absint.Outcome{{S: s, V: absint.VNil{}}}, outs...), true
}

// check compares what is watched with what is registered.
func (h *histH) check(s *absint.State, op string) {
	regs := h.regs(s)
	rec := s.Const(h.n.recursive)
	internal := s.Const(h.n.internal)
	if h.native {
		for _, r := range regs {
			h.obl++
			e := r.set.AndNot(internal)
			ok := s.SubSet(e, h.k(s, r.path)) && (s.IsZero(r.rec) || s.Ghost["R:"+r.path] != nil && s.SubSet(r.rec.AndNot(internal), h.k(s, r.path)))
			for _, p := range h.watched(s) {
				if p != r.path && within(r.path, p) && s.Ghost["R:"+p] != nil && s.SubSet(e, h.k(s, p)) {
					ok = true
				}
			}
			if !ok {
				h.fail(s, "need/missing", op, "the registration of %s for %s is covered by no watch: watched are %s", r.ch, r.path, h.show(s))
			}
		}
		for _, p := range h.watched(s) {
			h.obl++
			need := s.Const(0)
			for _, r := range regs {
				if within(r.path, p) {
					need = need.Or(r.set)
				}
			}
			if !s.SubSet(h.k(s, p), need) {
				h.fail(s, "need/leftover", op, "%s is watched for events that no registration at or below it needs: %s", p, s.Describe(h.k(s, p).AndNot(need)))
			}
		}
		return
	}
	paths := map[string]bool{}
	for _, p := range h.dirs(s) {
		paths[p] = true
	}
	for _, r := range regs {
		paths[r.path] = true
	}
	for _, p := range h.watched(s) {
		if h.isdir(s, p) {
			paths[p] = true
		}
	}
	var l []string
	for p := range paths {
		l = append(l, p)
	}
	sort.Strings(l)
	for _, p := range l {
		h.obl++
		need, may := s.Const(0), s.Const(0)
		for _, r := range regs {
			isrec := s.IsNonzero(r.set.And(rec))
			if r.path == p {
				need = need.Or(r.set)
			} else if isrec && within(p, r.path) {
				need = need.Or(r.rec)
				may = may.Or(r.set)
			}
			if isrec && within(p, r.path) {
				need = need.Or(s.Const(h.n.create))
			}
		}
		need = need.AndNot(internal)
		may = may.Or(need).AndNot(internal)
		k := h.alive(s, p)
		if !s.SubSet(need, k) {
			h.fail(s, "need/missing", op, "%s is not watched for events a registration needs: %s", p, s.Describe(need.AndNot(k)))
		}
		if !s.SubSet(k, may) {
			h.fail(s, "need/leftover", op, "%s is watched for events no registration needs: %s", p, s.Describe(k.AndNot(may)))
		}
	}
}

func (h *histH) show(s *absint.State) string {
	var r []string
	for _, p := range h.watched(s) {
		x := p
		if s.Ghost["R:"+p] != nil {
			x += "/..."
		}
		r = append(r, x+" for "+s.Describe(h.k(s, p)))
	}
	return strings.Join(r, ", ")
}

// offers dispatches an event at each of the paths.
func (h *histH) offers(m *absint.Machine, s *absint.State) {
	for _, ep := range h.events {
		ep := ep
		x := s.Clone()
		ev := x.SetVar("event")
		x.AssumeNonzero(ev)
		x.AssumeZero(ev.And(x.Const(h.n.internal)))
		x.Ghost["event"], x.Ghost["evpath"], x.Ghost["ei"] = absint.BVal(ev), absint.Str(ep), x.Opq("ei", true, true)
		have := len(goList(x))
		done := func(m *absint.Machine, s *absint.State) {
			h.ends++
			h.tally(s, ep, h.regs(s))
		}
		m.H.Recv = func(m *absint.Machine, s *absint.State, in ssa.Instruction, c absint.Val, commaOk bool) ([]absint.Outcome, bool) {
			if absint.Key(c) != absint.Key(s.Ghost["events"]) {
				s.Kill()
				return nil, true
			}
			if s.Ghost["got"] == nil {
				s.Ghost["got"] = absint.BoolOf(true)
				v := s.Ghost["ei"]
				if commaOk {
					v = tuple(v, absint.BoolOf(true))
				}
				return []absint.Outcome{{S: s, V: v}}, true
			}
			gs := goList(s)
			if len(gs) == have {
				done(m, s)
			}
			for _, g := range gs[have:] {
				z := s.Clone()
				z.Ghost["inner"] = absint.BoolOf(true)
				for i := range gs {
					delete(z.Ghost, fmt.Sprint("go", i))
				}
				m.Restart(z, g.fn, g.args)
				m.Fork(z)
			}
			s.Kill()
			return nil, true
		}
		m.H.Return = func(m *absint.Machine, s *absint.State, res []absint.Val) {
			if s.Ghost["inner"] != nil {
				done(m, s)
			}
		}
		m.H.Offer = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch, v absint.Val, blocking bool) {
			for _, c := range []string{"c1", "c2"} {
				if absint.Key(ch) == absint.Key(s.Ghost[c]) {
					k, _ := constOr0(s, "n:"+c)
					s.Ghost["n:"+c] = absint.Num(k + 1)
				}
			}
		}
		for _, g := range goList(x) {
			y := x.Clone()
			m.Restart(y, g.fn, g.args)
			m.Run(y)
		}
		m.H.Recv, m.H.Return, m.H.Offer = nil, nil, nil
	}
}

// tally compares the number of offers with the registrations that match.
func (h *histH) tally(s *absint.State, ep string, regs []hreg) {
	ev := s.BVOf(s.Ghost["event"])
	rec := s.Const(h.n.recursive)
	var at []hreg
	for _, r := range regs {
		isrec := s.IsNonzero(r.set.And(rec))
		if r.path == ep || r.path == path.Dir(ep) || isrec && within(ep, r.path) {
			at = append(at, r)
		}
	}
	want := map[string]int64{}
	var rec2 func(s *absint.State, i int)
	rec2 = func(s *absint.State, i int) {
		if i == len(at) {
			for _, c := range []string{"c1", "c2"} {
				h.obl++
				k, _ := constOr0(s, "n:"+c)
				where := h.site
				if where == "" {
					where = h.cons + "; an event for " + ep
				}
				if k < want[c] {
					h.fail(s, "offer/missed", where, "%s is offered an event at %s %d times although %d of its registrations ask for it", c, ep, k, want[c])
				}
				if k > want[c] {
					h.fail(s, "offer/unwanted", where, "%s is offered an event at %s %d times although %d of its registrations ask for it", c, ep, k, want[c])
				}
			}
			return
		}
		miss := s.BVOf(s.Ghost["event"]).AndNot(s.BVOf(s.Ghost["reg:"+at[i].path+":"+at[i].ch]))
		if !s.IsNonzero(miss) {
			x := s
			if !s.IsZero(miss) {
				x = s.Clone()
				x.AssumeZero(miss)
			}
			want[at[i].ch]++
			rec2(x, i+1)
			want[at[i].ch]--
		}
		if !s.IsZero(miss) {
			x := s
			if !s.IsNonzero(miss) {
				x = s.Clone()
				x.AssumeNonzero(miss)
			}
			rec2(x, i+1)
		}
	}
	_ = ev
	rec2(s, 0)
}

func (h *histH) run(m *absint.Machine, s *absint.State, t absint.VIface, past []string, next func(past []string) []string) {
	ops := next(past)
	if len(ops) == 0 {
		h.offers(m, s)
	}
	for _, op := range ops {
		x := s.Clone()
		h.apply(m, x, t, append(past[:len(past):len(past)], op), next)
	}
}

func (h *histH) apply(m *absint.Machine, s *absint.State, t absint.VIface, past []string, next func(past []string) []string) {
	op := past[len(past)-1]
	cons := strings.Join(past, "; ")
	h.hist++
	h.cons = cons
	s.Ghost["op"] = absint.Str(cons)
	delete(s.Ghost, "calls")
	delete(s.Ghost, "mayfail")
	ch := "c" + op[1:2] // s1! stops c1
	n0 := h.nfail
	switch op[0] {
	case '+', '-':
		h.fsOp(m, s, t, past, next)
	case 'w':
		f := strings.Fields(op)
		p := f[1]
		if strings.HasSuffix(f[0], "!") {
			s.Ghost["mayfail"] = absint.BoolOf(true)
		}
		e := s.SetVar(fmt.Sprintf("e%d", len(past)))
		s.AssumeNonzero(e)
		s.AssumeZero(e.And(s.Const(h.n.internal)))
		s.Ghost["e"] = absint.BVal(e)
		q := s.New(&absint.Obj{Kind: 'q', Elems: []absint.Val{absint.BVal(e)}, Label: "events"})
		outs := m.CallMethod(s, t, "Watch", absint.Str(p), s.Ghost[ch], absint.VSlice{Obj: q})
		if h.nfail != n0 {
			return
		}
		for _, o := range outs {
			h.obl++
			_, isnil := o.V.(absint.VNil)
			failed := o.S.Ghost["failed"] != nil
			if !failed && strings.HasSuffix(f[0], "!!") {
				continue
			}
			if failed && isnil {
				h.fail(o.S, "rollback/swallowed", cons, "Watch returns nil although the watcher refused %s", ghostStr(o.S.Ghost, "failed"))
				continue
			}
			if !failed && !isnil {
				h.fail(o.S, "rollback/spurious", cons, "Watch fails although nothing went wrong")
				continue
			}
			n1 := h.nfail
			if failed {
				k, _ := constOr0(o.S, "calls")
				method := ghostStr(o.S.Ghost, "failed")
				delete(o.S.Ghost, "failed")
				delete(o.S.Ghost, "mayfail")
				h.cons = cons + " (refused)"
				if k > 1 {
					// What is watched is up to the watcher now; what is
					// registered is not.
					h.site = fmt.Sprintf("%s: Watch with %s refused after other calls", h.ctor, method)
					h.offers(m, o.S)
					h.site = ""
					continue
				}
				h.check(o.S, h.cons)
			} else {
				base := strings.TrimSuffix(p, "/...")
				set := o.S.BVOf(o.S.Ghost["e"])
				if base != p {
					set = set.Or(o.S.Const(h.n.recursive))
				}
				k := "reg:" + base + ":" + ch
				if v, ok := o.S.Ghost[k]; ok {
					set = set.Or(o.S.BVOf(v))
				}
				o.S.Ghost[k] = absint.BVal(set)
				if base != p {
					k := "rec:" + base + ":" + ch
					rs := o.S.BVOf(o.S.Ghost["e"])
					if v, ok := o.S.Ghost[k]; ok {
						rs = rs.Or(o.S.BVOf(v))
					}
					o.S.Ghost[k] = absint.BVal(rs)
				}
				delete(o.S.Ghost, "e")
				h.check(o.S, cons)
			}
			if h.nfail == n1 {
				h.cons = cons
				h.run(m, o.S, t, past, next)
			}
		}
	case 's':
		if strings.HasSuffix(op, "!") {
			s.Ghost["mayfail"] = absint.BoolOf(true)
		}
		outs := m.CallMethod(s, t, "Stop", s.Ghost[ch])
		if h.nfail != n0 {
			return
		}
		for _, o := range outs {
			for k := range o.S.Ghost {
				if (strings.HasPrefix(k, "reg:") || strings.HasPrefix(k, "rec:")) && strings.HasSuffix(k, ":"+ch) {
					delete(o.S.Ghost, k)
				}
			}
			h.cons = cons
			if o.S.Ghost["failed"] != nil {
				delete(o.S.Ghost, "failed")
				delete(o.S.Ghost, "mayfail")
				h.cons = cons + " (refused)"
				h.offers(m, o.S)
				continue
			}
			n1 := h.nfail
			h.check(o.S, cons)
			if h.nfail == n1 {
				h.run(m, o.S, t, past, next)
			}
		}
	}
}

// histories runs the sequences of operations next allows.
func (c *Ctx) histories(ctor, name string, events []string, next func(past []string) []string, groups ...string) {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	h := &histH{c: c, p: p, n: n, ctor: ctor, name: ctor + ": " + name, events: events}
	fn := p.Pkg.Func(ctor)
	if fn == nil {
		c.Fail("resolve", ctor, "", "constructor not found")
		return
	}
	consts := []uint32{n.recursive, n.omit, n.create, n.remove, n.write, n.rename}
	c.Scenario(p, h.name, consts, func(m *absint.Machine, s *absint.State) {
		h.ends, h.obl, h.hist, h.nfail = 0, 0, 0, 0
		h.fail = func(s *absint.State, rule, construct, format string, a ...interface{}) {
			h.nfail++
			for _, g := range groups {
				if strings.HasPrefix(rule, g+"/") {
					pos := s.Where()
					if !strings.Contains(pos, ":") {
						pos = h.pos(h.cons)
					}
					trace := append([]string{"scenario: " + h.name, "history: " + h.cons}, s.Trace...)
					c.FailTrace(rule, construct, pos, trace, format, a...)
					return
				}
			}
		}
		m.BitName = n.bitName
		m.WidenAfter, m.Unroll, m.MaxSteps = 64, 64, 60000000
		m.H.Call = h.call
		m.H.Go = noteGo
		m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
			h.fail(s, "tree/panic", ghostStr(s.Ghost, "op"), "the tree can panic: %s", why)
		}
		for _, g := range []string{"w", "c1", "c2", "events"} {
			s.Ghost[g] = s.Opq(g, true, true)
		}
		args := []absint.Val{s.Ghost["w"], s.Ghost["events"]}
		h.native = true
		if fn.Signature.Params().Len() == 3 {
			h.native = false
			s.Ghost["rec"] = s.Opq("rec", true, true)
			args = append(args, s.Ghost["rec"])
		}
		for _, o := range m.Eval(s, fn, args, nil) {
			t := absint.VIface{T: fn.Signature.Results().At(0).Type(), V: o.V}
			o.S.Ghost["t"] = o.V
			h.run(m, o.S, t, nil, next)
		}
	})
	c.Oblige(h.obl)
	if h.ends == 0 && len(events) > 0 {
		c.Fail("tree/vacuous", h.name, "", "no path of %q gets to the end", h.name)
	}
	c.Count("histories", h.hist)
	c.Count("paths_to_the_end", h.ends)
	c.Sample("%s: %d histories, %d end states, %d obligations", h.name, h.hist, h.ends, h.obl)
}

// pos is the position of the method that does the last operation.
func (h *histH) pos(cons string) string {
	ops := strings.Split(cons, "; ")
	name := "Watch"
	if strings.HasPrefix(ops[len(ops)-1], "s") {
		name = "Stop"
	}
	fn := h.p.Pkg.Func(h.ctor)
	t := fn.Signature.Results().At(0).Type()
	if f := h.p.Prog.LookupMethod(t, h.p.Pkg.Pkg, name); f != nil {
		return h.p.Prog.Fset.Position(f.Pos()).String()
	}
	return "?"
}

// upTo gives the histories of at most n operations. The first one is a Watch
// by the first channel, and a channel is stopped only once it was registered.
func upTo(n int, watches []string) func(past []string) []string {
	return func(past []string) (r []string) {
		if len(past) == n {
			return nil
		}
		used := map[string]bool{}
		for _, o := range past {
			if o[0] == 'w' {
				used[o[1:2]] = true
			} else {
				delete(used, o[1:2])
			}
		}
		for _, c := range []string{"1", "2"} {
			if c == "2" && len(past) == 0 {
				break
			}
			for _, w := range watches {
				if strings.HasPrefix(w, "!") {
					w = w[1:]
					r = append(r, "w"+c+"! "+w)
					continue
				}
				r = append(r, "w"+c+" "+w)
			}
			if used[c] {
				r = append(r, "s"+c)
			}
		}
		return r
	}
}

// script gives the histories that have one of the operations each step allows.
func script(steps ...string) func(past []string) []string {
	return func(past []string) (r []string) {
		if len(past) == len(steps) {
			return nil
		}
		for _, o := range strings.Split(steps[len(past)], "|") {
			if len(past) > 0 && o[0] == 's' && o == past[len(past)-1] {
				continue
			}
			r = append(r, o)
		}
		return r
	}
}

// histMode says which histories a property needs.
const (
	histWatches = iota // what is watched, after up to three operations
	histOffers         // what is offered, after up to two operations
	histStops          // what is offered after two registrations and a Stop
	histFaults         // what is registered after a refused call
	histFollows        // what is watched when directories come and go
)

// checkHistories runs the histories of both trees.
func (c *Ctx) checkHistories(mode int, groups ...string) {
	all := []string{"/a", "/a/...", "/a/b", "/a/b/...", "/a/c"}
	few := []string{"/a", "/a/...", "/a/b"}
	points := []string{"/a/x", "/a/b", "/a/b/x", "/a/b/d/x", "/a/b2", "/x"}
	deep := 0
	if c.Thorough {
		deep = 1
	}
	groups = append(groups, "tree")
	for _, ctor := range []string{perdir, recur} {
		switch mode {
		case histWatches:
			l := all
			if ctor == recur {
				l = []string{"/a", "/a/...", "/a/b", "/a/b/d", "/a/c"}
			}
			c.histories(ctor, "three operations", nil, upTo(3, l), groups...)
			c.histories(ctor, "nested registrations, all of them stopped, and another one", nil, script(
				"w1 /a/b", "w1 /a/b/d|w2 /a/b/d", "w1 /a|w2 /a|w2 /a/...", "s1|s2", "s1|s2", "w1 /a|w1 /a/b|w2 /a/b/d"), groups...)
			if deep > 0 {
				c.histories(ctor, "four operations", nil, upTo(4, few), groups...)
			}
		case histOffers:
			c.histories(ctor, "two operations", points, upTo(2, all), groups...)
			if deep > 0 {
				c.histories(ctor, "three operations", points[:3], upTo(3, few), groups...)
			}
		case histFollows:
			if ctor == recur {
				continue // its watcher follows directories
			}
			n, d := "a directory appears", "a directory disappears"
			c.histories(ctor, n, nil, script("w1 /a/...", "+ /a/n|+ /a/b/n|+ /a/n /a/n/m /a/n/m/k|+ /a/c/n /a/c/n/m", "+ /a/n/m|+ /a/b/n/m|+ /a/c/n/k|s1", "s1"), groups...)
			c.histories(ctor, d, nil, script("w1 /a/...", "- /a/b|- /a/b/d|- /a/c", "+ /a/b|+ /a/b/d|+ /a/b /a/b/d|+ /a/c|s1", "+ /a/b/d|w1 /a/...|w2 /a/b|s1"), groups...)
			c.histories(ctor, d+" below several watches", nil, script("w1 /a/...", "w2 /a/b/...|w2 /a/b|w2 /a/b/d|w2 /a|w2 /a/c", "- /a/b", "+ /a/b /a/b/d|s1|s2", "s1|s2|+ /a/b"), groups...)
			c.histories(ctor, "a directory appears below several watches", nil, script("w1 /a/...", "w2 /a/b/...|w2 /a/b|w2 /a", "+ /a/b/n|+ /a/n /a/n/m", "w2 /a/n/...|w2 /a/b/n|s1|s2", "s1|s2"), groups...)
		case histStops:
			w := upTo(2+deep, few)
			c.histories(ctor, "two registrations and a Stop", points[:3], func(past []string) (r []string) {
				if len(past) == 2+deep {
					return []string{"s1", "s2", "s1!", "s2!"}
				}
				if len(past) > 2+deep {
					return nil
				}
				for _, o := range w(past) {
					if o[0] == 'w' {
						r = append(r, o)
					}
				}
				return r
			}, groups...)
		case histFaults:
			if ctor == perdir {
				continue // decided for arbitrary trees in tree.go
			}
			bad := func(l []string) (r []string) {
				for _, p := range l {
					r = append(r, "!"+p)
				}
				return r
			}
			c.histories(ctor, "a refused call", points[:4], upTo(2, bad(all)), groups...)
			good, last := upTo(3, all), upTo(3, bad(all))
			c.histories(ctor, "a refused call after two operations", nil, func(past []string) []string {
				if len(past) < 2 {
					return good(past)
				}
				return last(past)
			}, groups...)
			c.histories(ctor, "another operation after a refused call", nil, func(past []string) (r []string) {
				switch len(past) {
				case 0, 2:
					return good(past)
				case 1:
					for _, p := range all {
						r = append(r, "w1!! "+p, "w2!! "+p)
					}
				}
				return r
			}, groups...)
			c.histories(ctor, "a refused call of the new parent", []string{"/a/b"}, func(past []string) (r []string) {
				switch len(past) {
				case 0:
					return []string{"w1 /a/b", "w1 /a/b/..."}
				case 1:
					return []string{"w1 /a/c", "w2 /a/c"}
				case 2:
					return []string{"w1! /a", "w2! /a/..."}
				}
				return nil
			}, groups...)
		}
	}
}
