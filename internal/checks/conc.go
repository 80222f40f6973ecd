package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/flow"
	"notifysa/internal/load"
)

// The concurrency checks: one flow analysis of every operation and goroutine,
// judged by the rules of C01, C02, C04, C05, C06, C19 and C20.

type conc struct {
	c      *Ctx
	p      *load.Program
	a      *flow.Analysis
	groups []string
	pre    string
	maps   map[string]map[string]bool // guarded map type to locks
	fields map[string]map[string]bool // guarded field to locks
	writes map[string]map[string]bool // field only writes of which need a lock
	edges  map[string]map[string]string
	closes map[string]map[string]string
	closed map[string]*flow.Event // channels of a field, closed by an operation
	sends  map[string]*flow.Event // channels of a field, sent on by a goroutine
	counts map[string]int
	trees  []string // implementations of the tree
	pumps  map[*flow.Root]*pump
	alias  map[string]map[string]bool // field to channels stored in it
}

type pump struct {
	recv, wait bool
	quit       bool
}

func (k *conc) fail(e *flow.Event, rule, construct, format string, a ...interface{}) {
	ok := false
	for _, g := range k.groups {
		if strings.HasPrefix(rule, g) {
			ok = true
		}
	}
	if !ok {
		return
	}
	var tr []string
	if e != nil {
		if e.Root != nil {
			tr = append(tr, e.Root.Kind+" "+e.Root.Name)
		}
		tr = append(tr, e.Stack...)
		if e.In != nil {
			tr = append(tr, "at "+k.a.InPos(e.In))
		}
	}
	pos := ""
	if e != nil {
		pos = k.a.InPos(e.In)
	}
	k.c.FailTrace(rule, k.pre+construct, pos, tr, format, a...)
}

func tname(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Pointer:
		return tname(t.Elem())
	case *types.Named:
		return t.Obj().Name()
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func isMutex(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex"
}

// guards works out which maps and fields each lock protects: the maps of the
// structure that holds the lock, what they contain, and those of structures it
// owns that have no lock of their own.
func (k *conc) guards() {
	k.maps, k.fields, k.writes = map[string]map[string]bool{}, map[string]map[string]bool{}, map[string]map[string]bool{}
	pkg := k.p.Pkg.Pkg
	mine := func(t types.Type) (*types.Named, *types.Struct) {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() != pkg {
			return nil, nil
		}
		st, _ := n.Underlying().(*types.Struct)
		return n, st
	}
	owns := func(st *types.Struct) bool {
		for i := 0; i < st.NumFields(); i++ {
			if isMutex(st.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	add := func(m map[string]map[string]bool, key, lock string) {
		if m[key] == nil {
			m[key] = map[string]bool{}
		}
		m[key][lock] = true
	}
	members := append([]string(nil), pkg.Scope().Names()...)
	for _, nm := range members {
		tn, ok := pkg.Scope().Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		n, st := mine(tn.Type())
		if st == nil || !owns(st) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if !isMutex(st.Field(i).Type()) {
				continue
			}
			lock := n.Obj().Name() + "." + st.Field(i).Name()
			seen := map[types.Type]bool{}
			var visit func(t types.Type, ptr bool)
			fieldsOf := func(name string, st *types.Struct, guardFields bool) {
				for j := 0; j < st.NumFields(); j++ {
					f := st.Field(j)
					if guardFields {
						add(k.fields, name+"."+f.Name(), lock)
					}
					visit(f.Type(), false)
				}
			}
			visit = func(t types.Type, ptr bool) {
				if seen[t] {
					return
				}
				seen[t] = true
				switch u := t.Underlying().(type) {
				case *types.Map:
					add(k.maps, tname(t), lock)
					add(k.maps, tname(u), lock)
					e := u.Elem()
					if pt, ok := e.Underlying().(*types.Pointer); ok {
						if n, st := mine(pt.Elem()); st != nil && !owns(st) {
							for j := 0; j < st.NumFields(); j++ {
								add(k.fields, n.Obj().Name()+"."+st.Field(j).Name(), lock)
								// embedded structures belong to it
								if st.Field(j).Embedded() {
									if en, est := mine(st.Field(j).Type()); est != nil {
										for x := 0; x < est.NumFields(); x++ {
											add(k.fields, en.Obj().Name()+"."+est.Field(x).Name(), lock)
										}
									}
								}
							}
						}
					} else {
						visit(e, false)
					}
				case *types.Struct:
					if n, st := mine(t); st != nil && !owns(st) {
						fieldsOf(n.Obj().Name(), st, false)
					}
				case *types.Interface:
					if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() == pkg {
						for _, im := range members {
							o, ok := pkg.Scope().Lookup(im).(*types.TypeName)
							if !ok || types.IsInterface(o.Type()) {
								continue
							}
							pt := types.NewPointer(o.Type())
							if n.Obj().Name() == "trigger" && types.Implements(pt, u) {
								if _, st := mine(o.Type()); st != nil && !owns(st) {
									fieldsOf(o.Name(), st, false)
								}
							}
						}
					}
				}
			}
			for j := 0; j < st.NumFields(); j++ {
				if j != i {
					visit(st.Field(j).Type(), false)
					add(k.writes, n.Obj().Name()+"."+st.Field(j).Name(), lock)
				}
			}
		}
	}
}

func anyHeld(s *flow.State, locks map[string]bool, exclusive bool) bool {
	for l := range locks {
		if h := s.Held[l]; h < 0 || h > 0 && !exclusive {
			return true
		}
	}
	return false
}

func lockNames(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

func isUser(v flow.Val) (flow.User, bool) {
	if f, ok := v.(flow.Frozen); ok {
		v = f.V
	}
	u, ok := v.(flow.User)
	return u, ok
}

func chName(v flow.Val, t types.Type) string {
	switch x := v.(type) {
	case flow.Frozen:
		return chName(x.V, t)
	case flow.User:
		return "a user's channel"
	case flow.From:
		return x.Loc
	case flow.Made:
		return "a channel made in " + x.V.Parent().Name()
	}
	return "a channel of type " + tname(t)
}

// place names the function an event is in, closures by their outer function.
func place(e *flow.Event) string {
	f := e.Fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.RelString(f.Pkg.Pkg)
}

func inLoop(in ssa.Instruction) bool {
	start := in.Block()
	seen := map[*ssa.BasicBlock]bool{}
	list := append([]*ssa.BasicBlock(nil), start.Succs...)
	for len(list) > 0 {
		b := list[len(list)-1]
		list = list[:len(list)-1]
		if b == start {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		list = append(list, b.Succs...)
	}
	return false
}

// treeTypes names the implementations of the tree.
func treeTypes(p *load.Program) []string {
	t, ok := p.Pkg.Members["tree"].(*ssa.Type)
	if !ok {
		return nil
	}
	it, _ := t.Type().Underlying().(*types.Interface)
	var l []string
	for n, m := range p.Pkg.Members {
		if m, ok := m.(*ssa.Type); ok && it != nil && !types.IsInterface(m.Type()) && types.Implements(types.NewPointer(m.Type()), it) {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

// apiRoots lists the operations a user or the tree's owner may call at any time.
func apiRoots(p *load.Program) []*flow.Root {
	var roots []*flow.Root
	pkg := p.Pkg
	if f := pkg.Func("init"); f != nil {
		roots = append(roots, &flow.Root{Name: "package initialisation", Kind: "init", Fn: f})
	}
	add := func(f *ssa.Function, name string) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		r := &flow.Root{Name: name, Kind: "api", Fn: f, Args: make([]flow.Val, len(f.Params))}
		for i, q := range f.Params {
			if flow.IsEventChan(q.Type()) {
				r.Args[i] = flow.User{Origins: "argument"}
			}
		}
		roots = append(roots, r)
	}
	var l []string
	for n := range pkg.Members {
		l = append(l, n)
	}
	sort.Strings(l)
	var it *types.Interface
	if t, ok := pkg.Members["tree"].(*ssa.Type); ok {
		it, _ = t.Type().Underlying().(*types.Interface)
	}
	for _, n := range l {
		switch m := pkg.Members[n].(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() && m.Signature.Recv() == nil {
				add(m, n)
			}
			if strings.HasPrefix(n, "newNonrecursiveTree") || strings.HasPrefix(n, "newRecursiveTree") {
				r := &flow.Root{Name: n, Kind: "init", Fn: m, Args: make([]flow.Val, len(m.Params))}
				roots = append(roots, r)
			}
		case *ssa.Type:
			if it == nil || types.IsInterface(m.Type()) {
				continue
			}
			pt := types.NewPointer(m.Type())
			if !types.Implements(pt, it) {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				f := p.Prog.LookupMethod(pt, it.Method(i).Pkg(), it.Method(i).Name())
				add(f, n+"."+it.Method(i).Name())
			}
		}
	}
	return roots
}

// obliges names the counters that are a group's obligations.
var obliges = map[string][]string{
	"send/":    {"user_channel_sends"},
	"barrier/": {"barrier_obligations"},
	"guard/":   {"guarded_accesses"},
	"lock/":    {"lock_operations", "path_ends"},
	"wait/":    {"waiting_operations"},
	"order/":   {"lock_operations"},
	"pump/":    {"pump_ends"},
	"close/":   {"close_sites"},
}

// concurrency analyses one configuration under the rules of some groups.
func (c *Ctx) concurrency(cfg load.Config, groups ...string) *conc {
	p := c.Load(cfg)
	if p == nil {
		return nil
	}
	k := &conc{c: c, p: p, groups: groups, edges: map[string]map[string]string{}, closes: map[string]map[string]string{}, counts: map[string]int{}, pumps: map[*flow.Root]*pump{}, alias: map[string]map[string]bool{}}
	if cfg.Name != "linux" {
		k.pre = cfg.Name + ": "
	}
	k.guards()
	k.trees = treeTypes(p)
	k.a = flow.New(p.Prog, p.Pkg)
	k.a.On = k.judge
	k.a.Run(apiRoots(p))
	k.cycles()
	k.ends()
	var open []string
	for n := range k.a.Notes {
		open = append(open, n)
	}
	sort.Strings(open)
	for _, n := range open {
		c.Fail("undecided", cfg.Name, "", "%s", n)
	}
	c.Count("flow_events_judged", k.a.Sites)
	c.Count("flow_states", k.a.States)
	c.Count("flow_functions", len(k.a.Funcs))
	c.Count("flow_roots", len(k.a.Roots))
	for _, g := range groups {
		for _, n := range obliges[g] {
			c.Oblige(k.counts[n])
		}
	}
	for n, v := range k.counts {
		c.Count(n, v)
	}
	var rs []string
	for _, r := range k.a.Roots {
		rs = append(rs, r.Kind+" "+r.Name)
	}
	c.R.Cov["roots "+cfg.Name] = rs
	return k
}

func (k *conc) judge(e *flow.Event) {
	switch e.Kind {
	case "send":
		if e.S.Flags["done"] && e.Root.Kind == "go" {
			k.fail(e, "close/late", place(e), "a goroutine sends on %s after it has signalled its end: the channel may be closed by then", chName(e.Ch, e.Type))
		}
		if _, ok := e.Ch.(flow.From); ok && e.Root.Kind == "go" {
			if k.sends == nil {
				k.sends = map[string]*flow.Event{}
			}
			x := *e
			k.sends[chName(e.Ch, e.Type)] = &x
		}
		u, user := isUser(e.Ch)
		if user {
			k.counts["user_channel_sends"]++
			if e.Block {
				k.fail(e, "send/blocks", place(e), "an event is sent to a user's channel in a way that waits for its reader")
			}
			if e.Root.Kind == "go" && goFor(e) {
				// judged below like any other send
			}
			g := k.maps["watchpoint"]
			if len(g) == 0 {
				g = k.chanGuards()
			}
			k.counts["barrier_obligations"]++
			if !anyHeld(e.S, g, false) {
				k.fail(e, "barrier/unlocked", place(e), "an event is sent to a user's channel while %s is not held: Stop may have returned already", lockNames(g))
			} else {
				for _, o := range strings.Fields(u.Origins) {
					if e.S.Seen[o] && !e.S.Fresh[o] {
						k.fail(e, "barrier/stale", place(e), "an event is sent to a user's channel that was looked up before the lock was last released (at %s): Stop may have returned in between", strings.SplitN(o, "@", 2)[0])
					}
				}
			}
		} else if e.Ch == nil && flow.IsEventChan(e.Type) {
			k.c.Fail("undecided", k.pre+place(e), k.a.InPos(e.In), "it is not known whose channel is sent to")
		}
		if e.Block {
			k.waits(e, "a send on "+chName(e.Ch, e.Type))
			if _, local := e.Ch.(flow.Made); !local || true {
				e.S.Flags["sent"] = true
			}
		}
	case "recv":
		if e.Block {
			k.waits(e, "a receive from "+chName(e.Ch, e.Type))
			if _, user := isUser(e.Ch); user {
				k.fail(e, "send/receives", place(e), "a user's channel is received from")
			}
		}
		pu := k.pump(e.Root)
		if e.Block && inLoop(e.In) {
			pu.recv = true
			if _, ok := e.In.(*ssa.Select); ok {
				pu.quit = true
			}
		}
	case "wait":
		k.waits(e, e.What)
		if inLoop(e.In) {
			k.pump(e.Root).wait = true
		}
	case "lock":
		k.counts["lock_operations"]++
		if h := e.S.Held[e.Loc]; h != 0 {
			how := "exclusively"
			if h > 0 {
				how = "for reading"
			}
			k.fail(e, "lock/twice", place(e), "%s is taken while it is already held (%s, taken at %s)", e.Loc, how, e.S.At[e.Loc])
		}
		for l := range e.S.Held {
			if l == e.Loc {
				continue
			}
			if k.edges[l] == nil {
				k.edges[l] = map[string]string{}
			}
			if k.edges[l][e.Loc] == "" {
				k.edges[l][e.Loc] = k.a.InPos(e.In)
			}
		}
	case "unlock":
		k.counts["lock_operations"]++
		h := e.S.Held[e.Loc]
		switch {
		case h == 0:
			k.fail(e, "lock/not-held", place(e), "%s is released on a path where it is not held", e.Loc)
		case h < 0 && e.Mode == "R":
			k.fail(e, "lock/not-held", place(e), "%s is held exclusively and released as if held for reading", e.Loc)
		case h > 0 && e.Mode == "W":
			k.fail(e, "lock/not-held", place(e), "%s is held for reading and released as if held exclusively", e.Loc)
		}
	case "rootreturn", "rootpanic":
		k.counts["path_ends"]++
		if e.Kind == "rootpanic" && e.Root.Kind != "api" {
			return
		}
		if len(e.S.Held) > 0 {
			how := "returns"
			if e.Kind == "rootpanic" {
				how = "panics"
			}
			k.fail(&flow.Event{Root: e.Root, In: e.In, Fn: e.Fn, S: e.S}, "lock/kept", e.Root.Name, "%s %s with %s still held (taken at %s)", e.Root.Name, how, e.S.Locks(), at(e.S))
		}
		if e.Kind == "rootreturn" {
			k.end(e)
			if e.Root.Kind == "api" && e.Root.Name == "Stop" {
				stopped := false
				for f := range e.S.Flags {
					stopped = stopped || strings.HasPrefix(f, "invoked:Stop:")
				}
				if !stopped {
					k.fail(e, "barrier/stop", "Stop", "Stop can return before the tree has removed the channel")
				}
			}
			if e.Root.Kind == "api" && strings.HasSuffix(e.Root.Name, ".Close") {
				if !watcherClosed(e.S) {
					k.fail(e, "close/missing", e.Root.Name, "%s can return without closing the watcher", e.Root.Name)
				}
				closed := false
				for f := range e.S.Flags {
					closed = closed || strings.HasPrefix(f, "close:")
				}
				if !closed {
					k.fail(e, "close/missing", e.Root.Name, "%s can return without closing the channel its goroutines read", e.Root.Name)
				}
			}
		}
	case "mapread", "mapwrite":
		if _, made := e.Map.(flow.Made); made {
			return
		}
		g := k.maps[tname(e.Type)]
		if g == nil {
			g = k.maps[tname(e.Type.Underlying())]
		}
		if g == nil || e.Root.Kind == "init" || e.Root.Kind == "finalizer" {
			return
		}
		k.counts["guarded_accesses"]++
		w := e.Kind == "mapwrite"
		if !anyHeld(e.S, g, w) {
			how := "read"
			if w {
				how = "modified"
			}
			if w && anyHeld(e.S, g, false) {
				k.fail(e, "guard/shared", place(e), "a %s is modified while %s is held only for reading", tname(e.Type), lockNames(g))
			} else {
				k.fail(e, "guard/unlocked", place(e), "a %s is %s without holding %s", tname(e.Type), how, lockNames(g))
			}
			if w && tname(e.Type) == "watchpoint" && strings.HasSuffix(e.Root.Name, ".Stop") {
				k.fail(e, "barrier/stop", place(e), "Stop removes a registration without holding %s exclusively: an event being dispatched can still be sent afterwards", lockNames(g))
			}
		}
	case "load", "store":
		if m, ok := e.Ch.(flow.Made); ok && e.Kind == "store" {
			if _, ok := m.V.Type().Underlying().(*types.Chan); ok {
				if k.alias[e.Loc] == nil {
					k.alias[e.Loc] = map[string]bool{}
				}
				k.alias[e.Loc]["the channel made in "+m.V.Parent().Name()+" ("+k.a.Pos(m.V.Pos())+")"] = true
			}
		}
		g := k.fields[e.Loc]
		if g == nil && e.Kind == "store" {
			g = k.writes[e.Loc]
		}
		if g == nil || e.What == "fresh" || e.Root.Kind == "init" || e.Root.Kind == "finalizer" {
			return
		}
		if k.unshared(e) {
			return
		}
		k.counts["guarded_accesses"]++
		w := e.Kind == "store"
		if !anyHeld(e.S, g, w) {
			how := "read"
			if w {
				how = "written"
			}
			if w && anyHeld(e.S, g, false) {
				k.fail(e, "guard/shared", place(e), "%s is written while %s is held only for reading", e.Loc, lockNames(g))
			} else {
				k.fail(e, "guard/unlocked", place(e), "%s is %s without holding %s", e.Loc, how, lockNames(g))
			}
		}
	case "close":
		id := chName(e.Ch, e.Type)
		if k.closes[id] == nil {
			k.closes[id] = map[string]string{}
		}
		k.counts["close_sites"]++
		by := place(e)
		for _, t := range k.trees {
			if strings.HasPrefix(by, "(*"+t+").") {
				by = "the tree's Close"
			}
		}
		k.closes[id][k.a.InPos(e.In)] = by
		if _, ok := e.Ch.(flow.From); ok && e.Root.Kind == "api" {
			if k.closed == nil {
				k.closed = map[string]*flow.Event{}
			}
			x := *e
			k.closed[id] = &x
		}
		if _, user := isUser(e.Ch); user {
			k.fail(e, "close/user", place(e), "a user's channel is closed")
		}
		if e.Root.Kind != "init" {
			if inLoop(e.In) && !leaves(e.In) {
				k.fail(e, "close/twice", place(e), "%s is closed in a loop", id)
			}
		}
		if strings.HasSuffix(e.Root.Name, ".Close") && e.Root.Kind == "api" {
			if !e.S.Flags["invoked:Close:watcher"] && !watcherClosed(e.S) {
				k.fail(e, "close/order", place(e), "%s is closed before the watcher that sends on it", id)
			}
		}
		if len(e.S.Flags) > 0 {
			for f := range e.S.Flags {
				if strings.HasPrefix(f, "close:") && f == "close:"+keyOf(e.Ch) && keyOf(e.Ch) != "?" {
					k.fail(e, "close/twice", place(e), "%s is closed twice on one path", id)
				}
			}
		}
	}
}

func keyOf(v flow.Val) string { return flow.Key(v) }

func watcherClosed(s *flow.State) bool {
	for f := range s.Flags {
		if strings.HasPrefix(f, "invoked:Close:") {
			return true
		}
	}
	return false
}

// leaves tells whether every way on from an instruction leaves the loop.
func leaves(in ssa.Instruction) bool { return !inLoop(in) }

func at(s *flow.State) string {
	var l []string
	for _, v := range s.At {
		l = append(l, v)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func goFor(e *flow.Event) bool { return false }

// chanGuards finds the guards of whatever maps are keyed by channels.
func (k *conc) chanGuards() map[string]bool {
	out := map[string]bool{}
	for t, g := range k.maps {
		if strings.HasPrefix(t, "map[chan") {
			for l := range g {
				out[l] = true
			}
		}
	}
	return out
}

func (k *conc) pump(r *flow.Root) *pump {
	if k.pumps[r] == nil {
		k.pumps[r] = &pump{}
	}
	return k.pumps[r]
}

func (k *conc) waits(e *flow.Event, what string) {
	k.counts["waiting_operations"]++
	if len(e.S.Held) == 0 {
		return
	}
	if m, ok := e.Ch.(flow.Made); ok && e.Kind == "send" {
		if mk, ok := m.V.(*ssa.MakeChan); ok {
			if c, ok := mk.Size.(*ssa.Const); ok && c.Value != nil && c.Int64() > 0 && mk.Parent() == e.Fn {
				return
			}
		}
	}
	k.fail(e, "wait/locked", place(e), "%s waits for another goroutine or the kernel while holding %s (taken at %s)", what, e.S.Locks(), at(e.S))
}

// unshared tells whether a field belongs to a structure nobody else has yet.
func (k *conc) unshared(e *flow.Event) bool { return false }

func (k *conc) cycles() {
	var ls []string
	for l := range k.edges {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		seen := map[string]bool{}
		var path []string
		var find func(x string) bool
		find = func(x string) bool {
			var to []string
			for y := range k.edges[x] {
				to = append(to, y)
			}
			sort.Strings(to)
			for _, y := range to {
				if y == l {
					path = append(path, fmt.Sprintf("%s then %s at %s", x, y, k.edges[x][y]))
					return true
				}
				if !seen[y] {
					seen[y] = true
					if find(y) {
						path = append(path, fmt.Sprintf("%s then %s at %s", x, y, k.edges[x][y]))
						return true
					}
				}
			}
			return false
		}
		if find(l) {
			k.fail(nil, "order/cycle", l, "locks are taken in different orders: %s", strings.Join(path, "; "))
		}
		for y, pos := range k.edges[l] {
			k.c.Sample("%s is taken before %s (%s)", l, y, pos)
		}
	}
}

// end judges how a goroutine ends.
func (k *conc) end(e *flow.Event) {
	r := e.Root
	if r.Kind != "go" {
		return
	}
	pu := k.pumps[r]
	if pu == nil || !pu.recv && !pu.wait {
		return
	}
	k.counts["pump_ends"]++
	said := e.S.Flags["closed"]
	if pu.wait {
		for f := range e.S.Flags {
			if strings.HasPrefix(f, "close:") || f == "sent" || f == "done" {
				said = true
			}
		}
	}
	if said {
		return
	}
	if pu.quit {
		k.c.Fail("undecided", k.pre+r.Name, k.a.InPos(r.Site), "the goroutine waits for several channels")
		return
	}
	why := "although its channel has not been closed"
	if pu.wait && !pu.recv {
		why = "without announcing it to those who close the watcher"
	}
	k.fail(&flow.Event{Root: r, In: r.Site, Fn: r.Fn, S: e.S}, "pump/ends", r.Name, "the goroutine %s can end %s", r.Name, why)
}

func (k *conc) ends() {
	// A field that always holds the channel made in one place stands for it.
	for id, sites := range k.closes {
		for made := range k.alias[id] {
			if k.closes[made] == nil {
				k.closes[made] = map[string]string{}
			}
			for pos, f := range sites {
				k.closes[made][pos] = f
			}
		}
	}
	for id, e := range k.closed {
		k.counts["close_obligations"]++
		if x := k.sends[id]; x != nil {
			k.fail(e, "close/senders", place(e), "%s is closed by an operation while the goroutine %s may send on it", id, x.Root.Name)
		}
	}
	var ids []string
	for id := range k.closes {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		by := map[string]bool{}
		for _, f := range k.closes[id] {
			by[f] = true
		}
		if strings.HasPrefix(id, "a channel of type") || strings.HasPrefix(id, "a channel made") {
			continue
		}
		if len(by) > 1 {
			k.fail(nil, "close/twice", id, "%s is closed by several operations: %s", id, lockNames(by))
		}
	}
	var rs []*flow.Root
	for r := range k.pumps {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Name < rs[j].Name })
	for _, r := range rs {
		if p := k.pumps[r]; r.Kind == "go" && (p.recv || p.wait) {
			k.c.Sample("pump: %s", r.Name)
		}
	}
}
