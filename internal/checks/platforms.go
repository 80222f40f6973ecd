package checks

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
	"notifysa/internal/load"
)

func init() {
	register("C12", checkEvents)
	register("C21", checkPlatforms)
}

// eachPlatform loads the supported configurations, several at a time.
func (c *Ctx) eachPlatform(only func(pl platform) bool, do func(pl platform, p *load.Program, err error)) {
	type res struct {
		p   *load.Program
		err error
	}
	rs := make([]res, len(platforms))
	sem := make(chan bool, 4)
	var wg sync.WaitGroup
	for i := range platforms {
		if only != nil && !only(platforms[i]) {
			continue
		}
		if p, ok := c.progs[platforms[i].Name]; ok && p != nil {
			rs[i].p = p
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cfg := platforms[i].Config
			if platforms[i].c {
				o, err := withoutC(c.Repo, cfg.GOOS)
				if err != nil {
					rs[i].err = err
					return
				}
				cfg.Overlay = o
			}
			rs[i].p, rs[i].err = load.Load(c.Repo, cfg)
		}(i)
	}
	wg.Wait()
	for i, pl := range platforms {
		if only != nil && !only(pl) {
			continue
		}
		if rs[i].err == nil && rs[i].p != nil {
			c.progs[pl.Name] = rs[i].p
		}
		do(pl, rs[i].p, rs[i].err)
	}
}

// standIn tells whether every error is about the stand-ins for C.
func standIn(p *load.Program) bool {
	if p == nil || len(p.Errors) == 0 {
		return false
	}
	for _, e := range p.Errors {
		if !strings.Contains(e, "_C_") && !strings.Contains(e, "zz_c_standins_") {
			return false
		}
	}
	return true
}

// checkPlatforms decides C21.
func checkPlatforms(c *Ctx) {
	c.R.Cov["explanation"] = "Every supported build configuration is resolved and type-checked from source; the watcher its newWatcher returns, and the tree built on it, are read off the type-checked program. The C parts of FSEvents and FEN are replaced by declarations of the C functions they use."
	c.Assume("The C declarations used by the FSEvents and FEN backends are as in the stand-ins; only the Go side of these is type-checked.")
	var names []string
	c.eachPlatform(nil, func(pl platform, p *load.Program, err error) {
		names = append(names, pl.Name)
		c.Oblige(1)
		if err != nil {
			if standIn(p) {
				c.Fail("undecided", pl.Name, "", "the stand-ins for C do not fit: %v", err)
				return
			}
			pos := ""
			if p != nil && len(p.Errors) > 0 {
				pos = strings.TrimPrefix(p.Errors[0], c.Repo+"/")
				if i := strings.Index(pos, ": "); i > 0 {
					pos = pos[:i]
				}
			}
			c.Fail("platform/build", pl.Name, pos, "the package does not build for %s: %v", pl.Name, err)
			return
		}
		c.watcherOf(pl, p)
		c.Sample("%s: %s", pl.Name, strings.Join(p.Files, " "))
	})
	c.R.Cov["configurations"] = names
	c.constraints()
}

// concrete lists the types of the values a function may return in an interface.
func concrete(f *ssa.Function, res int) (ts []types.Type, open bool) {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			ts = append(ts, x.X.Type())
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g.Pkg == f.Pkg && len(g.Blocks) > 0 {
				t, o := concrete(g, 0)
				ts = append(ts, t...)
				open = open || o
				return
			}
			open = true
		case *ssa.Const:
		default:
			open = true
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(r.Results) {
			visit(r.Results[res])
		}
	}
	return
}

func ifaceOf(p *load.Program, name string) *types.Interface {
	if t, ok := p.Pkg.Members[name].(*ssa.Type); ok {
		i, _ := t.Type().Underlying().(*types.Interface)
		return i
	}
	return nil
}

func (c *Ctx) watcherOf(pl platform, p *load.Program) {
	nw := p.Pkg.Func("newWatcher")
	wi, ri := ifaceOf(p, "watcher"), ifaceOf(p, "recursiveWatcher")
	if nw == nil || wi == nil || ri == nil {
		c.Fail("resolve", pl.Name, "", "newWatcher, watcher or recursiveWatcher not found")
		return
	}
	for n := range pl.natives {
		c.Oblige(1)
		if _, ok := p.Pkg.Pkg.Scope().Lookup(n).(*types.Const); !ok {
			c.Fail("platform/events", pl.Name+": "+n, "", "the documented event %s is not declared", n)
		}
	}
	ts, open := concrete(nw, 0)
	if open || len(ts) == 0 {
		c.Fail("undecided", pl.Name, PosOf(p, nw), "the type of the watcher is not known")
		return
	}
	stub := false
	for _, t := range ts {
		c.Oblige(2)
		name := tname(t)
		if strings.Contains(name, "Stub") || name == "watcherStub" {
			stub = true
		}
		if !types.Implements(t, wi) {
			c.Fail("platform/watcher", pl.Name+": "+name, PosOf(p, nw), "%s does not implement watcher", name)
		}
		has := 0
		for i := 0; i < ri.NumMethods(); i++ {
			if o, _, _ := types.LookupFieldOrMethod(t, true, p.Pkg.Pkg, ri.Method(i).Name()); o != nil {
				if _, ok := o.(*types.Func); ok {
					has++
				}
			}
		}
		rec := types.Implements(t, ri)
		if has > 0 && !rec {
			c.Fail("platform/recursive", pl.Name+": "+name, PosOf(p, nw), "%s has some methods of recursiveWatcher but does not implement it: the recursive tree would not be used", name)
		}
		if (pl.backend == "fsevents" || pl.backend == "readdcw") && has == 0 && !stub {
			c.Fail("platform/recursive", pl.Name+": "+name, PosOf(p, nw), "%s cannot watch recursively although its system can", name)
		}
		c.treeOf(pl, p, t, rec)
	}
	if stub != (pl.backend == "stub") && pl.backend != "fen" {
		if pl.backend == "stub" {
			c.Fail("platform/backend", pl.Name, PosOf(p, nw), "an unsupported platform has a watcher of its own: %s", tname(ts[0]))
		} else if len(ts) == 1 {
			c.Fail("platform/backend", pl.Name, PosOf(p, nw), "the watcher of a supported platform is the stub")
		}
	}
}

// treeOf interprets newTree with a watcher of a given type.
func (c *Ctx) treeOf(pl platform, p *load.Program, t types.Type, rec bool) {
	nt, nw := p.Pkg.Func("newTree"), p.Pkg.Func("newWatcher")
	nr, nn := p.Pkg.Func("newRecursiveTree"), p.Pkg.Func("newNonrecursiveTree")
	if nt == nil || nr == nil || nn == nil {
		c.Fail("resolve", pl.Name, "", "newTree or a tree constructor not found")
		return
	}
	name := pl.Name + ": newTree over " + tname(t)
	ends := 0
	c.Scenario(p, name, nil, func(m *absint.Machine, s *absint.State) {
		ends = 0
		c.Oblige(3)
		fail := c.pipeFail(name)
		m.H.Go = noteGo
		m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
			fail(s, "platform/tree", pl.Name, "newTree can panic: %s", why)
		}
		m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
			switch ci.Fn {
			case nil:
			case nw:
				s.Ghost["events"] = ci.Args[0]
				w := absint.VIface{T: t, V: s.Opq("watcher", true, true)}
				s.Ghost["watcher"] = w
				return []absint.Outcome{{S: s, V: w}}, true
			case nr, nn:
				kind := "per-directory tree"
				if ci.Fn == nr {
					kind = "recursive tree"
				}
				if s.Ghost["made"] != nil {
					fail(s, "platform/tree", pl.Name, "newTree makes two trees")
				}
				s.Ghost["made"] = absint.Str(kind)
				if len(ci.Args) < 2 || s.Ghost["events"] == nil || absint.Key(ci.Args[1]) != absint.Key(s.Ghost["events"]) {
					fail(s, "platform/tree", pl.Name, "the tree does not read the channel the watcher sends on")
				}
				if ci.Fn == nn && len(ci.Args) > 2 && absint.Key(ci.Args[1]) == absint.Key(ci.Args[2]) {
					fail(s, "platform/tree", pl.Name, "the channel for new directories is the channel of the watcher: each of two goroutines takes some of its events")
				}
				if rec && ci.Fn == nn {
					fail(s, "platform/tree", pl.Name, "the per-directory tree is used although %s can watch recursively", tname(t))
				}
				r := s.Opq("tree", true, true)
				s.Ghost["result"] = r
				return []absint.Outcome{{S: s, V: r}}, true
			}
			return nil, false
		}
		for _, o := range m.Eval(s, nt, nil, nil) {
			ends++
			v := o.V
			if i, ok := v.(absint.VIface); ok {
				v = i.V
			}
			if o.S.Ghost["made"] == nil || absint.Key(v) != absint.Key(o.S.Ghost["result"]) {
				fail(o.S, "platform/tree", pl.Name, "newTree does not return the tree it makes")
			}
		}
	})
	if ends == 0 {
		c.Fail("platform/vacuous", pl.Name, PosOf(p, nt), "newTree does not return")
	}
}

// constraints compares the two forms of build constraints of every file.
func (c *Ctx) constraints() {
	files, _ := filepath.Glob(filepath.Join(c.Repo, "*.go"))
	old := goBefore117(c.Repo)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var gb constraint.Expr
		var pb constraint.Expr
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "package ") {
				break
			}
			if constraint.IsGoBuild(l) {
				gb, _ = constraint.Parse(l)
			} else if constraint.IsPlusBuild(l) {
				if x, err := constraint.Parse(l); err == nil {
					if pb == nil {
						pb = x
					} else {
						pb = &constraint.AndExpr{X: pb, Y: x}
					}
				}
			}
		}
		if gb == nil || pb == nil || !old {
			continue
		}
		c.Oblige(1)
		tags := map[string]bool{}
		collectTags(gb, tags)
		collectTags(pb, tags)
		var l []string
		for t := range tags {
			l = append(l, t)
		}
		sort.Strings(l)
		if len(l) > 20 {
			c.Fail("undecided", filepath.Base(f), "", "too many build tags")
			continue
		}
		for m := 0; m < 1<<uint(len(l)); m++ {
			ok := func(t string) bool {
				for i, x := range l {
					if x == t {
						return m>>uint(i)&1 == 1
					}
				}
				return false
			}
			if gb.Eval(ok) != pb.Eval(ok) {
				var on []string
				for _, t := range l {
					if ok(t) {
						on = append(on, t)
					}
				}
				c.Fail("platform/constraints", filepath.Base(f), filepath.Base(f), "//go:build and // +build select the file differently with tags %v: which backend is built depends on the version of Go", on)
				break
			}
		}
	}
}

// goBefore117 tells whether go.mod admits versions of Go that read // +build.
func goBefore117(repo string) bool {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			var maj, min int
			fmt.Sscanf(f[1], "%d.%d", &maj, &min)
			return maj == 1 && min < 17
		}
	}
	return false
}

func collectTags(e constraint.Expr, m map[string]bool) {
	switch x := e.(type) {
	case *constraint.TagExpr:
		m[x.Tag] = true
	case *constraint.NotExpr:
		collectTags(x.X, m)
	case *constraint.AndExpr:
		collectTags(x.X, m)
		collectTags(x.Y, m)
	case *constraint.OrExpr:
		collectTags(x.X, m)
		collectTags(x.Y, m)
	}
}

// checkEvents decides C12.
func checkEvents(c *Ctx) {
	c.R.Cov["explanation"] = "The event constants and the name tables of every supported configuration are read off the type-checked program and compared as bit sets; String is interpreted over tables with symbolic entries."
	c.Assume("The documented values of the platforms' own events are as in the table of the check (inotify(7), kqueue(2), FSEvents.h, port_associate(3C), ReadDirectoryChangesW).")
	var names []string
	c.eachPlatform(nil, func(pl platform, p *load.Program, err error) {
		if err != nil {
			c.Fail("resolve", "configuration "+pl.Name, "", "%v", err)
			return
		}
		names = append(names, pl.Name)
		c.eventTable(pl, p)
	})
	c.R.Cov["configurations"] = names
	if p := c.Load(Linux); p != nil {
		c.eventString(p)
	}
}

func constUint(o types.Object) (uint32, bool) {
	k, ok := o.(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Uint64Val(constant.ToInt(k.Val()))
	return uint32(v), ok && v <= 0xffffffff
}

func (c *Ctx) eventTable(pl platform, p *load.Program) {
	sc := p.Pkg.Pkg.Scope()
	pos := func(n string) string {
		if o := sc.Lookup(n); o != nil {
			q := p.Prog.Fset.Position(o.Pos())
			return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
		}
		return ""
	}
	fail := func(rule, n, format string, a ...interface{}) {
		c.Fail("events/"+rule, pl.Name+": "+n, pos(n), format, a...)
	}
	val := func(n string) (uint32, bool) {
		o := sc.Lookup(n)
		if o == nil {
			return 0, false
		}
		return constUint(o)
	}
	single := func(v uint32) bool { return v != 0 && v&(v-1) == 0 }
	portable := []string{"Create", "Remove", "Write", "Rename"}
	vals := map[string]uint32{}
	var union uint32
	for _, n := range portable {
		v, ok := val(n)
		if !ok {
			c.Fail("resolve", pl.Name+": "+n, "", "no constant %s", n)
			return
		}
		c.Oblige(2)
		if !single(v) {
			fail("portable", n, "%s is %#x: not a single bit", n, v)
		}
		if union&v != 0 {
			fail("portable", n, "%s (%#x) shares bits with another portable event", n, v)
		}
		union |= v
		vals[n] = v
	}
	c.Oblige(1)
	if v, ok := val("All"); ok && v != union {
		fail("all", "All", "All is %#x, not the union of the portable events (%#x)", v, union)
	}
	alias := map[string]bool{}
	for _, n := range pl.alias {
		alias[n] = true
	}
	// native events: every exported constant of type Event
	var natives []string
	ev := sc.Lookup("Event")
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if _, known := pl.natives[n]; known {
			natives = append(natives, n)
			continue
		}
		if !o.Exported() || n == "All" || vals[n] != 0 {
			continue
		}
		if k, ok := o.(*types.Const); ok && ev != nil && types.Identical(k.Type(), ev.Type()) {
			natives = append(natives, n)
		}
	}
	var nunion uint32
	for _, n := range natives {
		v, ok := val(n)
		if !ok {
			continue
		}
		c.Oblige(3)
		if w, known := pl.natives[n]; known && v != w {
			fail("value", n, "%s is %#x, the system's value is %#x", n, v, w)
		}
		if v == 0 {
			fail("native", n, "%s is empty", n)
		}
		for _, q := range natives {
			if x, _ := val(q); q < n && x&v != 0 {
				fail("native", n, "%s (%#x) shares bits with %s (%#x)", n, v, q, x)
			}
		}
		if alias[n] {
			if v&union == 0 {
				fail("native", n, "%s is not the portable event it stands for", n)
			}
			continue
		}
		if v&union != 0 {
			fail("native", n, "%s (%#x) shares bits with the portable events", n, v)
		}
		nunion |= v
	}
	// internal markers
	var used uint32
	for _, n := range []string{"recursive", "omit", "dirmarker"} {
		v, ok := val(n)
		if !ok {
			continue
		}
		c.Oblige(3)
		if !single(v) {
			fail("internal", n, "%s is %#x: not a single bit", n, v)
		}
		if v&(union|nunion) != 0 {
			fail("internal", n, "the internal marker %s (%#x) is part of a public event", n, v)
		}
		if v&used != 0 {
			fail("internal", n, "the internal marker %s shares its bit with another", n)
		}
		used |= v
		vals[n] = v
	}
	if v, ok := val("internal"); ok {
		c.Oblige(1)
		if v != vals["recursive"]|vals["omit"] {
			fail("internal", "internal", "internal is %#x, not recursive and omit", v)
		}
	}
	if v, ok := val("fileActionAll"); ok {
		c.Oblige(1)
		var u uint32
		for _, n := range natives {
			if x, _ := val(n); strings.HasPrefix(n, "FileAction") {
				u |= x
			}
		}
		if u != v {
			fail("all", "fileActionAll", "fileActionAll is %#x, the union of its events %#x", v, u)
		}
	}
	if v, ok := val("fileNotifyChangeAll"); ok {
		c.Oblige(1)
		var u uint32
		for n := range pl.natives {
			if x, _ := val(n); strings.HasPrefix(n, "FileNotifyChange") {
				u |= x
			}
		}
		if u&^v != 0 {
			fail("all", "fileNotifyChangeAll", "fileNotifyChangeAll is %#x and lacks %#x", v, u&^v)
		}
	}
	// names
	type row struct {
		val  uint32
		name string
		pos  string
	}
	tables := map[string][]row{}
	found := map[string]bool{}
	for _, f := range p.Syntax() {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, id := range vs.Names {
					if id.Name != "estr" && id.Name != "osestr" || i >= len(vs.Values) {
						continue
					}
					cl, ok := vs.Values[i].(*ast.CompositeLit)
					if !ok {
						continue
					}
					found[id.Name] = true
					for _, e := range cl.Elts {
						kv, ok := e.(*ast.KeyValueExpr)
						if !ok {
							continue
						}
						k, v := p.P.TypesInfo.Types[kv.Key].Value, p.P.TypesInfo.Types[kv.Value].Value
						if k == nil || v == nil || v.Kind() != constant.String {
							found[id.Name] = false
							continue
						}
						u, _ := constant.Uint64Val(constant.ToInt(k))
						q := p.Prog.Fset.Position(kv.Pos())
						tables[id.Name] = append(tables[id.Name], row{uint32(u), constant.StringVal(v), fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)})
					}
				}
			}
		}
	}
	if !found["estr"] || !found["osestr"] {
		c.Fail("undecided", pl.Name, "", "the tables of event names are not constant maps")
		return
	}
	rows := append(append([]row(nil), tables["estr"]...), tables["osestr"]...)
	seen := map[string]bool{}
	byVal := map[uint32]string{}
	for _, r := range rows {
		c.Oblige(3)
		if r.val == 0 {
			c.Fail("events/name", pl.Name+": "+r.name, r.pos, "the empty event has a name: every event prints it")
		}
		if seen[r.name] {
			c.Fail("events/name", pl.Name+": "+r.name, r.pos, "two events print as %s", r.name)
		}
		seen[r.name] = true
		if o, dup := byVal[r.val]; dup {
			c.Fail("events/name", pl.Name+": "+r.name, r.pos, "an event prints as both %s and %s", o, r.name)
		}
		byVal[r.val] = r.name
		if strings.HasPrefix(r.name, "notify.") {
			v, ok := val(strings.TrimPrefix(r.name, "notify."))
			if !ok || v != r.val {
				c.Fail("events/name", pl.Name+": "+r.name, r.pos, "the event %#x prints as %s, which it is not", r.val, r.name)
			}
		} else if r.val&(union|nunion) != 0 {
			c.Fail("events/name", pl.Name+": "+r.name, r.pos, "a public event prints as %s", r.name)
		}
	}
	for _, n := range append(append([]string(nil), portable...), natives...) {
		if alias[n] {
			continue
		}
		c.Oblige(1)
		v, _ := val(n)
		if byVal[v] != "notify."+n {
			fail("name", n, "%s has no name of its own when printed", n)
		}
	}
	c.Sample("%s: %d portable, %d native, %d internal, %d names", pl.Name, len(portable), len(natives), len(used2(used)), len(rows))
}

func used2(v uint32) []int {
	var l []int
	for i := 0; i < 32; i++ {
		if v>>uint(i)&1 == 1 {
			l = append(l, i)
		}
	}
	return l
}

// eventString interprets Event.String over tables of symbolic events.
func (c *Ctx) eventString(p *load.Program) {
	t, ok := p.Pkg.Members["Event"].(*ssa.Type)
	if !ok {
		c.Fail("resolve", "Event", "", "no type Event")
		return
	}
	fn := p.Prog.LookupMethod(t.Type(), p.Pkg.Pkg, "String")
	ge, _ := p.Pkg.Members["estr"].(*ssa.Global)
	go_, _ := p.Pkg.Members["osestr"].(*ssa.Global)
	if fn == nil || ge == nil || go_ == nil {
		c.Fail("resolve", "Event.String", "", "method or tables not found")
		return
	}
	name := "Event.String"
	ends := 0
	c.Scenario(p, name, nil, func(m *absint.Machine, s *absint.State) {
		ends = 0
		fail := c.pipeFail(name)
		e := s.SetVar("event")
		s.Ghost["event"] = absint.BVal(e)
		for gi, g := range []*ssa.Global{ge, go_} {
			mt := g.Type().Underlying().(*types.Pointer).Elem()
			mo := &absint.Obj{Kind: 'm', Typ: mt, Label: g.Name()}
			for i := 0; i < 2; i++ {
				k := s.SetVar(fmt.Sprintf("key%d%d", gi, i))
				s.AssumeNonzero(k)
				nm := fmt.Sprintf("name%d%d", gi, i)
				s.Ghost[nm] = absint.BVal(k)
				mo.Ent = append(mo.Ent, absint.MapEnt{K: absint.BVal(k), V: absint.Str(nm)})
			}
			m.SetGlobal(s, g, absint.VMap{Obj: s.New(mo)})
		}
		m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
			fail(s, "events/string", name, "String can panic: %s", why)
		}
		for _, o := range m.Eval(s, fn, []absint.Val{absint.BVal(e)}, nil) {
			ends++
			str, ok := o.V.(absint.VStr)
			if !ok || str.T.Op != "const" {
				c.Fail("undecided", name, PosOf(p, fn), "the result is not known: %s", absint.Show(o.V))
				continue
			}
			parts := map[string]int{}
			for _, x := range strings.Split(str.T.S, "|") {
				if x != "" {
					parts[x]++
				}
			}
			for _, n := range []string{"name00", "name01", "name10", "name11"} {
				c.Oblige(1)
				k := o.S.BVOf(o.S.Ghost[n])
				ev := o.S.BVOf(o.S.Ghost["event"])
				switch {
				case parts[n] > 1:
					fail(o.S, "events/string", name, "an event's name is printed twice")
				case parts[n] == 1 && !o.S.SubSet(k, ev):
					fail(o.S, "events/string", name, "a set prints the name of an event that is not in it")
				case parts[n] == 0 && !o.S.IsNonzero(k.AndNot(ev)):
					fail(o.S, "events/string", name, "a set does not print the name of an event in it")
				}
				delete(parts, n)
			}
			if len(parts) > 0 {
				fail(o.S, "events/string", name, "a set prints something other than its events' names: %q", str.T.S)
			}
		}
	})
	if ends == 0 {
		c.Fail("events/vacuous", name, PosOf(p, fn), "String does not return")
	}
	c.Count("scenarios", 1)
	c.Sample("%s: %d end states over tables of two symbolic events each", name, ends)
}
