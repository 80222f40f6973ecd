package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type work struct {
	b *ssa.BasicBlock
	p *path
}

func (a *Analysis) call(fn *ssa.Function, args, binds []Val, s *State, site ssa.Instruction) []outcome {
	if len(fn.Blocks) == 0 {
		return []outcome{{s: s}}
	}
	k := fmt.Sprintf("%p(", fn)
	for _, v := range args {
		k += vkey(v) + ","
	}
	for _, v := range binds {
		k += ";" + vkey(v)
	}
	k += ")" + s.key() + fmt.Sprintf("%p", a.root)
	if r, ok := a.memo[k]; ok {
		out := make([]outcome, len(r))
		for i, o := range r {
			out[i] = outcome{s: o.s.clone(), res: o.res, panic: o.panic}
		}
		return out
	}
	if r := a.busy[k]; r != nil {
		r.hit = true
		out := make([]outcome, len(r.outs))
		for i, o := range r.outs {
			out[i] = outcome{s: o.s.clone(), res: o.res, panic: o.panic}
		}
		return out
	}
	if len(a.stack) > 60 {
		a.note("recursion in %s is followed sixty levels deep", fn.Name())
		return nil
	}
	rec := &recursion{}
	a.busy[k] = rec
	defer delete(a.busy, k)
	// A recursive call sees the outcomes found so far, until there are no more.
	var outs []outcome
	for round := 0; ; round++ {
		before := len(a.order)
		rec.hit = false
		outs = a.body(fn, args, binds, s)
		if !rec.hit {
			break
		}
		for _, m := range a.order[before:] {
			delete(a.memo, m)
		}
		a.order = a.order[:before]
		if len(outs) == len(rec.outs) {
			break
		}
		if round == 20 {
			a.note("recursion in %s has too many outcomes", fn.Name())
			break
		}
		rec.outs = outs
	}
	a.memo[k] = outs
	a.order = append(a.order, k)
	out := make([]outcome, len(outs))
	for i, o := range outs {
		out[i] = outcome{s: o.s.clone(), res: o.res, panic: o.panic}
	}
	return out
}

type recursion struct {
	hit  bool
	outs []outcome
}

func (a *Analysis) body(fn *ssa.Function, args, binds []Val, s *State) []outcome {
	name := fn.Name()
	if fn.Parent() != nil {
		name = fn.RelString(a.Pkg.Pkg)
	}
	a.stack = append(a.stack, fmt.Sprintf("%s (%s)", name, a.Pos(fn.Pos())))
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	if fn.Synthetic == "" {
		a.Funcs[fn] = true
	}
	fr := &frame{fn: fn, args: args, binds: binds}
	seen := map[string]bool{}
	var outs []outcome
	oseen := map[string]bool{}
	finish := func(p *path, res []Val, panicked bool) {
		s := p.s
		keep := false
		for _, r := range res {
			switch r.(type) {
			case Func, Cell:
				keep = true
			}
		}
		if !keep {
			for c := range s.cells {
				if c.Parent() == fn {
					delete(s.cells, c)
				}
			}
		}
		for i, r := range res {
			if y, ok := r.(Sym); ok && y.V.Parent() == fn {
				res[i] = nil
			}
		}
		mine := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					mine[Sym{v}.key()] = true
				}
			}
		}
		for _, pr := range fn.Params {
			mine[Sym{pr}.key()] = true
		}
		for f := range s.facts {
			b := f
			if i := strings.Index(f, "=="); i >= 0 {
				b = f[:i]
			}
			if mine[b] {
				delete(s.facts, f)
			}
		}
		ok := fmt.Sprint(panicked) + s.key()
		for _, r := range res {
			ok += vkey(r)
		}
		if !oseen[ok] {
			oseen[ok] = true
			outs = append(outs, outcome{s, res, panicked})
		}
	}
	list := []work{{fn.Blocks[0], &path{s: s.clone(), env: map[ssa.Value]Val{}}}}
	for len(list) > 0 {
		w := list[len(list)-1]
		list = list[:len(list)-1]
		a.prune(fr, w.p, w.b)
		key := fmt.Sprintf("%d|%s", w.b.Index, w.p.key())
		if seen[key] {
			continue
		}
		seen[key] = true
		a.States++
		if a.States > a.budget {
			a.note("too many states: exploration ended early in %s", fn.Name())
			break
		}
		paths := []*path{w.p}
		var next []work
		for _, in := range w.b.Instrs {
			var out []*path
			stop := false
			for _, p := range paths {
				switch in := in.(type) {
				case *ssa.Phi:
					out = append(out, p) // done on the edge
				case *ssa.Return:
					res := make([]Val, len(in.Results))
					for i, r := range in.Results {
						res[i] = a.eval(fr, p, r)
					}
					finish(p, res, false)
					stop = true
				case *ssa.Panic:
					a.emit(fr, &Event{Kind: "panic", In: in, S: p.s})
					for _, q := range a.runDefers(fr, p) {
						finish(q, nil, true)
					}
					stop = true
				case *ssa.Jump:
					next = append(next, work{w.b.Succs[0], a.edge(fr, p, w.b, w.b.Succs[0])})
					stop = true
				case *ssa.If:
					t, known := a.cond(fr, p, in.Cond)
					for i, b := range w.b.Succs {
						if known && t != (i == 0) {
							continue
						}
						q := p.clone()
						if !known {
							a.learn(fr, q, in.Cond, i == 0)
						}
						a.closedEdge(fr, q, in.Cond, i == 0)
						next = append(next, work{b, a.edge(fr, q, w.b, b)})
					}
					stop = true
				default:
					out = append(out, a.step(fr, p, in, finish)...)
				}
			}
			if stop {
				break
			}
			paths = out
			if len(paths) == 0 {
				break
			}
		}
		list = append(list, next...)
	}
	return outs
}

// closedEdge notes that a receive found its channel closed.
func (a *Analysis) closedEdge(fr *frame, p *path, c ssa.Value, t bool) {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, t = u.X, !t
	}
	ex, ok := c.(*ssa.Extract)
	if !ok || t {
		return
	}
	switch r := ex.Tuple.(type) {
	case *ssa.UnOp:
		if r.Op == token.ARROW && r.CommaOk && ex.Index == 1 {
			p.s.Flags["closed"] = true
		}
	case *ssa.Select:
		if ex.Index == 1 {
			p.s.Flags["closed"] = true
		}
	}
}

func (a *Analysis) edge(fr *frame, p *path, from, to *ssa.BasicBlock) *path {
	idx := -1
	for i, b := range to.Preds {
		if b == from {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := a.eval(fr, p, ph.Edges[idx])
		if v == nil {
			// A boolean or error known from a branch stays known.
			if t, ok := a.cond(fr, p, ph.Edges[idx]); ok {
				v = Const{constant.MakeBool(t)}
			} else if k := a.symOf(fr, p, ph.Edges[idx]); k != "" {
				if isnil, ok := p.s.facts[k+"==nil"]; ok {
					if isnil {
						v = Const{}
					} else {
						v = NonNil{}
					}
				}
			}
		}
		vals = append(vals, v)
		phis = append(phis, ph)
	}
	for i, ph := range phis {
		p.forget(ph)
		if vals[i] != nil {
			if s, ok := vals[i].(Sym); ok && s.V == ssa.Value(ph) {
				continue
			}
			switch x := vals[i].(type) {
			case Const:
				if x.V != nil && x.V.Kind() != constant.Bool && loops(ph) {
					continue // counters are not followed
				}
			}
			p.env[ph] = vals[i]
		}
	}
	return p
}

func loops(ph *ssa.Phi) bool {
	b := ph.Block()
	for _, q := range b.Preds {
		if b.Dominates(q) {
			return true
		}
	}
	return false
}

func (a *Analysis) runDefers(fr *frame, p *path) []*path {
	paths := []*path{p}
	for i := len(p.defers) - 1; i >= 0; i-- {
		d := p.defers[i]
		var out []*path
		for _, q := range paths {
			for _, r := range a.invoke(fr, q, d.in, &d.in.Call, d.fn, d.args, nil) {
				out = append(out, r)
			}
		}
		paths = out
	}
	for _, q := range paths {
		q.defers = nil
	}
	return paths
}

func (a *Analysis) taintLoc(loc string, v Val) {
	u, ok := v.(User)
	if !ok {
		return
	}
	old := a.taint[loc]
	set := map[string]bool{}
	for _, o := range strings.Split(old+" "+u.Origins, " ") {
		if o != "" {
			set[o] = true
		}
	}
	var l []string
	for o := range set {
		l = append(l, o)
	}
	sort.Strings(l)
	if n := strings.Join(l, " "); n != old {
		a.taint[loc] = n
		a.changed = true
	}
}

func (a *Analysis) step(fr *frame, p *path, in ssa.Instruction, finish func(*path, []Val, bool)) []*path {
	if v, ok := in.(ssa.Value); ok {
		if _, ex := in.(*ssa.Extract); !ex {
			p.forget(v)
			if _, tup := v.Type().(*types.Tuple); tup {
				for _, r := range *v.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok {
						p.forget(ex)
					}
				}
			}
		}
	}
	one := []*path{p}
	switch in := in.(type) {
	case *ssa.Alloc:
		delete(p.s.cells, in)
		if t := in.Type().Underlying().(*types.Pointer).Elem(); t != nil {
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsBoolean != 0 {
					p.s.cells[in] = Const{constant.MakeBool(false)}
				}
			case *types.Interface, *types.Pointer, *types.Signature:
				p.s.cells[in] = Const{}
			}
		}
	case *ssa.Store:
		v := a.eval(fr, p, in.Val)
		switch addr := a.eval(fr, p, in.Addr).(type) {
		case Cell:
			if v == nil {
				switch in.Val.Type().Underlying().(type) {
				case *types.Basic, *types.Interface:
					if t, ok := a.cond(fr, p, in.Val); ok {
						v = Const{constant.MakeBool(t)}
					} else {
						v = Sym{in.Val}
					}
				}
			}
			if v == nil {
				delete(p.s.cells, addr.A)
			} else {
				p.s.cells[addr.A] = v
			}
		case Addr:
			a.taintLoc(addr.Loc, v)
			a.emit(fr, &Event{Kind: "store", In: in, S: p.s, Loc: addr.Loc, Type: in.Val.Type(), Ch: v, What: base(in.Addr)})
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			switch addr := a.eval(fr, p, in.X).(type) {
			case Cell:
				if v := p.s.cells[addr.A]; v != nil {
					p.env[in] = v
				}
			case Frozen:
				p.env[in] = addr.V
			case Addr:
				a.emit(fr, &Event{Kind: "load", In: in, S: p.s, Loc: addr.Loc, Type: in.Type(), What: base(in.X)})
			}
		case token.ARROW:
			a.emit(fr, &Event{Kind: "recv", In: in, S: p.s, Ch: a.eval(fr, p, in.X), Type: in.X.Type(), Block: true})
		}
	case *ssa.Send:
		a.emit(fr, &Event{Kind: "send", In: in, S: p.s, Ch: a.eval(fr, p, in.Chan), Type: in.Chan.Type(), Block: true})
	case *ssa.Select:
		for _, st := range in.States {
			k := "recv"
			if st.Dir == types.SendOnly {
				k = "send"
			}
			a.emit(fr, &Event{Kind: k, In: in, S: p.s, Ch: a.eval(fr, p, st.Chan), Type: st.Chan.Type(), Block: in.Blocking})
		}
		if len(in.States) == 0 && in.Blocking {
			a.emit(fr, &Event{Kind: "wait", In: in, S: p.s, What: "an empty select"})
		}
	case *ssa.MapUpdate:
		a.taintMapKey(fr, p, in)
		a.emit(fr, &Event{Kind: "mapwrite", In: in, S: p.s, Map: a.mapVal(fr, p, in.Map), Type: in.Map.Type()})
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			a.emit(fr, &Event{Kind: "mapread", In: in, S: p.s, Map: a.mapVal(fr, p, in.X), Type: in.X.Type()})
		}
	case *ssa.Range:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			a.emit(fr, &Event{Kind: "mapread", In: in, S: p.s, Map: a.mapVal(fr, p, in.X), Type: in.X.Type()})
		}
	case *ssa.Next:
		if !in.IsString {
			if r, ok := in.Iter.(*ssa.Range); ok {
				a.emit(fr, &Event{Kind: "mapread", In: in, S: p.s, Map: a.mapVal(fr, p, r.X), Type: r.X.Type()})
			}
			o := a.origin(in)
			p.s.Seen[o] = true
			p.s.Fresh[o] = true
		}
	case *ssa.Defer:
		fns, args := a.callee(fr, p, &in.Call)
		if len(p.defers) < 12 {
			p.defers = append(p.defers, deferred{in, fns, args})
		} else {
			a.note("deferred calls in a loop in %s are not followed", fr.fn.Name())
		}
	case *ssa.RunDefers:
		return a.runDefers(fr, p)
	case *ssa.Go:
		fns, args := a.callee(fr, p, &in.Call)
		a.emit(fr, &Event{Kind: "go", In: in, S: p.s})
		for _, f := range a.targets(fr, &in.Call, fns) {
			a.startGo(fr, p, in, f, args)
		}
	case *ssa.Call:
		fns, args := a.callee(fr, p, &in.Call)
		return a.invoke(fr, p, in, &in.Call, fns, args, finish)
	case *ssa.DebugRef:
	}
	return one
}

func base(v ssa.Value) string {
	if f, ok := v.(*ssa.FieldAddr); ok {
		if fresh(f.X) {
			return "fresh"
		}
	}
	return ""
}

func fresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return fresh(x.X)
	case *ssa.IndexAddr:
		return fresh(x.X)
	case *ssa.Slice:
		return fresh(x.X)
	case *ssa.ChangeType:
		return fresh(x.X)
	}
	return false
}

func (a *Analysis) mapVal(fr *frame, p *path, v ssa.Value) Val {
	if x := a.eval(fr, p, v); x != nil {
		return x
	}
	if madeMap(v) {
		return Made{v}
	}
	return nil
}

func (a *Analysis) taintMapKey(fr *frame, p *path, in *ssa.MapUpdate) {
	if IsEventChan(in.Key.Type()) {
		if _, ok := a.mapVal(fr, p, in.Map).(Made); ok {
			a.taintLoc("mapkey", a.eval(fr, p, in.Key))
		}
	}
	if IsEventChan(in.Value.Type()) {
		a.taintLoc(elemLoc(in.Value.Type()), a.eval(fr, p, in.Value))
	}
}

// goVal drops what a goroutine does not see.
func (a *Analysis) startGo(fr *frame, p *path, in ssa.Instruction, f Func, args []Val) {
	top := func(l []Val) []Val {
		out := make([]Val, len(l))
		for i, v := range l {
			switch x := v.(type) {
			case Cell:
				// The goroutine sees the variable as it is later; a variable
				// holding a channel, function or lock keeps its meaning.
				switch y := p.s.cells[x.A].(type) {
				case User, Func, Addr, From:
					out[i] = Frozen{y}
				default:
					out[i] = nil
				}
			case Sym:
			default:
				out[i] = v
			}
		}
		return out
	}
	name := f.Fn.RelString(a.Pkg.Pkg)
	a.addRoot(&Root{Name: name, Kind: "go", Fn: f.Fn, Args: top(args), Binds: top(f.Binds), Site: in})
}

// Frozen is the address of a variable of another goroutine with its value.
type Frozen struct{ V Val }

func (f Frozen) key() string { return "fz" + vkey(f.V) }

// callee evaluates the function and arguments of a call.
func (a *Analysis) callee(fr *frame, p *path, c *ssa.CallCommon) (fns []Val, args []Val) {
	for _, x := range c.Args {
		args = append(args, a.eval(fr, p, x))
	}
	if c.IsInvoke() {
		return []Val{a.eval(fr, p, c.Value)}, args
	}
	return []Val{a.eval(fr, p, c.Value)}, args
}

// targets resolves a call.
func (a *Analysis) targets(fr *frame, c *ssa.CallCommon, fns []Val) []Func {
	if c.IsInvoke() {
		var out []Func
		for _, f := range a.implementations(c) {
			out = append(out, Func{Fn: f})
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		if len(fns) > 0 {
			if x, ok := fns[0].(Func); ok {
				return []Func{x}
			}
		}
		return []Func{{Fn: f}}
	}
	var out []Func
	for _, v := range fns {
		if f, ok := v.(Func); ok {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return nil
		}
		for _, f := range a.bySignature(c.Signature()) {
			out = append(out, Func{Fn: f})
		}
	}
	return out
}

// implementations lists the package's methods an interface call may reach.
func (a *Analysis) implementations(c *ssa.CallCommon) []*ssa.Function {
	it := c.Value.Type()
	k := types.TypeString(it, nil) + "." + c.Method.Name()
	if r, ok := a.impls[k]; ok {
		return r
	}
	var out []*ssa.Function
	iface, ok := it.Underlying().(*types.Interface)
	if ok {
		var names []string
		for n := range a.Pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			tn, ok := a.Pkg.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			for _, r := range []types.Type{t, types.NewPointer(t)} {
				if !types.Implements(r, iface) {
					continue
				}
				if m := a.Prog.LookupMethod(r, c.Method.Pkg(), c.Method.Name()); m != nil {
					out = append(out, m)
				}
				break
			}
		}
	}
	a.impls[k] = out
	return out
}

// bySignature lists the package's functions used as values with a signature.
func (a *Analysis) bySignature(sig *types.Signature) []*ssa.Function {
	if a.addrs == nil {
		a.addrs = map[string][]*ssa.Function{}
		var all []*ssa.Function
		for f := range ssautil.AllFunctions(a.Prog) {
			if f.Pkg == a.Pkg || f.Pkg == nil && ours(a.Pkg, f) {
				all = append(all, f)
			}
		}
		used := map[*ssa.Function]bool{}
		for _, f := range all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						switch x := (*op).(type) {
						case *ssa.Function:
							if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(x) {
								continue
							}
							used[x] = true
						case *ssa.MakeClosure:
							used[x.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		}
		for f := range used {
			if f.Pkg == a.Pkg || f.Parent() != nil || strings.HasSuffix(f.Name(), "$bound") {
				k := sigKey(f.Signature)
				a.addrs[k] = append(a.addrs[k], f)
			}
		}
		for k := range a.addrs {
			l := a.addrs[k]
			sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
		}
	}
	return a.addrs[sigKey(sig)]
}

func sigKey(s *types.Signature) string {
	var sb strings.Builder
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < t.Len(); i++ {
			sb.WriteString(types.TypeString(t.At(i).Type(), nil))
			sb.WriteByte(',')
		}
		sb.WriteByte(';')
	}
	return fmt.Sprint(sb.String(), s.Variadic())
}

// lockOp recognises the operations of sync's locks.
func (a *Analysis) lockOp(c *ssa.CallCommon, fns, args []Val) (op string, lock Val, ok bool) {
	if c.IsInvoke() {
		n := c.Method.Name()
		if n != "Lock" && n != "Unlock" {
			return
		}
		if !strings.HasSuffix(types.TypeString(c.Value.Type(), nil), "sync.Locker") {
			return
		}
		v := fns[0]
		if r, isr := v.(RLocker); isr {
			if n == "Lock" {
				return "RLock", r.L, true
			}
			return "RUnlock", r.L, true
		}
		return n, v, true
	}
	f := c.StaticCallee()
	if f == nil {
		return
	}
	var recv types.Type
	if f.Signature.Recv() != nil {
		recv = f.Signature.Recv().Type()
	}
	if strings.HasSuffix(f.Name(), "$bound") && len(f.FreeVars) == 1 {
		recv = f.FreeVars[0].Type()
	}
	if recv == nil {
		return
	}
	t := types.TypeString(recv, nil)
	if t != "*sync.Mutex" && t != "*sync.RWMutex" {
		return
	}
	n := strings.TrimSuffix(f.Name(), "$bound")
	switch n {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		var l Val
		if len(args) > 0 {
			l = args[0]
		} else if len(fns) > 0 {
			if fv, isf := fns[0].(Func); isf && len(fv.Binds) == 1 {
				l = fv.Binds[0]
			}
		}
		return n, l, true
	}
	return
}

func lockName(v Val) string {
	switch x := v.(type) {
	case Addr:
		return x.Loc
	case Cell:
		return "local lock"
	case Frozen:
		return lockName(x.V)
	case From:
		return x.Loc
	}
	return ""
}

func (a *Analysis) doLock(fr *frame, p *path, in ssa.Instruction, op, name string) {
	s := p.s
	switch op {
	case "Lock", "RLock":
		mode := "W"
		if op == "RLock" {
			mode = "R"
		}
		a.emit(fr, &Event{Kind: "lock", In: in, S: s, Loc: name, Mode: mode})
		if mode == "W" {
			s.Held[name] = -1
		} else if s.Held[name] >= 0 && s.Held[name] < 2 {
			s.Held[name]++
		}
		s.At[name] = a.InPos(in)
	case "Unlock", "RUnlock":
		mode := "W"
		if op == "RUnlock" {
			mode = "R"
		}
		a.emit(fr, &Event{Kind: "unlock", In: in, S: s, Loc: name, Mode: mode})
		if mode == "R" && s.Held[name] > 1 {
			s.Held[name]--
		} else {
			delete(s.Held, name)
			delete(s.At, name)
			s.Fresh = map[string]bool{}
		}
	}
}

// invoke performs a call and gives the paths after it.
func (a *Analysis) invoke(fr *frame, p *path, in ssa.Instruction, c *ssa.CallCommon, fns, args []Val, finish func(*path, []Val, bool)) []*path {
	val, _ := in.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "close":
			a.emit(fr, &Event{Kind: "close", In: in, S: p.s, Ch: args[0], Type: c.Args[0].Type()})
			p.s.Flags["close:"+vkey(chanID(args[0]))] = true
		case "delete":
			a.emit(fr, &Event{Kind: "mapwrite", In: in, S: p.s, Map: a.mapVal(fr, p, c.Args[0]), Type: c.Args[0].Type()})
		case "clear":
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				a.emit(fr, &Event{Kind: "mapwrite", In: in, S: p.s, Map: a.mapVal(fr, p, c.Args[0]), Type: c.Args[0].Type()})
			}
		case "len":
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				a.emit(fr, &Event{Kind: "mapread", In: in, S: p.s, Map: a.mapVal(fr, p, c.Args[0]), Type: c.Args[0].Type()})
			}
		case "recover":
			a.note("recover in %s is not followed", fr.fn.Name())
		}
		return []*path{p}
	}
	if op, l, ok := a.lockOp(c, fns, args); ok {
		name := lockName(l)
		if name == "" {
			a.note("%s: it is not known which lock this is", a.InPos(in))
			return []*path{p}
		}
		if op == "TryLock" || op == "TryRLock" {
			q := p.clone()
			a.doLock(fr, q, in, strings.TrimPrefix(op, "Try"), name)
			if val != nil {
				p.env[val] = Const{constant.MakeBool(false)}
				q.env[val] = Const{constant.MakeBool(true)}
			}
			return []*path{p, q}
		}
		a.doLock(fr, p, in, op, name)
		return []*path{p}
	}
	var targets []Func
	name := ""
	if c.IsInvoke() {
		name = structName(c.Value.Type()) + "." + c.Method.Name()
		a.emit(fr, &Event{Kind: "invoke", In: in, S: p.s, Call: name, Args: args, Type: c.Value.Type()})
		targets = a.targets(fr, c, fns)
		recv := fns[0]
		args = append([]Val{recv}, args...)
		p.s.Flags["invoked:"+c.Method.Name()+":"+structName(c.Value.Type())] = true
	} else {
		targets = a.targets(fr, c, fns)
		if f := c.StaticCallee(); f != nil {
			name = f.String()
			a.emit(fr, &Event{Kind: "call", In: in, S: p.s, Call: name, Args: args})
			if strings.HasSuffix(name, ").RLocker") && val != nil && len(args) > 0 {
				p.env[val] = RLocker{args[0]}
				return []*path{p}
			}
			if f.Pkg != a.Pkg && f.Parent() == nil && !ours(a.Pkg, f) {
				return a.external(fr, p, in, c, name, args, val)
			}
		}
	}
	if len(targets) == 0 {
		if !c.IsInvoke() {
			a.note("%s: it is not known which function is called", a.InPos(in))
		}
		return []*path{p}
	}
	var out []*path
	for _, f := range targets {
		if len(f.Fn.Blocks) == 0 || (f.Fn.Pkg != a.Pkg && !ours(a.Pkg, f.Fn)) {
			out = append(out, a.external(fr, p.clone(), in, c, f.Fn.String(), args, val)...)
			continue
		}
		sub, cells, facts := a.project(p.s, append(append([]Val(nil), args...), f.Binds...))
		for _, o := range a.call(f.Fn, args, f.Binds, sub, in) {
			q := p.clone()
			q.s = o.s
			for c, v := range cells {
				q.s.cells[c] = v
			}
			for f, v := range facts {
				q.s.facts[f] = v
			}
			if o.panic {
				if finish != nil {
					for _, r := range a.runDefers(fr, q) {
						finish(r, nil, true)
					}
				} else {
					out = append(out, q)
				}
				continue
			}
			if val != nil && len(o.res) == 1 && o.res[0] != nil {
				q.env[val] = o.res[0]
			}
			if val != nil && len(o.res) > 1 {
				for _, r := range *val.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && o.res[ex.Index] != nil {
						q.env[ex] = o.res[ex.Index]
					}
				}
			}
			out = append(out, q)
		}
	}
	return out
}

// ours tells whether a function is synthesised for the package (wrappers,
// bound methods) and so has to be followed.
func ours(pkg *ssa.Package, f *ssa.Function) bool {
	if f.Pkg == pkg {
		return true
	}
	if f.Synthetic == "" {
		return false
	}
	if o := f.Object(); o != nil && o.Pkg() == pkg.Pkg {
		return true
	}
	for _, v := range f.FreeVars {
		if strings.Contains(types.TypeString(v.Type(), nil), pkg.Pkg.Path()) {
			return true
		}
	}
	if r := f.Signature.Recv(); r != nil && strings.Contains(types.TypeString(r.Type(), nil), pkg.Pkg.Path()) {
		return true
	}
	return false
}

func chanID(v Val) Val {
	if f, ok := v.(Frozen); ok {
		return f.V
	}
	return v
}

// external models a call out of the package: functions handed to it may be
// called any number of times, in place or in a goroutine of their own.
func (a *Analysis) external(fr *frame, p *path, in ssa.Instruction, c *ssa.CallCommon, name string, args []Val, val ssa.Value) []*path {
	switch name {
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
		a.emit(fr, &Event{Kind: "wait", In: in, S: p.s, What: name, Call: name})
		p.s.Flags["waited"] = true
		return []*path{p}
	case "golang.org/x/sys/unix.EpollWait", "syscall.EpollWait", "syscall.GetQueuedCompletionStatus", "golang.org/x/sys/unix.Poll", "golang.org/x/sys/unix.Select":
		a.emit(fr, &Event{Kind: "wait", In: in, S: p.s, What: name, Call: name})
		return []*path{p}
	case "(*sync.WaitGroup).Done":
		a.emit(fr, &Event{Kind: "done", In: in, S: p.s})
		p.s.Flags["done"] = true
		return []*path{p}
	case "runtime.SetFinalizer":
		if len(args) > 1 {
			if f, ok := args[1].(Func); ok {
				a.addRoot(&Root{Name: f.Fn.RelString(a.Pkg.Pkg), Kind: "finalizer", Fn: f.Fn, Args: make([]Val, len(f.Fn.Params)), Binds: f.Binds, Site: in})
			}
		}
		return []*path{p}
	case "time.AfterFunc":
		if len(args) > 1 {
			if f, ok := args[1].(Func); ok {
				a.startGo(fr, p, in, f, nil)
			}
		}
		return []*path{p}
	}
	paths := []*path{p}
	for _, v := range args {
		f, ok := v.(Func)
		if !ok || len(f.Fn.Blocks) == 0 {
			continue
		}
		seen := map[string]bool{}
		var out []*path
		list := paths
		for n := 0; n < 4 && len(list) > 0; n++ {
			var next []*path
			for _, q := range list {
				k := q.key()
				if seen[k] {
					continue
				}
				seen[k] = true
				out = append(out, q)
				for _, o := range a.call(f.Fn, make([]Val, len(f.Fn.Params)), f.Binds, q.s, in) {
					if o.panic {
						continue
					}
					r := q.clone()
					r.s = o.s
					next = append(next, r)
				}
			}
			list = next
		}
		paths = out
	}
	return paths
}
