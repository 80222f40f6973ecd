package checks

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
	"notifysa/internal/load"
)

func init() {
	register("C11", checkMapping)
	register("C13", checkParse)
	register("C24", checkEventInfo)
}

// record is one abstract kernel record.
type record struct {
	second bool   // its descriptor is that of the second watched path
	known  bool   // its descriptor is in the table
	bit    uint32 // the kernel event it reports
	flags  bool   // may carry IN_ISDIR
	named  bool   // has a name
}

// pipe follows records from the kernel buffer to the event channel.
type pipe struct {
	c       *Ctx
	n       *names
	p       *load.Program
	name    string
	recs    []record
	request func(s *absint.State) absint.BV // nil: symbolic
	rewatch bool
	two     bool // a second path is watched, too
	root    bool // the watched path is the root directory
	again   bool // the buffer is read twice
	rule    string
	fail    func(s *absint.State, rule, construct, format string, a ...interface{})
	// results
	delivered func(m *absint.Machine, s *absint.State, out []absint.Val)
	ends      int
}

func (pp *pipe) recVal(s *absint.State, i int) (pos absint.Lin, wd, mask, cookie, ln absint.Val) {
	g := func(k string) absint.Val { return s.Ghost[fmt.Sprintf("rec%d.%s", i, k)] }
	pos, _ = absint.LinOf(g("pos"))
	return pos, g("wd"), g("mask"), g("cookie"), g("len")
}

const recHdr = 16

// run interprets newWatcher, Watch, the reader and a consumer for the records.
func (pp *pipe) run(m *absint.Machine, s *absint.State) {
	n, p := pp.n, pp.p
	pp.ends = 0
	m.BitName = n.bitName
	m.WidenAfter = len(pp.recs) + 4
	ch := s.Opq("events", true, true)
	s.Ghost["events"] = ch
	s.Ghost["nout"] = absint.Num(0)
	s.Ghost["parsed"] = absint.Num(0)
	s.Ghost["stage"] = absint.Str("setup")
	path := absint.VStr{T: s.Sym("watched")}
	if pp.root {
		path = absint.Str("/")
	}
	s.Ghost["path"] = path
	e := s.SetVar("requested")
	if pp.request != nil {
		s.AssumeZero(e.Xor(pp.request(s)))
	} else {
		s.AssumeSub(e, s.Const(0xfff|n.create|n.remove|n.write|n.rename))
		s.AssumeNonzero(e)
	}
	s.Ghost["e"] = absint.BVal(e)
	ievt := p.Prog.ImportedPackage("golang.org/x/sys/unix").Type("InotifyEvent").Type()

	stage := func(s *absint.State) string { return s.Ghost["stage"].(absint.VStr).T.S }
	k := &inoKernel{p: p}
	other := absint.VStr{T: s.Sym("other")}
	s.Ghost["other"] = other
	k.wd = func(s *absint.State, path absint.Val) int64 {
		if absint.Key(path) == absint.Key(s.Ghost["other"]) {
			return 2
		}
		return 1
	}
	k.call = func(s *absint.State, ci *absint.CallInfo, name string, args []absint.Val) {
		switch name {
		case "Close":
			pp.fail(s, "pump/ends", "goroutine", "the reader closes a descriptor although nothing asked it to end")
			s.Kill()
		}
	}
	k.wait = func(m *absint.Machine, s *absint.State, ev absint.Val) []absint.Outcome {
		if stage(s) == "probe" {
			s.Ghost["stage"] = absint.Str("read")
		} else if stage(s) != "read" || s.Ghost["waited"] != nil {
			s.Kill()
			return nil
		}
		s.Ghost["waited"] = absint.BoolOf(true)
		et := p.Prog.ImportedPackage("golang.org/x/sys/unix").Type("EpollEvent").Type()
		old := s.SeqLoad(ev, 0)
		nv := setField(et, old, "Fd", absint.Num(fdInotify))
		nv = setField(et, nv, "Events", absint.Num(1))
		s.SeqStore(ev, 0, nv)
		return []absint.Outcome{{S: s, V: tuple(absint.Num(1), absint.VNil{})}}
	}
	k.read = func(m *absint.Machine, s *absint.State, buf absint.Val) []absint.Outcome {
		sl, ok := buf.(absint.VSlice)
		if !ok {
			panic("read into something that is not a slice")
		}
		s.Ghost["buf"] = buf
		_ = sl
		overwrite(s)
		if s.Ghost["hasread"] != nil {
			s.Kill()
			return nil
		}
		s.Ghost["hasread"] = absint.BoolOf(true)
		total := absint.ConstLin(0)
		for i, r := range pp.recs {
			g := func(k string, v absint.Val) { s.Ghost[fmt.Sprintf("rec%d.%s", i, k)] = v }
			g("pos", absint.LinVal(total))
			wd := int64(7)
			if r.known {
				wd = 1
			}
			if r.second {
				wd = 2
			}
			g("wd", absint.Num(wd))
			mask := s.Const(r.bit)
			if r.flags {
				isdir := s.SetVar("flags")
				s.AssumeSub(isdir, s.Const(0x40000000))
				mask = mask.Or(isdir)
			}
			g("mask", absint.BVal(mask))
			g("cookie", s.Int(fmt.Sprintf("cookie%d", i)))
			ln := absint.ConstLin(0)
			if r.named {
				l := s.Int(fmt.Sprintf("len%d", i))
				ln, _ = absint.LinOf(l)
				s.AddGE(ln.Plus(-1))
			}
			g("len", absint.LinVal(ln))
			total = total.Add(ln).Plus(recHdr)
		}
		s.Ghost["n"] = absint.LinVal(total)
		// the kernel fills no more than the buffer holds
		s.AddGE(s.SeqLen(buf).Sub(total))
		return []absint.Outcome{{S: s, V: tuple(absint.LinVal(total), absint.VNil{})}}
	}
	m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
		return k.hook(m, s, ci)
	}
	m.H.Go = noteGo
	// names the kernel reports are never empty
	m.H.NewString = func(s *absint.State, t *absint.Term) {
		if s.Ghost["buf"] == nil {
			return
		}
		if _, _, ok := pp.nameOf(s, t); ok {
			s.AddGE(absint.LenOf(t).Plus(-1))
		}
	}
	// a pointer into the buffer seen as a record
	m.H.Convert = func(m *absint.Machine, s *absint.State, in *ssa.Convert, v absint.Val) ([]absint.Outcome, bool) {
		pt, ok := in.Type().Underlying().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), ievt) {
			return nil, false
		}
		pos, ok := pp.bufferPos(s, v)
		if !ok {
			return nil, false
		}
		n, _ := absint.LinOf(s.Ghost["n"])
		i, _ := constArg(s.Ghost["parsed"])
		pp.c.Oblige(2)
		if !s.Holds(n.Sub(pos).Plus(-recHdr)) {
			pp.fail(s, pp.rule+"/bounds", "record header", "a record header may be read beyond the bytes the kernel filled in")
			s.Kill()
			return nil, true
		}
		if int(i) >= len(pp.recs) {
			pp.fail(s, pp.rule+"/bounds", "record header", "a record is read after the last one")
			s.Kill()
			return nil, true
		}
		// which record starts here?
		j := -1
		for q := range pp.recs {
			rp, _, _, _, _ := pp.recVal(s, q)
			if d := rp.Sub(pos); d.IsConst() && d.C == 0 {
				j = q
			}
		}
		if j < 0 {
			pp.fail(s, pp.rule+"/cursor", "record header", "the cursor does not stand at the start of a record")
			s.Kill()
			return nil, true
		}
		if j == int(i) {
			s.Ghost["parsed"] = absint.Num(i + 1)
		} else if j > int(i) {
			pp.fail(s, pp.rule+"/cursor", "record header", "a record is skipped")
			s.Kill()
			return nil, true
		}
		_, wd, mask, cookie, ln := pp.recVal(s, j)
		r := m.Zero(s, ievt)
		r = setField(ievt, r, "Wd", wd)
		r = setField(ievt, r, "Mask", mask)
		r = setField(ievt, r, "Cookie", cookie)
		r = setField(ievt, r, "Len", ln)
		id := s.New(&absint.Obj{Kind: 'c', Typ: ievt, V: r, Label: "kernel buffer"})
		return []absint.Outcome{{S: s, V: absint.VPtr{Obj: id}}}, true
	}
	consume := func(m *absint.Machine, s *absint.State, batchCh, batch absint.Val) {
		s.Ghost["batchch"], s.Ghost["batch"] = batchCh, batch
		me, _ := constArg(s.Ghost["producer"])
		for i, g := range goList(s) {
			if i == int(me) {
				continue
			}
			x := s.Clone()
			x.Ghost["stage"] = absint.Str("consume")
			overwrite(x)
			m.Restart(x, g.fn, g.args)
			m.Fork(x)
			break
		}
		s.Kill()
	}
	m.H.Offer = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch, v absint.Val, blocking bool) {
		if absint.Key(ch) == absint.Key(s.Ghost["events"]) {
			if !blocking {
				pp.fail(s, pp.rule+"/lossy", "delivery", "an event may be dropped before it is dispatched")
			}
			k, _ := constArg(s.Ghost["nout"])
			s.Ghost[fmt.Sprint("out", k)] = v
			s.Ghost["nout"] = absint.Num(k + 1)
			return
		}
		if stage(s) != "read" {
			return
		}
		if !pp.again {
			consume(m, s, ch, v)
			return
		}
		if s.Ghost["batch1"] == nil {
			// the consumer may take its time: read on
			s.Ghost["batch1"], s.Ghost["dump1"] = v, absint.Str(s.Dump(v, 6))
			for _, k := range []string{"hasread", "waited"} {
				delete(s.Ghost, k)
			}
			s.Ghost["parsed"] = absint.Num(0)
			return
		}
		pp.ends++
		pp.c.Oblige(2)
		one := s.Ghost["batch1"]
		if b := s.Backing(one); b != "" && b == s.Backing(v) {
			pp.fail(s, pp.rule+"/reuse", "hand-over", "the records handed over to a consumer are stored where the next read puts its records")
		} else if s.Dump(one, 6) != ghostStr(s.Ghost, "dump1") {
			pp.fail(s, pp.rule+"/reuse", "hand-over", "what was handed over to a consumer is changed by the next read")
		}
		s.Kill()
	}
	m.H.Recv = func(m *absint.Machine, s *absint.State, in ssa.Instruction, ch absint.Val, commaOk bool) ([]absint.Outcome, bool) {
		if stage(s) == "probe" {
			s.Kill() // a consumer, not the reader
			return nil, true
		}
		if s.Ghost["batchch"] == nil || absint.Key(ch) != absint.Key(s.Ghost["batchch"]) {
			return nil, false
		}
		if b := s.Ghost["batch"]; b != nil {
			delete(s.Ghost, "batch")
			if commaOk {
				b = tuple(b, absint.BoolOf(true))
			}
			return []absint.Outcome{{S: s, V: b}}, true
		}
		pp.finish(m, s)
		s.Kill()
		return nil, true
	}
	m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
		pp.fail(s, pp.rule+"/panic", "pipeline", "the pipeline can panic: %s", why)
	}
	m.H.Return = func(m *absint.Machine, s *absint.State, res []absint.Val) {
		switch stage(s) {
		case "setup":
		case "consume":
			pp.fail(s, pp.rule+"/ends", "consumer", "the consumer ends although its channel is open")
		case "read", "probe":
			pp.fail(s, pp.rule+"/ends", "reader", "the reader ends although nothing asked it to")
		}
	}
	// --- newWatcher, Watch
	for _, o := range pp.c.inoNew(p, m, s, ch) {
		st := o.S
		var next []absint.Outcome
		if pp.rewatch {
			first := st.Const(n.create | n.rename | 0x2)
			st.Ghost["first"] = absint.BVal(first)
			for _, w := range m.CallMethod(st, o.V, "Watch", path, absint.BVal(first)) {
				next = append(next, m.CallMethod(w.S, o.V, "Rewatch", path, w.S.Ghost["first"], w.S.Ghost["e"])...)
			}
		} else {
			next = m.CallMethod(st, o.V, "Watch", path, st.Ghost["e"])
		}
		if pp.two {
			var more []absint.Outcome
			for _, w := range next {
				if _, ok := w.V.(absint.VNil); ok {
					more = append(more, m.CallMethod(w.S, o.V, "Watch", w.S.Ghost["other"], w.S.Ghost["e"])...)
				}
			}
			next = more
		}
		for _, w := range next {
			if _, ok := w.V.(absint.VNil); !ok {
				continue
			}
			gs := goList(w.S)
			if len(gs) == 0 {
				pp.fail(w.S, pp.rule+"/reader", "Watch", "no goroutine reads the events")
			}
			for i, g := range gs {
				x := w.S.Clone()
				x.Ghost["stage"] = absint.Str("probe")
				x.Ghost["producer"] = absint.Num(int64(i))
				m.Restart(x, g.fn, g.args)
				m.Run(x)
			}
		}
	}
}

// overwrite changes what pointers into the kernel buffer point at, as the
// next read does.
func overwrite(s *absint.State) {
	for id, o := range s.Heap {
		if o == nil || o.Label != "kernel buffer" {
			continue
		}
		if st, ok := o.V.(absint.VStruct); ok {
			n := absint.VStruct{}
			for range st.F {
				n.F = append(n.F, s.Int("overwritten"))
			}
			s.Mut(id).V = n
		}
	}
}

// bufferPos is the offset in the kernel buffer a pointer denotes.
func (pp *pipe) bufferPos(s *absint.State, v absint.Val) (absint.Lin, bool) {
	pt, ok := v.(absint.VPtr)
	if !ok || len(pt.Path) == 0 || s.Ghost["buf"] == nil {
		return absint.Lin{}, false
	}
	last := pt.Path[len(pt.Path)-1]
	if last.Idx == nil {
		return absint.Lin{}, false
	}
	pos, ok := absint.LinOf(last.Idx)
	if !ok {
		return absint.Lin{}, false
	}
	buf := s.Ghost["buf"].(absint.VSlice)
	bo := s.Obj(buf.Obj)
	if o := s.Obj(pt.Obj); o != nil && o.Kind == 'q' {
		// an element of a slice of the buffer
		t, bt := o.Bytes, bo.Bytes
		if t == nil || bt == nil {
			return absint.Lin{}, false
		}
		if absint.Key(absint.VOpaque{T: t}) == absint.Key(absint.VOpaque{T: bt}) {
			return pos, true
		}
		if t.Op == "sub" {
			off, _ := absint.LinOf(t.Args[1])
			base := absint.Key(t.Args[0])
			if base == absint.Key(absint.VOpaque{T: bt, NonNil: true}) {
				return pos.Add(off), true
			}
			if bt.Op == "sub" && base == absint.Key(bt.Args[0]) {
				boff, _ := absint.LinOf(bt.Args[1])
				return pos.Add(off).Sub(boff), true
			}
		}
		return absint.Lin{}, false
	}
	// an element of the array the buffer slice was taken from
	b, ok := bo.Base.(absint.VPtr)
	if !ok || b.Obj != pt.Obj || len(b.Path) != len(pt.Path)-1 {
		return absint.Lin{}, false
	}
	for i := range b.Path {
		if b.Path[i].Field != pt.Path[i].Field || (b.Path[i].Idx != nil) != (pt.Path[i].Idx != nil) {
			return absint.Lin{}, false
		}
	}
	if bo.Bytes != nil && bo.Bytes.Op == "sub" {
		off, _ := absint.LinOf(bo.Bytes.Args[1])
		pos = pos.Sub(off)
	}
	return pos, true
}

// nameTerm checks that t is the zero-trimmed copy of bytes [lo, hi) of the buffer.
func (pp *pipe) nameOf(s *absint.State, t *absint.Term) (lo, hi absint.Lin, ok bool) {
	if t.Op != "string" || len(t.Args) != 1 {
		return
	}
	a, y := t.Args[0].(absint.VOpaque)
	if !y || a.T.Op != "trimright" || a.T.S != "\x00" {
		return
	}
	b, y := a.T.Args[0].(absint.VOpaque)
	if !y || b.T.Op != "sub" {
		return
	}
	lo, _ = absint.LinOf(b.T.Args[1])
	hi, _ = absint.LinOf(b.T.Args[2])
	// relative to the slice given to read
	bo := s.Obj(s.Ghost["buf"].(absint.VSlice).Obj)
	if bo.Bytes != nil && bo.Bytes.Op == "sub" {
		off, _ := absint.LinOf(bo.Bytes.Args[1])
		if absint.Key(bo.Bytes.Args[0]) != absint.Key(b.T.Args[0]) {
			return lo, hi, false
		}
		lo, hi = lo.Sub(off), hi.Sub(off)
	}
	return lo, hi, true
}

func (pp *pipe) finish(m *absint.Machine, s *absint.State) {
	pp.ends++
	pp.c.Oblige(1)
	k, _ := constArg(s.Ghost["parsed"])
	if int(k) != len(pp.recs) {
		pp.fail(s, pp.rule+"/cursor", "record header", "only %d of %d records are read", k, len(pp.recs))
		return
	}
	no, _ := constArg(s.Ghost["nout"])
	var out []absint.Val
	for i := int64(0); i < no; i++ {
		out = append(out, s.Ghost[fmt.Sprint("out", i)])
	}
	pp.delivered(m, s, out)
}

// event is a delivered event taken apart through its methods.
type gotEvent struct {
	event, path, sys absint.Val
	isdir            absint.Val
}

// takeApart calls the accessors of a delivered event.
func (pp *pipe) takeApart(m *absint.Machine, s *absint.State, v absint.Val) (*absint.State, gotEvent, bool) {
	var g gotEvent
	call := func(name string) (absint.Val, bool) {
		outs := m.CallMethod(s, v, name)
		if len(outs) != 1 {
			pp.fail(s, pp.rule+"/accessor", name, "accessor %s has %d outcomes", name, len(outs))
			return nil, false
		}
		s = outs[0].S
		return outs[0].V, true
	}
	var ok bool
	if g.event, ok = call("Event"); !ok {
		return s, g, false
	}
	if g.path, ok = call("Path"); !ok {
		return s, g, false
	}
	if g.sys, ok = call("Sys"); !ok {
		return s, g, false
	}
	if g.isdir, ok = call("isDir"); !ok {
		return s, g, false
	}
	return s, g, true
}

// sysRecord is the kernel record an event points at, if it does.
func (pp *pipe) sysRecord(s *absint.State, g gotEvent) (absint.VStruct, bool) {
	i, ok := g.sys.(absint.VIface)
	if !ok {
		return absint.VStruct{}, false
	}
	v, ok := s.LoadPtr(i.V)
	if !ok {
		return absint.VStruct{}, false
	}
	st, ok := v.(absint.VStruct)
	return st, ok && len(st.F) >= 3
}

func (c *Ctx) pipeFail(name string) func(s *absint.State, rule, construct, format string, a ...interface{}) {
	return func(s *absint.State, rule, construct, format string, a ...interface{}) {
		c.FailTrace(rule, construct, s.Where(), append([]string{"scenario: " + name}, s.Trace...), format, a...)
	}
}

func (c *Ctx) runPipe(pp *pipe) {
	pp.c = c
	pp.fail = c.pipeFail(pp.name)
	consts := []uint32{pp.n.recursive, pp.n.omit, pp.n.create, pp.n.remove, pp.n.write, pp.n.rename, 0x40000000}
	for _, k := range pp.n.kernelBits() {
		consts = append(consts, k.bit)
	}
	c.Scenario(pp.p, pp.name, consts, pp.run)
	if pp.ends == 0 {
		c.Fail(pp.rule+"/vacuous", "pipeline", "", "no path of %q gets to the end", pp.name)
	}
	c.Count("scenarios", 1)
	c.Sample("%s: %d end states", pp.name, pp.ends)
}

// checkMapping decides the request and report tables of the Linux watcher.
func checkMapping(c *Ctx) {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	c.R.Cov["explanation"] = "Abstract interpretation from newWatcher and Watch/Rewatch through the reader and consumer goroutines to the event channel. The requested set is a symbolic set variable; the kernel mask passed to inotify_add_watch and every event delivered for every kernel event bit are compared with the table of inotify(7)."
	c.checkRequest(p, n)
	for _, k := range n.kernelBits() {
		for _, re := range []bool{false, true} {
			k := k
			pp := &pipe{n: n, p: p, rule: "report", rewatch: re, recs: []record{{known: true, bit: k.bit, flags: true, named: true}}}
			pp.name = fmt.Sprintf("one %s record for a watched path (after Rewatch: %v)", k.name, re)
			pp.delivered = func(m *absint.Machine, s *absint.State, out []absint.Val) {
				gotP, gotN := 0, 0
				for _, v := range out {
					c.Oblige(1)
					s2, g, ok := pp.takeApart(m, s, v)
					if !ok {
						continue
					}
					ev := s2.BVOf(g.event)
					switch {
					case k.portable != 0 && s2.SameSet(ev, s2.Const(k.portable)):
						gotP++
					case s2.SameSet(ev, s2.Const(k.bit)):
						gotN++
					default:
						pp.fail(s2, "report/event", k.name, "%s is reported as an event that differs from it in %s", k.name, s2.Describe(ev.Xor(s2.Const(k.bit|k.portable))))
					}
				}
				bits := []uint32{k.bit}
				if k.portable != 0 {
					bits = append(bits, k.portable)
				}
				split(s, func(s *absint.State) absint.BV { return s.BVOf(s.Ghost["e"]) }, bits, func(s *absint.State, has map[uint32]bool) {
					wantP, wantN := k.portable != 0 && has[k.portable], has[k.bit]
					cnt := func(want bool) int {
						if want {
							return 1
						}
						return 0
					}
					if gotP != cnt(wantP) {
						pp.fail(s, "report/portable", k.name, "%s is reported %d times as %s, %d expected", k.name, gotP, n.bitName(k.portable), cnt(wantP))
					}
					if gotN != cnt(wantN) {
						pp.fail(s, "report/native", k.name, "%s is reported %d times as itself, %d expected", k.name, gotN, cnt(wantN))
					}
				})
			}
			c.runPipe(pp)
		}
	}
	// records nobody asked for
	for _, x := range []struct {
		name  string
		bit   uint32
		known bool
	}{{"IN_IGNORED", 0x8000, true}, {"IN_Q_OVERFLOW", 0x4000, false}, {"IN_UNMOUNT", 0x2000, true}, {"a stale descriptor", 0x100, false}} {
		x := x
		pp := &pipe{n: n, p: p, rule: "report", recs: []record{{known: x.known, bit: x.bit, named: false}}}
		pp.name = "one record: " + x.name
		pp.delivered = func(m *absint.Machine, s *absint.State, out []absint.Val) {
			c.Oblige(1)
			if len(out) != 0 {
				pp.fail(s, "report/spurious", x.name, "%s is reported to the user", x.name)
			}
		}
		c.runPipe(pp)
	}
}

// checkRequest decides the mask passed to the kernel.
func (c *Ctx) checkRequest(p *load.Program, n *names) {
	for _, op := range []string{"Watch", "Rewatch"} {
		op := op
		name := op + " of an arbitrary event set"
		ends := 0
		consts := []uint32{n.recursive, n.omit, n.create, n.remove, n.write, n.rename, 0xfff}
		for _, k := range n.kernelBits() {
			consts = append(consts, k.bit)
		}
		c.Scenario(p, name, consts, func(m *absint.Machine, s *absint.State) {
			ends = 0
			m.BitName = n.bitName
			fail := c.pipeFail(name)
			k := &inoKernel{p: p}
			allowed := uint32(0xfff | n.create | n.remove | n.write | n.rename)
			k.call = func(s *absint.State, ci *absint.CallInfo, name string, args []absint.Val) {
				if name != "InotifyAddWatch" {
					return
				}
				if s.Ghost["asked"] != nil {
					fail(s, "request/twice", op, "the kernel is asked twice")
				}
				s.Ghost["asked"] = absint.BoolOf(true)
				if absint.Key(args[1]) != absint.Key(s.Ghost["path"]) {
					fail(s, "request/path", op, "the kernel is asked to watch another path")
				}
				split(s, func(s *absint.State) absint.BV { return s.BVOf(s.Ghost["e"]) }, n.portable(), func(s *absint.State, has map[uint32]bool) {
					c.Oblige(1)
					want := n.request(s, s.BVOf(s.Ghost["e"]), has)
					got := s.BVOf(args[2])
					if !s.SameSet(got, want) {
						fail(s, "request/mask", op, "the mask passed to the kernel differs from the one the events stand for in %s", s.Describe(got.Xor(want)))
					}
				})
			}
			m.H.Call = func(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
				return k.hook(m, s, ci)
			}
			m.H.Go = noteGo
			m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
				fail(s, "request/panic", op, "%s can panic: %s", op, why)
			}
			s.Ghost["path"] = absint.VStr{T: s.Sym("path")}
			e := s.SetVar("events")
			s.AssumeNonzero(e)
			s.Ghost["e"] = absint.BVal(e)
			for _, o := range c.inoNew(p, m, s, s.Opq("events", true, true)) {
				args := []absint.Val{s.Ghost["path"], o.S.Ghost["e"]}
				if op == "Rewatch" {
					old := o.S.SetVar("old")
					args = []absint.Val{s.Ghost["path"], absint.BVal(old), o.S.Ghost["e"]}
				}
				for _, w := range m.CallMethod(o.S, o.V, op, args...) {
					ends++
					c.Oblige(1)
					e := w.S.BVOf(w.S.Ghost["e"])
					outside := e.AndNot(w.S.Const(allowed))
					_, nilErr := w.V.(absint.VNil)
					asked := w.S.Ghost["asked"] != nil
					switch {
					case nilErr && !asked:
						fail(w.S, "request/none", op, "%s returns nil without asking the kernel", op)
					case nilErr && !w.S.IsZero(outside):
						fail(w.S, "request/unknown", op, "a set with unknown bits may be accepted: %s", w.S.Describe(outside))
					case !nilErr && asked:
						fail(w.S, "request/error", op, "%s fails although the kernel granted the watch", op)
					case !nilErr && !w.S.IsNonzero(outside):
						fail(w.S, "request/refused", op, "a valid set may be refused")
					}
				}
			}
		})
		if ends == 0 {
			c.Fail("request/vacuous", op, "", "no path of %s returns", op)
		}
		c.Count("scenarios", 1)
	}
}

// checkParse decides how the kernel buffer is cut into records.
func checkParse(c *Ctx) {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	max := 3
	c.R.Cov["explanation"] = "Abstract interpretation of the reader over a buffer of up to " + fmt.Sprint(max) + " records with symbolic lengths and contents: every header read must start exactly at a record and lie within the bytes read, every record must be read once and in order, the name of each delivered event must be a copy of the record's own name bytes, and unknown, ignored and overflow records must not disturb the others."
	c.Assume("The loop that cuts records treats every record alike, so what holds for the first, the following and the last of up to three records holds for any number.")
	kinds := []record{{known: true, bit: 0x100, named: true}, {known: true, bit: 0x400}, {known: false, bit: 0x100, named: true}, {known: false, bit: 0x4000}, {known: true, bit: 0x8000}, {known: true, second: true, bit: 0x100, named: true}}
	var batches [][]record
	for i := range kinds {
		batches = append(batches, []record{kinds[i]})
		for j := range kinds {
			batches = append(batches, []record{kinds[i], kinds[j]})
		}
	}
	batches = append(batches, []record{kinds[0], kinds[1], kinds[0]}, []record{kinds[2], kinds[0], kinds[3]}, []record{kinds[3], kinds[4], kinds[0]}, []record{kinds[0], kinds[0], kinds[0]})
	for _, b := range batches {
		b := b
		pp := &pipe{n: n, p: p, rule: "parse", recs: b, two: true}
		pp.request = func(s *absint.State) absint.BV { return s.Const(0x100 | 0x400) }
		pp.name = "buffer:"
		for _, r := range b {
			pp.name += fmt.Sprintf(" [known=%v second=%v event=%#x name=%v]", r.known, r.second, r.bit, r.named)
		}
		pp.delivered = func(m *absint.Machine, s *absint.State, out []absint.Val) {
			var want []int
			for i, r := range b {
				if r.known && r.bit&(0x100|0x400) != 0 {
					want = append(want, i)
				}
			}
			c.Oblige(1 + len(want))
			if len(out) != len(want) {
				pp.fail(s, "parse/count", "records", "%d events are delivered for %d records", len(out), len(want))
				return
			}
			for k, v := range out {
				i := want[k]
				s2, g, ok := pp.takeApart(m, s, v)
				if !ok {
					continue
				}
				pos, _, _, cookie, ln := pp.recVal(s2, i)
				sys, ok := pp.sysRecord(s2, g)
				if !ok {
					pp.fail(s2, "parse/record", "record", "the delivered event does not carry its kernel record")
					continue
				}
				if absint.Key(sys.F[2]) != absint.Key(cookie) {
					pp.fail(s2, "parse/order", "records", "events are not delivered in the order of their records")
				}
				at := "path"
				if b[i].second {
					at = "other"
				}
				if !b[i].named {
					if absint.Key(g.path) != absint.Key(s2.Ghost[at]) {
						pp.fail(s2, "parse/name", "name", "the path of an event without a name is not the watched path, but %s", absint.Show(g.path))
					}
					continue
				}
				dir, name, ok := pathParts(g.path)
				if !ok || absint.Key(absint.VStr{T: dir}) != absint.Key(s2.Ghost[at]) {
					pp.fail(s2, "parse/name", "name", "the path of an event is not the watched path and the name in its record, but %s", absint.Show(g.path))
					continue
				}
				lo, hi, ok := pp.nameOf(s2, name)
				l, _ := absint.LinOf(ln)
				if !ok || !same(lo, pos.Plus(recHdr)) || !same(hi, pos.Plus(recHdr).Add(l)) {
					pp.fail(s2, "parse/name", "name", "the name of an event is not the zero-trimmed name in its record, but %s", name.Show())
				}
			}
		}
		c.runPipe(pp)
	}
	for _, b := range [][]record{{kinds[0]}, {kinds[0], kinds[5]}} {
		pp := &pipe{n: n, p: p, rule: "parse", recs: b, two: true, again: true}
		pp.request = func(s *absint.State) absint.BV { return s.Const(0x100 | 0x400) }
		pp.name = fmt.Sprintf("two buffers of %d records, the second read before the first is consumed", len(b))
		c.runPipe(pp)
	}
}

func same(a, b absint.Lin) bool { d := a.Sub(b); return d.IsConst() && d.C == 0 }

// pathParts splits directory/name.
func pathParts(v absint.Val) (dir, name *absint.Term, ok bool) {
	t, y := v.(absint.VStr)
	if !y || t.T.Op != "cat" || len(t.T.Args) < 2 || len(t.T.Args) > 3 {
		return
	}
	if len(t.T.Args) == 2 {
		a := t.T.Args[0].(absint.VStr).T
		return a, t.T.Args[1].(absint.VStr).T, a.Op == "const" && a.S == "/"
	}
	a, b, d := t.T.Args[0].(absint.VStr).T, t.T.Args[1].(absint.VStr).T, t.T.Args[2].(absint.VStr).T
	if b.Op != "const" || b.S != "/" {
		return
	}
	return a, d, true
}

// checkEventInfo decides the contents of delivered events.
func checkEventInfo(c *Ctx) {
	p := c.Load(Linux)
	if p == nil {
		return
	}
	n, ok := c.resolveNames(p)
	if !ok {
		return
	}
	c.R.Cov["explanation"] = "Abstract interpretation from the kernel buffer to the event channel; the accessors of every delivered event are interpreted and compared with the record it was made from."
	for _, k := range n.kernelBits() {
		for _, v := range []struct{ named, root bool }{{false, false}, {true, false}, {true, true}} {
			k, named := k, v.named
			pp := &pipe{n: n, p: p, rule: "info", root: v.root, recs: []record{{known: true, bit: k.bit, flags: true, named: named}}}
			pp.name = fmt.Sprintf("one %s record (named: %v, of the root directory: %v)", k.name, named, v.root)
			pp.delivered = func(m *absint.Machine, s *absint.State, out []absint.Val) {
				for _, v := range out {
					s2, g, ok := pp.takeApart(m, s, v)
					if !ok {
						continue
					}
					c.Oblige(4)
					ev := s2.BVOf(g.event)
					if !s2.SameSet(ev, s2.Const(k.bit)) && (k.portable == 0 || !s2.SameSet(ev, s2.Const(k.portable))) {
						pp.fail(s2, "info/event", k.name, "the event value is not a single public event")
					}
					pos, wd, mask, cookie, ln := pp.recVal(s2, 0)
					if named {
						dir, name, ok := pathParts(g.path)
						good := ok && absint.Key(absint.VStr{T: dir}) == absint.Key(s2.Ghost["path"])
						if good {
							lo, hi, ok := pp.nameOf(s2, name)
							l, _ := absint.LinOf(ln)
							good = ok && same(lo, pos.Plus(recHdr)) && same(hi, pos.Plus(recHdr).Add(l))
						}
						if !good {
							pp.fail(s2, "info/path", "path", "the path is not the watched directory joined with the reported name, but %s", absint.Show(g.path))
						}
					} else if absint.Key(g.path) != absint.Key(s2.Ghost["path"]) {
						pp.fail(s2, "info/path", "path", "the path is not the watched path, but %s", absint.Show(g.path))
					}
					sys, ok := pp.sysRecord(s2, g)
					if !ok || absint.Key(sys.F[0]) != absint.Key(wd) || !s2.SameSet(s2.BVOf(sys.F[1]), s2.BVOf(mask)) || absint.Key(sys.F[2]) != absint.Key(cookie) {
						pp.fail(s2, "info/sys", "record", "the event does not carry the kernel record it was made from")
					}
					// directory flag
					t, ok := g.isdir.(absint.VTuple)
					if !ok || len(t.F) != 2 {
						pp.fail(s2, "info/isdir", "isDir", "unexpected result")
						continue
					}
					b, ok := t.F[0].(absint.VBool)
					if !ok {
						pp.fail(s2, "info/isdir", "isDir", "unexpected result")
						continue
					}
					for _, dir := range []bool{true, false} {
						x := s2.Clone()
						flag := x.BVOf(x.Ghost["rec0.mask"]).And(x.Const(0x40000000))
						if dir && !x.AssumeNonzero(flag) || !dir && !x.AssumeZero(flag) {
							continue
						}
						want := 0
						if dir {
							want = 1
						}
						if x.Truth(b.P) != want {
							pp.fail(x, "info/isdir", "isDir", "the directory flag is not that of the kernel record")
						}
					}
				}
			}
			c.runPipe(pp)
		}
	}
}
