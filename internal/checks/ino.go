package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
	"notifysa/internal/load"
)

// sysName is the bare name of a system call wrapper, or "".
func sysName(ci *absint.CallInfo) string {
	for _, p := range []string{"golang.org/x/sys/unix.", "syscall."} {
		if strings.HasPrefix(ci.Name, p) {
			return ci.Name[len(p):]
		}
	}
	return ""
}

// anyErrno is a system error with any number but the given ones.
func anyErrno(p *load.Program, s *absint.State, label string, not ...int64) absint.Val {
	v := s.Int("errno of " + label)
	l, _ := absint.LinOf(v)
	s.AddGE(l.Plus(-1))
	for _, n := range not {
		s.Assume(&absint.Pred{Kind: absint.PEQ0, L: l.Plus(-n)}, false)
	}
	return absint.VIface{T: p.Prog.ImportedPackage("syscall").Type("Errno").Type(), V: v}
}

// errno is a system error with a number the code can recognise.
func errno(p *load.Program, n int64) absint.Val {
	return absint.VIface{T: p.Prog.ImportedPackage("syscall").Type("Errno").Type(), V: absint.Num(n)}
}

const (
	fdInotify = 5
	fdEpoll   = 6
	fdPipeR   = 7
	fdPipeW   = 8
	eINTR     = 4
	eINVAL    = 22
)

// inoKernel answers the system calls of the Linux watcher.
type inoKernel struct {
	p      *load.Program
	fail   func(s *absint.State, call string) bool // may this call fail?
	call   func(s *absint.State, ci *absint.CallInfo, name string, args []absint.Val)
	done   func(s *absint.State, ci *absint.CallInfo, name string, args []absint.Val)
	einval func(s *absint.State, args []absint.Val)
	wd     func(s *absint.State, path absint.Val) int64
	wait   func(m *absint.Machine, s *absint.State, ev absint.Val) []absint.Outcome
	read   func(m *absint.Machine, s *absint.State, buf absint.Val) []absint.Outcome
}

func constArg(v absint.Val) (int64, bool) {
	l, ok := absint.LinOf(v)
	if !ok || !l.IsConst() {
		return 0, false
	}
	return l.C, true
}

func tuple(v ...absint.Val) absint.Val { return absint.VTuple{F: v} }

func (k *inoKernel) hook(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	name := sysName(ci)
	if name == "" {
		return nil, false
	}
	known := true
	var okv, failv func(n *absint.State, e absint.Val) absint.Val
	single := func(fd int64) {
		okv = func(n *absint.State, e absint.Val) absint.Val { return tuple(absint.Num(fd), absint.VNil{}) }
		failv = func(n *absint.State, e absint.Val) absint.Val { return tuple(absint.Num(-1), e) }
	}
	errOnly := func() {
		okv = func(n *absint.State, e absint.Val) absint.Val { return absint.VNil{} }
		failv = func(n *absint.State, e absint.Val) absint.Val { return e }
	}
	switch name {
	case "InotifyInit", "InotifyInit1":
		single(fdInotify)
	case "EpollCreate", "EpollCreate1":
		single(fdEpoll)
	case "Pipe", "Pipe2":
		errOnly()
		okv = func(n *absint.State, e absint.Val) absint.Val {
			n.SeqStore(ci.Args[0], 0, absint.Num(fdPipeR))
			n.SeqStore(ci.Args[0], 1, absint.Num(fdPipeW))
			return absint.VNil{}
		}
	case "EpollCtl", "Close", "SetNonblock":
		errOnly()
	case "InotifyAddWatch":
		wd := int64(1)
		if k.wd != nil {
			wd = k.wd(s, ci.Args[1])
		}
		single(wd)
	case "InotifyRmWatch":
		single(0)
	case "Write":
		okv = func(n *absint.State, e absint.Val) absint.Val { return tuple(n.Int("written"), absint.VNil{}) }
		failv = func(n *absint.State, e absint.Val) absint.Val { return tuple(absint.Num(-1), e) }
	case "EpollWait":
		if k.call != nil {
			k.call(s, ci, name, ci.Args)
		}
		if s.Dead() || k.wait == nil {
			return nil, true
		}
		return k.wait(m, s, ci.Args[1]), true
	case "Read":
		if k.call != nil {
			k.call(s, ci, name, ci.Args)
		}
		if s.Dead() || k.read == nil {
			return nil, true
		}
		return k.read(m, s, ci.Args[1]), true
	default:
		known = false
	}
	if !known {
		return nil, false
	}
	if k.call != nil {
		k.call(s, ci, name, ci.Args)
		if s.Dead() {
			return nil, true
		}
	}
	var outs []absint.Outcome
	if k.fail != nil && k.fail(s, name) {
		n := s.Clone()
		n.Note("%s fails", name)
		n.Ghost["failed"] = absint.Str(name)
		outs = append(outs, absint.Outcome{S: n, V: failv(n, anyErrno(k.p, n, name, eINTR, eINVAL))})
		if name == "InotifyRmWatch" {
			n := s.Clone()
			n.Note("%s fails with EINVAL", name)
			if k.einval != nil {
				k.einval(n, ci.Args)
			}
			outs = append(outs, absint.Outcome{S: n, V: failv(n, errno(k.p, eINVAL))})
		}
	}
	v := okv(s, nil)
	if k.done != nil {
		k.done(s, ci, name, ci.Args)
	}
	outs = append(outs, absint.Outcome{S: s, V: v})
	return outs, true
}

// setField sets the named field of a struct value of type t.
func setField(t types.Type, v absint.Val, name string, nv absint.Val) absint.Val {
	st, ok := t.Underlying().(*types.Struct)
	x, ok2 := v.(absint.VStruct)
	if !ok || !ok2 {
		return v
	}
	n := absint.VStruct{F: append([]absint.Val(nil), x.F...)}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			n.F[i] = nv
		}
	}
	return n
}

// inoWatcher interprets newWatcher and hands on the states it leaves.
func (c *Ctx) inoNew(p *load.Program, m *absint.Machine, s *absint.State, ch absint.Val) []absint.Outcome {
	fn := p.Pkg.Func("newWatcher")
	if fn == nil {
		c.Fail("resolve", "newWatcher", "", "function not found")
		return nil
	}
	return m.Eval(s, fn, []absint.Val{ch}, nil)
}

type goStart struct {
	fn   absint.Val
	args []absint.Val
}

func goList(s *absint.State) (r []goStart) {
	for i := 0; ; i++ {
		g, ok := s.Ghost[fmt.Sprint("go", i)]
		if !ok {
			return
		}
		t := g.(absint.VTuple)
		r = append(r, goStart{t.F[0], t.F[1:]})
	}
}

func noteGo(m *absint.Machine, s *absint.State, in *ssa.Go, fn absint.Val, args []absint.Val) {
	i := 0
	for ; s.Ghost[fmt.Sprint("go", i)] != nil; i++ {
	}
	s.Ghost[fmt.Sprint("go", i)] = tuple(append([]absint.Val{fn}, args...)...)
}

// kernelBits are the events the kernel can report, with the portable event
// each stands for.
type kernelBit struct {
	name     string
	bit      uint32
	portable uint32
}

func (n *names) kernelBits() []kernelBit {
	return []kernelBit{
		{"IN_ACCESS", 0x1, 0}, {"IN_MODIFY", 0x2, n.write}, {"IN_ATTRIB", 0x4, 0},
		{"IN_CLOSE_WRITE", 0x8, 0}, {"IN_CLOSE_NOWRITE", 0x10, 0}, {"IN_OPEN", 0x20, 0},
		{"IN_MOVED_FROM", 0x40, n.rename}, {"IN_MOVED_TO", 0x80, n.create}, {"IN_CREATE", 0x100, n.create},
		{"IN_DELETE", 0x200, n.remove}, {"IN_DELETE_SELF", 0x400, n.remove}, {"IN_MOVE_SELF", 0x800, n.rename},
	}
}

// split runs f on s restricted to each combination of bits of e.
func split(s *absint.State, e func(s *absint.State) absint.BV, bits []uint32, f func(s *absint.State, has map[uint32]bool)) {
	var rec func(s *absint.State, i int, has map[uint32]bool)
	rec = func(s *absint.State, i int, has map[uint32]bool) {
		if i == len(bits) {
			f(s, has)
			return
		}
		for _, v := range []bool{true, false} {
			n := s.Clone()
			b := e(n).And(n.Const(bits[i]))
			if v && n.IsZero(b) || !v && n.IsNonzero(b) {
				continue
			}
			if v && n.AssumeNonzero(b) || !v && n.AssumeZero(b) {
				h := map[uint32]bool{}
				for k, x := range has {
					h[k] = x
				}
				h[bits[i]] = v
				rec(n, i+1, h)
			}
		}
	}
	rec(s, 0, map[uint32]bool{})
}

// request is the kernel mask an event set stands for.
func (n *names) request(s *absint.State, e absint.BV, has map[uint32]bool) absint.BV {
	r := e.And(s.Const(0xfff))
	for _, k := range n.kernelBits() {
		if k.portable != 0 && has[k.portable] {
			r = r.Or(s.Const(k.bit))
		}
	}
	return r
}

func (n *names) portable() []uint32 { return []uint32{n.create, n.remove, n.write, n.rename} }
