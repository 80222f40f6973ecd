package checks

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"notifysa/internal/absint"
)

func init() { register("C15", checkPaths) }

// pathH follows the resolution of a path against a specification of its own:
// the components of the path as it should be by now, and how many of them have
// been found not to be links. Component names are symbolic.
//
// ghosts: "E" components of the path, "V" verified components, "link" a link
// that has been examined and not read yet, "links" links followed, "calls"
// components examined, "fs:"+path what a path is, "failed" the failure.
type pathH struct {
	c      *Ctx
	fail   func(s *absint.State, rule, construct, format string, a ...interface{})
	layout string // which file system is met: "any", "plain", or a cycle
	depth  int    // components of the path
	links  int    // links to follow at most
	lost   int
	bad    int
	gave   bool // the code cannot be followed
}

func comps(v absint.Val) []absint.Val {
	if t, ok := v.(absint.VTuple); ok {
		return t.F
	}
	return nil
}

// parse splits a path into components; odd says why that is not possible.
func parsePath(t *absint.Term) (l []absint.Val, abs, trail bool, odd string) {
	parts := []*absint.Term{t}
	if t.Op == "cat" {
		parts = nil
		for _, a := range t.Args {
			parts = append(parts, a.(absint.VStr).T)
		}
	}
	open := false // the last component may continue
	for i, p := range parts {
		if p.Op != "const" {
			if p.Op != "sym" {
				return nil, false, false, "it holds part of a component"
			}
			if open {
				return nil, false, false, "two components run into each other"
			}
			l = append(l, absint.VStr{T: p})
			open, trail = true, false
			continue
		}
		for k, w := range strings.Split(p.S, "/") {
			if k > 0 {
				open, trail = false, true
			}
			if i == 0 && k == 1 && l == nil {
				abs = true
			}
			if w == "" {
				continue
			}
			if open {
				return nil, false, false, "two components run into each other"
			}
			l = append(l, absint.Str(w))
			open, trail = true, false
		}
	}
	return l, abs, trail && len(l) > 0, ""
}

func samePath(a, b []absint.Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if absint.Key(a[i]) != absint.Key(b[i]) {
			return false
		}
	}
	return true
}

func showPath(l []absint.Val) string {
	var b strings.Builder
	for _, v := range l {
		b.WriteString("/" + absint.Show(v))
	}
	if len(l) == 0 {
		return "/"
	}
	return b.String()
}

func keyPath(l []absint.Val) string {
	var b strings.Builder
	for _, v := range l {
		b.WriteString("/" + absint.Key(v))
	}
	return b.String()
}

func pathTerm(l []absint.Val) *absint.Term {
	t := absint.Str("").T
	for _, v := range l {
		t = absint.Concat(absint.Concat(t, absint.Str("/").T), v.(absint.VStr).T)
	}
	if len(l) == 0 {
		return absint.Str("/").T
	}
	return t
}

func ghostInt(s *absint.State, k string) int {
	if v, ok := s.Ghost[k]; ok {
		if l, ok := absint.LinOf(v); ok && l.IsConst() {
			return int(l.C)
		}
	}
	return 0
}

const compLabel = "component"

// unknown tells whether a path holds something besides component names and
// cuts at known places: then nothing is known of its components.
func unknownPath(t *absint.Term) bool {
	switch t.Op {
	case "const":
		return false
	case "sym":
		return t.S != compLabel
	case "cat", "slice":
		for _, a := range t.Args {
			switch a := a.(type) {
			case absint.VStr:
				if unknownPath(a.T) {
					return true
				}
			default:
				l, ok := absint.LinOf(a)
				if !ok {
					return true
				}
				for _, x := range l.T {
					if x.A.Op != "len" {
						return true
					}
				}
			}
		}
		return false
	}
	return true
}

// pathComp makes a component name: not empty, without separator.
func pathComp(s *absint.State) absint.Val {
	t := s.Sym(compLabel)
	s.NoByteFact(t, '/')
	s.AddGE(absint.LenOf(t).Plus(-1))
	return absint.VStr{T: t}
}

func (h *pathH) failed(s *absint.State, rule, format string, a ...interface{}) {
	h.fail(s, "path/"+rule, "path resolution", format, a...)
	s.Kill()
	if h.bad++; h.bad > 40 {
		h.gave = true
	}
}

// unknownArg tells whether nothing is known of how a string was made from the
// path the user gave.
func unknownArg(t *absint.Term) bool {
	switch t.Op {
	case "const":
		return false
	case "sym":
		return t.S != "path" && !strings.HasPrefix(t.S, "strings.Trim")
	case "cat", "slice":
		for _, a := range t.Args {
			if a, ok := a.(absint.VStr); ok && unknownArg(a.T) {
				return true
			}
		}
		return false
	}
	return true
}

func (h *pathH) unknown(s *absint.State, what string, arg absint.Val) {
	h.c.Fail("undecided", what, s.Where(), "%s is met with a path of unknown components: %s", what, absint.Show(arg))
	s.Kill()
	if h.lost++; h.lost > 40 {
		h.gave = true
	}
}

// lexical cleans a path, or the part of the path being resolved that it is.
// Taking a name away together with the .. behind it needs the name examined.
func (h *pathH) lexical(s *absint.State, l []absint.Val) ([]absint.Val, bool) {
	E, V := comps(s.Ghost["E"]), ghostInt(s, "V")
	ours := s.Ghost["E"] != nil && len(l) <= len(E) && samePath(l, E[:len(l)])
	var out []absint.Val
	var at []int
	v := V
	for i, c := range l {
		x := c.(absint.VStr).T
		switch {
		case x.Op == "const" && x.S == ".":
			if i < V {
				v--
			}
			continue
		case x.Op == "const" && x.S == "..":
			if i < V {
				v--
			}
			if n := len(out); n > 0 {
				if ours && at[n-1] >= V {
					h.failed(s, "clean", "%s is taken away together with the .. behind it before it is known not to be a link", absint.Show(out[n-1]))
					return nil, false
				}
				if at[n-1] < V {
					v--
				}
				out, at = out[:n-1], at[:n-1]
			}
			continue
		}
		out, at = append(out, c), append(at, i)
	}
	if ours && len(out) != len(l) {
		s.Ghost["E"] = tuple(append(append([]absint.Val(nil), out...), E[len(l):]...)...)
		s.Ghost["V"] = absint.Num(int64(v))
	}
	return out, true
}

// examine is a call of Lstat or Readlink on a path.
func (h *pathH) examine(s *absint.State, what string, arg absint.Val) (key string, next, ok bool) {
	h.c.Oblige(1)
	t, isStr := arg.(absint.VStr)
	E := comps(s.Ghost["E"])
	if !isStr || s.Ghost["E"] == nil {
		h.failed(s, "order", "%s is called before the path is made absolute", what)
		return "", false, false
	}
	if unknownPath(t.T) {
		h.unknown(s, what, arg)
		return "", false, false
	}
	l, abs, trail, odd := parsePath(t.T)
	if odd != "" {
		h.failed(s, "component", "%s(%s): %s", what, absint.Show(arg), odd)
		return "", false, false
	}
	V := ghostInt(s, "V")
	if !abs && len(l) > 0 {
		h.failed(s, "component", "%s is called with a relative path %s", what, absint.Show(arg))
		return "", false, false
	}
	if len(l) > len(E) || !samePath(l, E[:len(l)]) {
		h.failed(s, "component", "%s(%s): the path being resolved is %s", what, absint.Show(arg), showPath(E))
		return "", false, false
	}
	if len(l) > V+1 {
		h.failed(s, "skipped", "%s(%s): the component before it has not been examined", what, absint.Show(arg))
		return "", false, false
	}
	if trail && len(l) > V {
		h.failed(s, "component", "%s(%s): with the separator at its end a link is followed and not seen", what, absint.Show(arg))
		return "", false, false
	}
	return keyPath(l), len(l) == V+1, true
}

func (h *pathH) call(m *absint.Machine, s *absint.State, ci *absint.CallInfo) ([]absint.Outcome, bool) {
	if h.gave {
		s.Kill()
		return nil, true
	}
	if ci.Method != nil {
		t, ok := s.Ghost["~fi"].(absint.VTuple)
		if ok && absint.Key(ci.Recv) == absint.Key(t.F[0]) {
			kind := t.F[1].(absint.VStr).T.S
			switch ci.Method.Name() {
			case "Mode":
				return []absint.Outcome{{S: s, V: absint.BVal(s.Const(uint32(kindMode(kind)) | 0755))}}, true
			case "IsDir":
				return []absint.Outcome{{S: s, V: absint.BoolOf(kind == "directory")}}, true
			}
		}
		return nil, false
	}
	if o, ok := m.SepModel(s, ci, nil); ok {
		return o, ok
	}
	switch ci.Name {
	case "path/filepath.Abs":
		return h.abs(s, ci.Args[0])
	case "path/filepath.Clean", "path.Clean", "path/filepath.Dir", "path.Dir":
		t, ok := ci.Args[0].(absint.VStr)
		if !ok || s.Ghost["E"] == nil || unknownPath(t.T) {
			return nil, false
		}
		l, abs, _, odd := parsePath(t.T)
		if odd != "" || !abs {
			return nil, false
		}
		if strings.HasSuffix(ci.Name, "Dir") {
			if len(l) == 0 || t.T.Op == "cat" && strings.HasSuffix(t.T.Args[len(t.T.Args)-1].(absint.VStr).T.S, "/") {
				return nil, false
			}
			l = l[:len(l)-1]
		}
		if l, ok = h.lexical(s, l); !ok {
			return nil, true
		}
		return []absint.Outcome{{S: s, V: absint.VStr{T: pathTerm(l)}}}, true
	case "path/filepath.Join", "path.Join":
		sl, ok := ci.Args[0].(absint.VSlice)
		if !ok || s.Ghost["E"] == nil {
			return nil, false
		}
		t := absint.Str("").T
		n := s.SeqLen(sl)
		if !n.IsConst() {
			return nil, false
		}
		for i := 0; i < int(n.C); i++ {
			e, ok := s.SeqLoad(sl, i).(absint.VStr)
			if !ok || unknownPath(e.T) {
				return nil, false
			}
			if e.T.Op == "const" && e.T.S == "" {
				continue
			}
			if t.Op != "const" || t.S != "" {
				t = absint.Concat(t, absint.Str("/").T)
			}
			t = absint.Concat(t, e.T)
		}
		l, abs, _, odd := parsePath(t)
		if odd != "" || !abs {
			return nil, false
		}
		if l, ok = h.lexical(s, l); !ok {
			return nil, true
		}
		return []absint.Outcome{{S: s, V: absint.VStr{T: pathTerm(l)}}}, true
	case "path/filepath.IsAbs", "path.IsAbs":
		if t, ok := ci.Args[0].(absint.VStr); ok {
			if _, abs, _, odd := parsePath(t.T); odd == "" {
				return []absint.Outcome{{S: s, V: absint.BoolOf(abs)}}, true
			}
		}
	case "os.Lstat":
		return h.lstat(s, ci.Args[0])
	case "os.Stat":
		// follows links: tells nothing about the component itself
		key, _, ok := h.examine(s, "Stat", ci.Args[0])
		if !ok {
			return nil, true
		}
		return []absint.Outcome{{S: s, V: tuple(h.info(s, "directory", key), absint.VNil{})}}, true
	case "os.Readlink":
		return h.readlink(s, ci.Args[0])
	}
	return nil, false
}

func (h *pathH) info(s *absint.State, kind, key string) absint.Val {
	fi := s.Opq("fileinfo", true, true)
	s.Ghost["~fi"] = tuple(fi, str(kind))
	return fi
}

func (h *pathH) abs(s *absint.State, arg absint.Val) ([]absint.Outcome, bool) {
	h.c.Oblige(1)
	if s.Ghost["E"] == nil {
		// the path given by the user
		if absint.Key(arg) != absint.Key(s.Ghost["want"]) {
			if t, ok := arg.(absint.VStr); !ok || unknownArg(t.T) {
				h.unknown(s, "Abs", arg)
				return nil, true
			}
			h.failed(s, "dots", "the path made absolute is %s, not %s", absint.Show(arg), absint.Show(s.Ghost["want"]))
			return nil, true
		}
		n := s.Clone()
		e := n.OSErr("filepath.Abs")
		n.Ghost["failed"] = e
		var E []absint.Val
		for i := 0; i < h.depth; i++ {
			E = append(E, pathComp(s))
		}
		s.Ghost["E"] = tuple(E...)
		s.Note("the absolute path is %s", showPath(E))
		outs := []absint.Outcome{{S: s, V: tuple(absint.VStr{T: pathTerm(E)}, absint.VNil{})}}
		if h.layout == "any" {
			outs = append(outs, absint.Outcome{S: n, V: tuple(str(""), e)})
		}
		return outs, true
	}
	t, ok := arg.(absint.VStr)
	if !ok {
		return nil, false
	}
	if unknownPath(t.T) {
		h.unknown(s, "Abs", arg)
		return nil, true
	}
	l, abs, _, odd := parsePath(t.T)
	if odd != "" || !abs {
		h.failed(s, "component", "Abs(%s) in the middle of resolving", absint.Show(arg))
		return nil, true
	}
	for _, v := range l {
		if x := v.(absint.VStr).T; x.Op == "const" && (x.S == "." || x.S == "..") {
			return nil, false
		}
	}
	// absolute and clean already
	return []absint.Outcome{{S: s, V: tuple(absint.VStr{T: pathTerm(l)}, absint.VNil{})}}, true
}

func (h *pathH) lstat(s *absint.State, arg absint.Val) ([]absint.Outcome, bool) {
	n := ghostInt(s, "calls") + 1
	s.Ghost["calls"] = absint.Num(int64(n))
	if n > 330 || n > 100 && h.layout == "any" {
		h.failed(s, "endless", "after %d components the resolution has not ended (%s)", n-1, h.layout)
		return nil, true
	}
	if s.Ghost["failed"] != nil {
		h.failed(s, "error", "the resolution goes on after a failure")
		return nil, true
	}
	key, next, ok := h.examine(s, "Lstat", arg)
	if !ok {
		return nil, true
	}
	var outs []absint.Outcome
	out := func(x *absint.State, kind string) {
		if next {
			x.Ghost["fs:"+key] = str(kind)
			if kind == "symlink" {
				x.Ghost["link"] = str(key)
			} else {
				x.Ghost["V"] = absint.Num(int64(ghostInt(x, "V") + 1))
				delete(x.Ghost, "link")
			}
			x.Note("%s is a %s", absint.Show(arg), kind)
		}
		outs = append(outs, absint.Outcome{S: x, V: tuple(h.info(x, kind, key), absint.VNil{})})
	}
	if !next {
		out(s, "directory")
		return outs, true
	}
	if k := ghostStr(s.Ghost, "fs:"+key); k != "" {
		out(s, k)
		return outs, true
	}
	kinds := []string{"directory"}
	switch {
	case h.layout == "plain":
	case h.layout != "any":
		kinds = []string{"symlink"}
		if strings.HasPrefix(h.layout, "second") && ghostInt(s, "V") == 0 {
			kinds = []string{"directory"}
		}
	default:
		kinds = append(kinds, "failure")
		if h.links < 2 {
			kinds = append(kinds, "file", "pipe")
		}
		E := comps(s.Ghost["E"])
		t := E[ghostInt(s, "V")].(absint.VStr).T
		switch {
		case t.Op == "const": // . or ..
			kinds = kinds[:2]
		case ghostInt(s, "links") < h.links:
			kinds = append(kinds, "symlink")
		}
	}
	for _, k := range kinds {
		x := s.Clone()
		if k == "failure" {
			e := x.OSErr("Lstat")
			x.Ghost["failed"] = e
			x.Note("Lstat(%s) fails", absint.Show(arg))
			outs = append(outs, absint.Outcome{S: x, V: tuple(absint.VNil{}, e)})
			continue
		}
		out(x, k)
	}
	return outs, true
}

func (h *pathH) readlink(s *absint.State, arg absint.Val) ([]absint.Outcome, bool) {
	if s.Ghost["failed"] != nil {
		h.failed(s, "error", "the resolution goes on after a failure")
		return nil, true
	}
	key, next, ok := h.examine(s, "Readlink", arg)
	if !ok {
		return nil, true
	}
	if !next || ghostStr(s.Ghost, "link") != key {
		return nil, false // a way of telling links which is not modelled
	}
	E, V := comps(s.Ghost["E"]), ghostInt(s, "V")
	var outs []absint.Outcome
	follow := func(x *absint.State, abs bool, target string, to []absint.Val) {
		var n []absint.Val
		v := 0
		if !abs {
			n = append(n, E[:V]...)
			v = V
		}
		n = append(append(n, to...), E[V+1:]...)
		t := absint.Str("").T
		for i, c := range to {
			sep := ""
			if i > 0 || abs {
				sep = "/"
			}
			t = absint.Concat(absint.Concat(t, absint.Str(sep).T), c.(absint.VStr).T)
		}
		if abs && len(to) == 0 {
			t = absint.Str("/").T
		}
		if strings.HasSuffix(target, "/") && len(to) > 0 {
			t = absint.Concat(t, absint.Str("/").T)
		}
		x.Ghost["E"] = tuple(n...)
		x.Ghost["V"] = absint.Num(int64(v))
		x.Ghost["links"] = absint.Num(int64(ghostInt(x, "links") + 1))
		delete(x.Ghost, "link")
		x.Note("the link %s leads to %s: the path is %s", absint.Show(arg), absint.Show(absint.VStr{T: t}), showPath(n))
		outs = append(outs, absint.Outcome{S: x, V: tuple(absint.VStr{T: t}, absint.VNil{})})
	}
	last := E[V]
	switch strings.TrimPrefix(h.layout, "second ") {
	case "link to itself":
		follow(s.Clone(), false, "", []absint.Val{last})
		return outs, true
	case "absolute link to itself":
		follow(s.Clone(), true, "", E[:V+1:V+1])
		return outs, true
	case "link through itself":
		x := s.Clone()
		follow(x, false, "", []absint.Val{last, pathComp(x)})
		return outs, true
	case "links without end":
		x := s.Clone()
		follow(x, false, "", []absint.Val{pathComp(x)})
		return outs, true
	case "absolute links without end":
		x := s.Clone()
		follow(x, true, "", append(append([]absint.Val(nil), E[:V]...), pathComp(x)))
		return outs, true
	}
	{
		x := s.Clone()
		e := x.OSErr("Readlink")
		x.Ghost["failed"] = e
		x.Note("Readlink(%s) fails", absint.Show(arg))
		outs = append(outs, absint.Outcome{S: x, V: tuple(str(""), e)})
	}
	up := absint.Str("..")
	dot := absint.Str(".")
	for _, k := range []string{"a", "a b", "/a", "/a b", "up a", "up", "/", "a/", "dot a", "/a up b"} {
		x := s.Clone()
		a := pathComp(x)
		var b absint.Val
		switch k {
		case "a":
			follow(x, false, k, []absint.Val{a})
		case "a/":
			follow(x, false, k, []absint.Val{a})
		case "a b":
			b = pathComp(x)
			follow(x, false, k, []absint.Val{a, b})
		case "/a":
			follow(x, true, k, []absint.Val{a})
		case "/a b":
			b = pathComp(x)
			follow(x, true, k, []absint.Val{a, b})
		case "/a up b":
			b = pathComp(x)
			follow(x, true, k, []absint.Val{a, up, b})
		case "up a":
			follow(x, false, k, []absint.Val{up, a})
		case "dot a":
			follow(x, false, k, []absint.Val{dot, a})
		case "up":
			follow(x, false, k, []absint.Val{up})
		case "/":
			follow(x, true, k, nil)
		}
	}
	return outs, true
}

// done judges what cleanpath returns.
func (h *pathH) done(s *absint.State, v absint.Val) {
	h.c.Oblige(3)
	t, ok := v.(absint.VTuple)
	if !ok || len(t.F) != 3 {
		h.c.Fail("resolve", "cleanpath", "", "cleanpath does not return a path, a flag and an error")
		return
	}
	_, isNil := t.F[2].(absint.VNil)
	E, V := comps(s.Ghost["E"]), ghostInt(s, "V")
	if s.Ghost["failed"] != nil {
		if isNil {
			h.failed(s, "error", "a failure to examine the path is not reported")
		}
		return
	}
	if !isNil {
		if n := ghostInt(s, "calls"); n < 100 {
			h.failed(s, "error", "an error is returned although nothing failed, after %d components", n)
		}
		return
	}
	if s.Ghost["E"] == nil {
		h.failed(s, "absolute", "the path returned was not made absolute")
		return
	}
	p, ok := t.F[0].(absint.VStr)
	if !ok {
		h.c.Fail("undecided", "cleanpath", "", "the path returned is not known: %s", absint.Show(t.F[0]))
		return
	}
	T, clean := p.T, false
	for T.Op == "clean" {
		T, clean = T.Args[0].(absint.VStr).T, true
	}
	if T.Op == "const" && T.S == "/" {
		clean = true
	}
	if unknownPath(T) {
		h.unknown(s, "the result", t.F[0])
		return
	}
	l, abs, trail, odd := parsePath(T)
	switch {
	case odd != "":
		h.failed(s, "result", "the path returned is %s: %s", absint.Show(t.F[0]), odd)
		return
	case !abs && len(E) > 0:
		h.failed(s, "result", "the path returned is not absolute: %s", absint.Show(t.F[0]))
		return
	case !samePath(l, E):
		h.failed(s, "result", "the path returned is %s, the resolved path is %s", absint.Show(t.F[0]), showPath(E))
		return
	case V < len(E):
		h.failed(s, "unexamined", "the path returned has a component which was not examined, and may be a link: %s", absint.Show(E[V]))
		return
	}
	if !clean {
		dots := trail
		for _, c := range l {
			if x := c.(absint.VStr).T; x.Op == "const" {
				dots = true
			}
		}
		if dots || absint.Key(absint.VStr{T: T}) != absint.Key(absint.VStr{T: pathTerm(l)}) {
			h.failed(s, "clean", "the path returned is not clean: %s", absint.Show(t.F[0]))
			return
		}
	}
	b, ok := t.F[1].(absint.VBool)
	want := s.Ghost["isrec"]
	if !ok {
		h.c.Fail("undecided", "cleanpath", "", "the flag returned is not known")
		return
	}
	switch s.Truth(b.P) {
	case 1:
		if absint.Key(want) != absint.Key(absint.BoolOf(true)) {
			h.failed(s, "dots", "a path which does not end in ... is taken as recursive")
		}
	case 0:
		if absint.Key(want) != absint.Key(absint.BoolOf(false)) {
			h.failed(s, "dots", "a path which ends in ... is not taken as recursive")
		}
	default:
		h.c.Fail("undecided", "cleanpath", "", "the flag returned is not known")
	}
}

func checkPaths(c *Ctx) {
	c.R.Cov["explanation"] = "cleanpath is interpreted over a path of symbolic components in a file system in which every component may be a directory, a file, a link with one of ten forms of target, or fail to be examined; a resolver over component lists is the specification."
	c.Assume("filepath.Abs returns an absolute clean path or an error, and changes nothing about a path which is absolute and clean; the file system does not change while a path is resolved.")
	p := c.Load(Linux)
	if p == nil {
		return
	}
	fn := p.Pkg.Func("cleanpath")
	if fn == nil || len(fn.Params) != 1 {
		c.Fail("resolve", "cleanpath", "", "no function cleanpath(path)")
		return
	}
	type form struct {
		name  string
		path  func(s *absint.State) *absint.Term
		strip int64
	}
	cat := func(suffix string) func(s *absint.State) *absint.Term {
		return func(s *absint.State) *absint.Term {
			return absint.Concat(s.Sym("path"), absint.Str(suffix).T)
		}
	}
	konst := func(v string) func(s *absint.State) *absint.Term {
		return func(s *absint.State) *absint.Term { return absint.Str(v).T }
	}
	forms := []form{
		{"any path ending in ...", cat("..."), 3},
		{"any path ending in a name", cat("/ab"), 0},
		{"any path ending in one dot", cat("ab."), 0},
		{"any path ending in two dots", cat("/.."), 0},
		{"the empty path", konst(""), 0},
		{".", konst("."), 0},
		{"..", konst(".."), 0},
		{"a", konst("a"), 0},
		{"/", konst("/"), 0},
	}
	undecided := false // or known to be wrong
	run := func(name string, f form, h *pathH) {
		if undecided {
			return
		}
		ends := 0
		h.c = c
		m := c.Scenario(p, name, []uint32{modeDir, modeSymlink, modeNamedPipe, 1<<26 | 1<<24 | 1<<21 | 1<<19}, func(m *absint.Machine, s *absint.State) {
			ends = 0
			m.ScanLoops = true
			m.Unroll, m.WidenAfter, m.MaxSteps = 2000, 2000, 800000
			h.fail = c.pipeFail(name)
			t := f.path(s)
			s.Ghost["want"] = absint.VStr{T: absint.SliceTerm(t, absint.ConstLin(0), absint.LenOf(t).Plus(-f.strip))}
			s.Ghost["isrec"] = absint.BoolOf(f.strip > 0)
			m.H.Call = h.call
			m.H.Panic = func(m *absint.Machine, s *absint.State, in ssa.Instruction, v absint.Val, why string) {
				h.fail(s, "path/panic", "path resolution", "resolving a path can panic: %s", why)
			}
			for _, o := range m.Eval(s, fn, []absint.Val{absint.VStr{T: t}}, nil) {
				ends++
				h.done(o.S, o.V)
			}
		})
		undecided = h.lost > 0 || h.bad > 0 || len(m.Undecided) > 0
		if ends == 0 && !undecided && len(c.R.Findings) == 0 {
			c.Fail("path/vacuous", name, PosOf(p, fn), "no path is ever resolved")
		}
		c.Count("scenarios", 1)
		c.Sample("%s: %d end states", name, ends)
	}
	for _, f := range forms {
		run(f.name, f, &pathH{layout: "any", depth: 1, links: 1})
	}
	f := forms[1]
	for d := 0; d <= 4; d++ {
		links := 2
		if d == 2 {
			links = 1
		}
		run(fmt.Sprintf("%d components, up to %d links", d, links), f, &pathH{layout: "any", depth: d, links: links})
	}
	run("64 components without links", f, &pathH{layout: "plain", depth: 64})
	for _, pre := range []string{"", "second "} {
		for _, l := range []string{"link to itself", "absolute link to itself", "link through itself", "links without end", "absolute links without end"} {
			run(pre+l, f, &pathH{layout: pre + l, depth: 3})
		}
	}
}
