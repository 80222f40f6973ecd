exec(open('/tmp/seeds2/pre.py').read())
ID="c19-unknown-remove";PROP="C19"
NEEDS="a directory removed below a recursive watch before it was followed"
BREAKS="the goroutine that follows directories ends at the first removed directory it does not know"
EDITS=[("tree_nonrecursive.go","""			if err != nil {
				t.rw.Unlock()
				continue
			}""","""			if err != nil {
				t.rw.Unlock()
				dbgprintf("internal(%p) unknown: %v", rec, err)
				break
			}""") ,("tree_nonrecursive.go","""	for ei := range rec {
		t.rw.Lock()
		if ei.Event() == Remove {""","""	for ei := range rec {
		t.rw.Lock()
		switch ei.Event() == Remove { case true:"""),]
EDITS=[("tree_nonrecursive.go","""			if err != nil {
				t.rw.Unlock()
				continue
			}""","""			if err != nil {
				t.rw.Unlock()
				if _, e := t.root.Get(ei.Path()); e != nil {
					return
				}
				continue
			}""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t, "x")
	s := newSpy()
	in := make(chan EventInfo)
	tr := newNonrecursiveTree(s, in, nil)
	c := make(chan EventInfo, 8)
	if err := tr.Watch(filepath.Join(d, "..."), c, Create, Remove); err != nil {
		t.Fatal(err)
	}
	in <- &fake{path: filepath.Join(d, "gone"), ev: Remove, dir: true}
	time.Sleep(100 * time.Millisecond)
	if err := os.Mkdir(filepath.Join(d, "new"), 0755); err != nil {
		t.Fatal(err)
	}
	in <- &fake{path: filepath.Join(d, "new"), ev: Create, dir: true}
	if !soon(func() bool { _, ok := s.get(filepath.Join(d, "new")); return ok }) {
		t.Fatal("new directories are not followed any more")
	}
}
'''
