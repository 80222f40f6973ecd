exec(open('/tmp/seeds2/pre.py').read())
ID="c17-removed-dir";PROP="C17"
NEEDS="a directory removed below a recursive watch that did not ask for Remove alone"
BREAKS="watches of removed directories are kept unless they had no subdirectories"
EDITS=[("tree_nonrecursive.go","""			t.walkWatchpoint(nd, func(_ Event, nd node) error {
				t.w.Unwatch(nd.Name)
				return nil
			})""","""			t.walkWatchpoint(nd, func(_ Event, nd node) error {
				if err := t.w.Unwatch(nd.Name); err != nil {
					return err
				}
				return nil
			})""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t, "x/y")
	s := newSpy()
	in := make(chan EventInfo)
	tr := newNonrecursiveTree(s, in, nil)
	c := make(chan EventInfo, 8)
	if err := tr.Watch(filepath.Join(d, "..."), c, Create, Remove); err != nil {
		t.Fatal(err)
	}
	x, y := filepath.Join(d, "x"), filepath.Join(d, "x/y")
	s.fail = func(op, path string) error {
		if op == "Unwatch" && path == x {
			return errors.New("the kernel removed it already")
		}
		return nil
	}
	in <- &fake{path: x, ev: Remove, dir: true}
	if !soon(func() bool { _, ok := s.get(y); return !ok }) {
		t.Fatal("the watch below the removed directory is kept")
	}
}
'''
