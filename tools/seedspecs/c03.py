exec(open('/tmp/seeds2/pre.py').read())
ID="c03-skip-subtree";PROP="C03"
NEEDS="a channel registered below a directory that only other channels watch"
BREAKS="Stop does not look below watched directories the channel is not registered at, and leaves its registrations there"
EDITS=[("tree_nonrecursive.go","""		// TODO(rjeczalik): aggregate watcher errors and retry; in worst case
		// forward to the user.
		switch""","""		// TODO(rjeczalik): aggregate watcher errors and retry; in worst case
		// forward to the user.
		if _, ok := nd.Watch[c]; !ok && nd.Watch[t.rec] == 0 {
			return errSkip
		}
		switch""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t, "a/b")
	in := make(chan EventInfo)
	s := newSpy()
	tr := newNonrecursiveTree(s, in, nil)
	c1, c2 := make(chan EventInfo, 8), make(chan EventInfo, 8)
	if err := tr.Watch(filepath.Join(d, "a"), c1, Create); err != nil {
		t.Fatal(err)
	}
	if err := tr.Watch(filepath.Join(d, "a/b"), c2, Create); err != nil {
		t.Fatal(err)
	}
	tr.Stop(c2)
	if _, ok := s.get(filepath.Join(d, "a/b")); ok {
		t.Fatal("the path is still watched after Stop")
	}
	in <- &fake{path: filepath.Join(d, "a/b/f"), ev: Create}
	time.Sleep(200 * time.Millisecond)
	if len(c2) != 0 {
		t.Fatal("the stopped channel receives an event")
	}
}
'''
