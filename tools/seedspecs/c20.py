exec(open('/tmp/seeds2/pre.py').read())
ID="c20-close-order";PROP="C20"
NEEDS="an event on its way while the tree is closed"
BREAKS="the event channel is closed before the watcher that sends on it"
EDITS=[("tree_nonrecursive.go","""	err := t.w.Close()
	close(t.c)
	return err""","""	defer func() { t.root = root{} }()
	close(t.c)
	return t.w.Close()""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	in := make(chan EventInfo, 4)
	s := newSpy()
	tr := newNonrecursiveTree(s, in, nil)
	var sent interface{}
	s.close = func() {
		defer func() { sent = recover() }()
		in <- &fake{path: "/a", ev: Create}
	}
	tr.Close()
	if sent != nil {
		t.Fatal("the watcher's last event:", sent)
	}
}
'''
