exec(open('/tmp/seeds2/pre.py').read())
ID="c09-stale-min";PROP="C09"
NEEDS="Stop of a recursive watch with subdirectories"
BREAKS="subdirectories stay watched after the only recursive watch above them is gone"
EDITS=[("tree_nonrecursive.go","""		if len(mnd.nd.Watch) != 0 {
			switch err := fn""","""		below := mnd.nd.Watch[t.rec] &^ mnd.nd.Watch[nil] | mnd.min
		if len(mnd.nd.Watch) != 0 {
			switch err := fn"""),("tree_nonrecursive.go","""minode{mnd.nd.Watch[t.rec], nd}""","""minode{mnd.nd.Watch[t.rec] | below, nd}""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t, "x/y")
	s := newSpy()
	tr := newNonrecursiveTree(s, make(chan EventInfo), nil)
	c := make(chan EventInfo, 8)
	if err := tr.Watch(filepath.Join(d, "..."), c, Create); err != nil {
		t.Fatal(err)
	}
	tr.Stop(c)
	if n := len(s.set); n != 0 {
		t.Fatal("still watched:", s.set)
	}
}
'''
