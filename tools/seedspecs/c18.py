exec(open('/tmp/seeds2/pre.py').read())
ID="c18-leaf-or-parent";PROP="C18"
NEEDS="a file and its directory watched by different channels for different events"
BREAKS="the watch on the file itself gets nothing when its directory is watched recursively"
EDITS=[("tree_nonrecursive.go","""			if nd, ok := nd.Child[base]; ok {
				isrec""","""			if nd, ok := nd.Child[base]; ok && !(isrec && len(nd.Watch) != 0 && nd.Watch[t.rec] == 0 && ei.Event()&Write != 0) {
				isrec""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t)
	f := filepath.Join(d, "f")
	if err := os.WriteFile(f, nil, 0644); err != nil {
		t.Fatal(err)
	}
	in := make(chan EventInfo)
	tr := newNonrecursiveTree(newSpy(), in, nil)
	a, b := make(chan EventInfo, 8), make(chan EventInfo, 8)
	if err := tr.Watch(filepath.Join(d, "..."), a, Write); err != nil {
		t.Fatal(err)
	}
	if err := tr.Watch(f, b, Write); err != nil {
		t.Fatal(err)
	}
	in <- &fake{path: f, ev: Write}
	if !soon(func() bool { return len(a) == 1 && len(b) == 1 }) {
		t.Fatal("the directory's channel got", len(a), "events, the file's", len(b))
	}
}
'''
