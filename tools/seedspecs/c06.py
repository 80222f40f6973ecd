exec(open('/tmp/seeds2/pre.py').read())
ID="c06-handoff-under-lock";PROP="C06"
NEEDS="more directories created at once below a recursive watch than the internal queue takes"
BREAKS="directory events are handed to the internal goroutine with the tree lock held, which that goroutine needs"
EDITS=[("tree_nonrecursive.go","""			t.rw.RLock()
			// Notify recursive""","""			t.rw.RLock()
			defer t.rw.RUnlock()
			// Notify recursive"""),("tree_nonrecursive.go","""				dbgprint("dispatch did not reach leaf:", err)
				t.rw.RUnlock()
""","""				dbgprint("dispatch did not reach leaf:", err)
"""),("tree_nonrecursive.go","""				nd.Watch.Dispatch(ei, 0)
			}
			t.rw.RUnlock()
""","""				nd.Watch.Dispatch(ei, 0)
			}
""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t, "x")
	in := make(chan EventInfo)
	tr := newNonrecursiveTree(newSpy(), in, make(chan EventInfo, 1))
	c := make(chan EventInfo, 8)
	if err := tr.Watch(filepath.Join(d, "..."), c, Create); err != nil {
		t.Fatal(err)
	}
	if !ends(func() {
		for i := 0; i < 2000; i++ {
			in <- &fake{path: filepath.Join(d, "x"), ev: Create, dir: true}
		}
		tr.Stop(c)
	}) {
		t.Fatal("Stop hangs")
	}
}
'''
