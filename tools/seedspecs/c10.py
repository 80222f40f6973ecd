exec(open('/tmp/seeds2/pre.py').read())
ID="c10-rewatch-error";PROP="C10"
NEEDS="the watcher refusing to widen an existing watch"
BREAKS="Watch returns nil although the watcher refused to watch for the additional events"
EDITS=[("tree_nonrecursive.go","""	default:
		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
	}
	if err != nil {""","""	default:
		if err = t.w.Rewatch(nd.Name, diff[0], diff[1]); err != nil {
			// The old watch may be stale: set it up from scratch.
			t.w.Unwatch(nd.Name)
			err = nil
			if e := t.w.Watch(nd.Name, diff[1]); e != nil && diff[0] == 0 {
				err = e
			}
		}
	}
	if err != nil {""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t)
	s := newSpy()
	tr := newNonrecursiveTree(s, make(chan EventInfo), nil)
	a, b := make(chan EventInfo, 8), make(chan EventInfo, 8)
	if err := tr.Watch(d, a, Create); err != nil {
		t.Fatal(err)
	}
	s.fail = func(op, _ string) error {
		if op != "Unwatch" {
			return errors.New("refused")
		}
		return nil
	}
	if err := tr.Watch(d, b, Write); err == nil {
		t.Fatal("a refused watch is reported as done")
	}
}
'''
