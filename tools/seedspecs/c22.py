exec(open('/tmp/seeds2/pre.py').read())
ID="c22-late-empty";PROP="C22"
NEEDS="Watch with no events for a path that does not exist"
BREAKS="Watch without events is no longer a no-op: it fails for unresolvable paths"
EDITS=[("tree_nonrecursive.go","""	// Expanding with empty event set is a nop.
	if len(events) == 0 {
		return nil
	}
	path, isrec, err := cleanpath(path)
	if err != nil {
		return err
	}
""","""	path, isrec, err := cleanpath(path)
	if err != nil {
		return err
	}
	// Expanding with empty event set is a nop.
	if len(events) == 0 {
		return nil
	}
""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	tr := newNonrecursiveTree(newSpy(), make(chan EventInfo), nil)
	if err := tr.Watch(filepath.Join(t.TempDir(), "missing"), make(chan EventInfo, 1)); err != nil {
		t.Fatal("Watch without events:", err)
	}
}
'''
