exec(open('/tmp/seeds2/pre.py').read())
ID="c15-relative-cycle";PROP="C15"
NEEDS="a cycle of relative symbolic links"
BREAKS="resolving a path through a cycle of relative links never ends"
EDITS=[("util.go","""				p = p[:j] + s + p[i:]
""","""				p = p[:j] + s + p[i:]
				if depth > len(p) {
					depth = 1 // resolved in place, only longer paths can be circular
				}
""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t)
	if err := os.Symlink("b", filepath.Join(d, "a")); err != nil {
		t.Fatal(err)
	}
	if err := os.Symlink("a", filepath.Join(d, "b")); err != nil {
		t.Fatal(err)
	}
	var err error
	if !ends(func() { _, err = canonical(filepath.Join(d, "a")) }) {
		t.Fatal("canonical does not end")
	}
	if err == nil {
		t.Fatal("a cycle of links was resolved")
	}
}
'''
