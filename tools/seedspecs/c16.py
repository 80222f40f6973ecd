exec(open('/tmp/seeds2/pre.py').read())
ID="c16-vanished-dir";PROP="C16"
NEEDS="a subdirectory that cannot be listed while a recursive watch is set up"
BREAKS="a directory that cannot be listed is taken for an empty one and the rest is reported as watched"
EDITS=[("node.go","""		fi, err := os.ReadDir(nd.Name)
		if err != nil {
			return err
		}""","""		fi, err := os.ReadDir(nd.Name)
		if err != nil {
			if len(stack) != 0 {
				continue
			}
			return err
		}""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t, "a", "b")
	nd := root{newnode("")}.Add(d)
	n := 0
	err := nd.AddDir(func(nd node) error {
		if nd.Name != d {
			if n++; n == 1 {
				return os.Remove(nd.Name)
			}
		}
		return nil
	})
	if err == nil {
		t.Fatal("a directory could not be listed and no error is returned")
	}
}
'''
