exec(open('/tmp/seeds2/pre.py').read())
ID="c24-root-join";PROP="C24"
NEEDS="an event of a file directly in a watched root directory"
BREAKS="the path of the event begins with two separators and is not clean"
EDITS=[("watcher_inotify.go","""			e.path = filepath.Join(wd.path, e.path)""","""			e.path = wd.path + sep + e.path"""),("watcher_inotify.go","""	"path/filepath"
""","")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	i := newWatcher(make(chan EventInfo, 4)).(*inotify)
	i.m[7] = &watched{path: "/", mask: uint32(Create)}
	e := &event{path: "f"}
	e.sys.Wd, e.sys.Mask = 7, uint32(InCreate)
	for _, x := range i.transform([]*event{e}) {
		if x != nil && x.Path() != "/f" {
			t.Fatal("the path is", x.Path())
		}
	}
}
'''
