exec(open('/tmp/seeds2/pre.py').read())
ID="c23-record-first";PROP="C23"
NEEDS="the kernel refusing a watch after the path was watched once"
BREAKS="a watch that vanished while being renewed is reported as renewed"
EDITS=[("watcher_inotify.go","""	iwd, err := unix.InotifyAddWatch(int(i.fd), path, encode(e))
	if err != nil {
		return
	}""","""	iwd, err := unix.InotifyAddWatch(int(i.fd), path, encode(e))
	if err != nil {
		i.RLock()
		defer i.RUnlock()
		for _, wd := range i.m {
			if wd.path == path && err == unix.ENOENT {
				return nil // deleted meanwhile, its removal is reported as an event
			}
		}
		return
	}""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t, "x")
	w := newWatcher(make(chan EventInfo, 64))
	defer w.Close()
	p := filepath.Join(d, "x")
	if err := w.Watch(p, Create); err != nil {
		t.Fatal(err)
	}
	if err := os.Remove(p); err != nil {
		t.Fatal(err)
	}
	if err := w.Rewatch(p, Create, Create|Write); err == nil {
		t.Fatal("rewatching a missing path succeeds")
	}
}
'''
