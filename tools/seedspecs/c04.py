exec(open('/tmp/seeds2/pre.py').read())
ID="c04-short-rlock";PROP="C04";RACE=True
NEEDS="an event being prepared while the mask of its watch is changed"
BREAKS="the watched path and mask are read after the lock that guards them was released"
EDITS=[("watcher_inotify.go","""	i.RLock()
	for idx, e := range es {
		if e.sys""","""	for idx, e := range es {
		if e.sys"""),("watcher_inotify.go","""		wd, ok := i.m[e.sys.Wd]
		if !ok ||""","""		i.RLock()
		wd, ok := i.m[e.sys.Wd]
		i.RUnlock()
		if !ok ||"""),("watcher_inotify.go","""	i.RUnlock()
	es = append(es, multi...)""","""	es = append(es, multi...)""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t)
	i := newWatcher(make(chan EventInfo, 16)).(*inotify)
	defer i.Close()
	if err := i.Watch(d, Create); err != nil {
		t.Fatal(err)
	}
	var wd int32
	for k := range i.m {
		wd = k
	}
	done := make(chan bool)
	go func() {
		for n := 0; n < 2000; n++ {
			e := &event{path: "f"}
			e.sys.Wd, e.sys.Mask = wd, uint32(InCreate)
			i.transform([]*event{e})
		}
		close(done)
	}()
	for n := 0; n < 2000; n++ {
		if err := i.Rewatch(d, Create, []Event{Create, Create | Write}[n%2]); err != nil {
			t.Fatal(err)
		}
	}
	<-done
}
'''
