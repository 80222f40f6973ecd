exec(open('/tmp/seeds2/pre.py').read())
ID="c05-init-failure-lock";PROP="C05"
NEEDS="the first Watch failing to create the epoll instance or the pipe, then another operation"
BREAKS="a failed set-up of the watcher leaves its lock held, the next operation hangs"
EDITS=[("watcher_inotify.go","""		i.Lock()
		defer i.Unlock()
		if atomic.LoadInt32(&i.fd) == invalidDescriptor {
			fd, err := unix.InotifyInit1(unix.IN_CLOEXEC)
			if err != nil {
				return err
			}""","""		i.Lock()
		if atomic.LoadInt32(&i.fd) == invalidDescriptor {
			fd, err := unix.InotifyInit1(unix.IN_CLOEXEC)
			if err != nil {
				i.Unlock()
				return err
			}"""),("watcher_inotify.go","""				go i.send(esch)
			}
		}
	}""","""				go i.send(esch)
			}
		}
		i.Unlock()
	}""")]
TEST=PRE.replace('"time"\n)','"time"\n\n\t"golang.org/x/sys/unix"\n)')+'''
func TestDemo(t *testing.T) {
	w := newWatcher(make(chan EventInfo, 1)).(*inotify)
	dir := t.TempDir()
	var old unix.Rlimit
	if err := unix.Getrlimit(unix.RLIMIT_NOFILE, &old); err != nil {
		t.Fatal(err)
	}
	var hold []*os.File
	defer func() {
		unix.Setrlimit(unix.RLIMIT_NOFILE, &old)
		for _, f := range hold {
			f.Close()
		}
	}()
	top := 0
	for i := 0; i < 40; i++ {
		f, err := os.Open("/dev/null")
		if err != nil {
			t.Fatal(err)
		}
		hold = append(hold, f)
		if int(f.Fd()) > top {
			top = int(f.Fd())
		}
	}
	lim := old
	lim.Cur = uint64(top + 2)
	if err := unix.Setrlimit(unix.RLIMIT_NOFILE, &lim); err != nil {
		t.Fatal(err)
	}
	err := w.Watch(dir, Create)
	unix.Setrlimit(unix.RLIMIT_NOFILE, &old)
	if err == nil {
		t.Skip("the descriptor limit has no effect")
	}
	if !ends(func() { err = w.Watch(dir, Create) }) {
		t.Fatal("the second Watch hangs")
	}
	if err != nil {
		t.Fatal(err)
	}
}
'''
