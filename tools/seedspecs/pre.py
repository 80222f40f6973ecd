PRE='''
package notify

import (
	"errors"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
)

var _ = errors.New
var _ = os.Getpid
var _ = filepath.Join
var _ = time.Now

// spy is a per-directory watcher that records what it is asked for.
type spy struct {
	mu    sync.Mutex
	set   map[string]Event
	fail  func(op, path string) error
	close func()
}

func newSpy() *spy { return &spy{set: map[string]Event{}} }

func (s *spy) do(op, path string, e Event) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fail != nil {
		if err := s.fail(op, path); err != nil {
			return err
		}
	}
	if op == "Unwatch" {
		delete(s.set, path)
	} else {
		s.set[path] = e
	}
	return nil
}
func (s *spy) Watch(p string, e Event) error      { return s.do("Watch", p, e) }
func (s *spy) Rewatch(p string, _, e Event) error { return s.do("Rewatch", p, e) }
func (s *spy) Unwatch(p string) error             { return s.do("Unwatch", p, 0) }
func (s *spy) Close() error {
	if s.close != nil {
		s.close()
	}
	return nil
}
func (s *spy) get(p string) (Event, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	e, ok := s.set[p]
	return e, ok
}

// fake is an event of our own making.
type fake struct {
	path  string
	ev    Event
	dir   bool
	onEv  func()
}

func (f *fake) Event() Event {
	if f.onEv != nil {
		f.onEv()
	}
	return f.ev
}
func (f *fake) Path() string         { return f.path }
func (f *fake) Sys() interface{}     { return nil }
func (f *fake) isDir() (bool, error) { return f.dir, nil }

func tmp(t *testing.T, dirs ...string) string {
	d, err := canonical(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	for _, x := range dirs {
		if err := os.MkdirAll(filepath.Join(d, x), 0755); err != nil {
			t.Fatal(err)
		}
	}
	return d
}

func soon(f func() bool) bool {
	for i := 0; i < 200; i++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func ends(f func()) bool {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(5 * time.Second):
		return false
	}
}
'''
