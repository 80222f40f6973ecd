package notify

// Demonstrations of the defects of the recursive tree which were repaired
// (see known_findings.txt). Run with an overlay:
//   go test -overlay F.json -run TestFinding .

import (
	"errors"
	"fmt"
	"os"
	"testing"
	"time"
)

type fw struct {
	on  map[string]string
	bad string
}

func (f *fw) do(op, p string, e Event) error {
	if f.bad == op {
		f.bad = ""
		return errors.New(op + " refused")
	}
	return nil
}
func (f *fw) Watch(p string, e Event) error {
	if err := f.do("Watch", p, e); err != nil {
		return err
	}
	f.on[p] = fmt.Sprint(e, " flat")
	return nil
}
func (f *fw) Unwatch(p string) error {
	if err := f.do("Unwatch", p, 0); err != nil {
		return err
	}
	delete(f.on, p)
	return nil
}
func (f *fw) Rewatch(p string, o, e Event) error {
	if err := f.do("Rewatch", p, e); err != nil {
		return err
	}
	f.on[p] = fmt.Sprint(e, " flat")
	return nil
}
func (f *fw) RecursiveWatch(p string, e Event) error {
	if err := f.do("RecursiveWatch", p, e); err != nil {
		return err
	}
	f.on[p] = fmt.Sprint(e, " deep")
	return nil
}
func (f *fw) RecursiveUnwatch(p string) error {
	if err := f.do("RecursiveUnwatch", p, 0); err != nil {
		return err
	}
	delete(f.on, p)
	return nil
}
func (f *fw) RecursiveRewatch(p, q string, o, e Event) error {
	if err := f.do("RecursiveRewatch", p, e); err != nil {
		return err
	}
	delete(f.on, p)
	f.on[q] = fmt.Sprint(e, " deep")
	return nil
}
func (f *fw) Close() error { return nil }

func finding(t *testing.T) (*fw, *recursiveTree, string, chan EventInfo, chan EventInfo, chan EventInfo) {
	f := &fw{on: map[string]string{}}
	in := make(chan EventInfo)
	d, err := canonical(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Mkdir(d+"/x", 0700); err != nil {
		t.Fatal(err)
	}
	return f, newRecursiveTree(f, in), d, make(chan EventInfo, 8), make(chan EventInfo, 8), in
}

func TestFindingStopUnwatches(t *testing.T) {
	f, tr, d, c1, c2, _ := finding(t)
	tr.Watch(d+"/...", c1, Create)
	tr.Watch(d+"/x", c2, Remove)
	tr.Stop(c2)
	if len(f.on) == 0 {
		t.Fatal("nothing is watched any more although c1 is registered")
	}
}

func TestFindingNotRecursive(t *testing.T) {
	f, tr, d, c1, c2, _ := finding(t)
	tr.Watch(d, c1, Create)
	tr.Watch(d+"/...", c2, Create)
	if s := f.on[d]; s != fmt.Sprint(Create, " deep") {
		t.Fatalf("watched: %s", s)
	}
}

func TestFindingRollback(t *testing.T) {
	f, tr, d, c1, c2, in := finding(t)
	tr.Watch(d, c1, Create)
	f.bad = "Rewatch"
	if tr.Watch(d, c2, Create, Remove) == nil {
		t.Fatal("no error")
	}
	in <- &fcall{P: d + "/x", E: Create}
	time.Sleep(100 * time.Millisecond)
	if len(c1) != 1 || len(c2) != 0 {
		t.Fatalf("c1 got %d events, c2 %d", len(c1), len(c2))
	}
}

func TestFindingRollbackOnlyInternal(t *testing.T) {
	f, tr, d, c1, c2, _ := finding(t)
	_ = c2
	f.bad = "RecursiveWatch"
	if tr.Watch(d+"/x/...", c1, Create) == nil {
		t.Fatal("no error")
	}
	if err := tr.Watch(d, c1, Create); err != nil {
		t.Fatal(err)
	}
	if s := f.on[d]; s != fmt.Sprint(Create, " flat") {
		t.Fatalf("watched: %s", s)
	}
}

type fcall struct {
	P string
	E Event
}

func (c *fcall) Event() Event         { return c.E }
func (c *fcall) Path() string         { return c.P }
func (c *fcall) Sys() interface{}     { return nil }
func (c *fcall) isDir() (bool, error) { return false, nil }
