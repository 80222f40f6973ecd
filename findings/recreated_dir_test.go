package notify

// Run with
//	go test -overlay FILE.json -run TestRecreatedDir .
// where FILE.json is
//	{"Replace": {"/repo/recreated_dir_verif_test.go": "/verif/findings/recreated_dir_test.go"}}
//
// Fails before the commit "fix: watch a directory anew which was removed and
// created again below a recursive watch".

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestRecreatedDir(t *testing.T) {
	d, err := filepath.EvalSymlinks(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	tr := newTree()
	defer tr.Close()
	c := make(chan EventInfo, 100)
	if err := tr.Watch(filepath.Join(d, "..."), c, Write); err != nil {
		t.Fatal(err)
	}
	p := filepath.Join(d, "sub")
	pause := func() { time.Sleep(200 * time.Millisecond) }
	os.Mkdir(p, 0755)
	pause()
	os.Remove(p)
	pause()
	os.Mkdir(p, 0755)
	pause()
	os.WriteFile(filepath.Join(p, "f"), []byte("x"), 0644)
	select {
	case <-c:
	case <-time.After(2 * time.Second):
		t.Fatal("a file in a directory that was created again is not reported")
	}
}
