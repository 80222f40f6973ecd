exec(open('/tmp/seeds2/pre.py').read())
ID="c02-leaf-after-unlock";PROP="C02"
NEEDS="Stop returning between the release of the tree lock and the delivery to the watch on the file itself"
BREAKS="an event is sent to a channel after Stop of it has returned"
EDITS=[("tree_nonrecursive.go","""			if nd, ok := nd.Child[base]; ok {
				isrec = isrec || nd.Watch.IsRecursive()
				nd.Watch.Dispatch(ei, 0)
			}
			t.rw.RUnlock()
""","""			leaf, ok := nd.Child[base]
			if !ok || len(leaf.Watch) == 0 {
				ok = false
			}
			var chans []chan<- EventInfo
			if ok {
				isrec = isrec || leaf.Watch.IsRecursive()
				for ch, eset := range leaf.Watch {
					if ch != nil && matches(eset, ei.Event()) {
						chans = append(chans, ch)
					}
				}
			}
			t.rw.RUnlock()
			for _, ch := range chans {
				select {
				case ch <- ei:
				default:
				}
			}
""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	d := tmp(t, "x")
	p := filepath.Join(d, "x")
	for round := 0; round < 3000; round++ {
		in := make(chan EventInfo)
		tr := newNonrecursiveTree(newSpy(), in, nil)
		c := make(chan EventInfo, 64)
		if err := tr.Watch(p, c, Write); err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 8; i++ {
			in <- &fake{path: p, ev: Write}
		}
		tr.Stop(c)
		n := len(c)
		for i := 0; i < 20; i++ {
			time.Sleep(time.Microsecond)
			if len(c) != n {
				t.Fatalf("round %d: %d events arrived after Stop had returned", round, len(c)-n)
			}
		}
		close(in)
	}
}
'''
