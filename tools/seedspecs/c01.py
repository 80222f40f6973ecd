exec(open('/tmp/seeds2/pre.py').read())
ID="c01-unbuffered-grace";PROP="C01"
NEEDS="an unbuffered user channel without a receiver at the moment of an event"
BREAKS="delivery waits for the receiver of an unbuffered channel, which stalls other channels, Watch, Stop and Close"
EDITS=[("watchpoint.go","""			default: // Drop event if receiver is too slow
""","""			default: // Drop event if receiver is too slow
				if cap(ch) == 0 {
					// An unbuffered receiver may just be between two receives.
					select {
					case ch <- ei:
						continue
					case <-time.After(time.Minute):
					}
				}
"""),("watchpoint.go","package notify\n","package notify\n\nimport \"time\"\n")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	wp := make(watchpoint)
	wp.Add(make(chan EventInfo), Create)
	if !ends(func() { wp.Dispatch(&fake{path: "/a/b", ev: Create}, 0) }) {
		t.Fatal("dispatch waits for a receiver")
	}
}
'''
