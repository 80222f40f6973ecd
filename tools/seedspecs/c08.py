exec(open('/tmp/seeds2/pre.py').read())
ID="c08-total-shortcut";PROP="C08"
NEEDS="the last but one channel unregistering events that the remaining channel still listens for"
BREAKS="the aggregate set loses events of the remaining channel"
EDITS=[("watchpoint.go","""		// Recalculate total event set.
		for _, e := range wp {
			diff[1] |= e
		}""","""		// Recalculate total event set.
		if _, ok := wp[c]; ok && len(wp) == 2 {
			diff[1] = diff[0] &^ e // c and one more: drop what c gave up
		} else {
			for _, e := range wp {
				diff[1] |= e
			}
		}""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	a, b := make(chan EventInfo, 4), make(chan EventInfo, 4)
	wp := make(watchpoint)
	wp.Add(a, Create|Write)
	wp.Add(b, Create|Remove)
	wp.Del(b, Create)
	if wp.Total() != Create|Write|Remove {
		t.Fatal("the aggregate is", wp.Total())
	}
}
'''
