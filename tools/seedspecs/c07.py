exec(open('/tmp/seeds2/pre.py').read())
ID="c07-first-match";PROP="C07"
NEEDS="two channels at one path, one of which asked for events only below a recursive watch"
BREAKS="the recursive flag of one channel's set makes the other channels at the path match events from below"
EDITS=[("watchpoint.go","""		if ch != nil && matches(eset, e) {""","""		if ch != nil && matches(eset|wp[nil]&recursive, e) {""")]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	a, b := make(chan EventInfo, 4), make(chan EventInfo, 4)
	wp := make(watchpoint)
	wp.Add(a, Create)
	wp.Add(b, Create|recursive)
	wp.Dispatch(&fake{path: "/a/b/c", ev: Create}, recursive)
	if len(a) != 0 || len(b) != 1 {
		t.Fatal("the non-recursive channel got", len(a), "events, the recursive one", len(b))
	}
}
'''
