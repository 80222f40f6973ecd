exec(open('/tmp/seeds2/pre.py').read())
ID="c12-swapped-names";PROP="C12"
NEEDS="printing InCloseWrite or InCloseNowrite"
BREAKS="two native events print under each other's name"
EDITS=[("event_inotify.go",'InCloseWrite:   "notify.InCloseWrite"','InCloseWrite:   "notify.InCloseNowrite"'),("event_inotify.go",'InCloseNowrite: "notify.InCloseNowrite"','InCloseNowrite: "notify.InCloseWrite"')]
TEST=PRE+'''
func TestDemo(t *testing.T) {
	if s := InCloseWrite.String(); s != "notify.InCloseWrite" {
		t.Fatal("InCloseWrite prints as", s)
	}
}
'''
