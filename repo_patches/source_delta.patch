From ed7c6a92a85938a8fa34cfb9b2113d7b208f4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 01/10] fix: Unwatch every watch descriptor of a re-created
 path

inotify hands out a new watch descriptor when a watched path is removed,
created again and watched again, and the entry of the old one stays on
record. Unwatch removed whichever of the two it met first, so the live
kernel watch could be left behind.
---
 watcher_inotify.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 02b4328..62f8d3f 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -340,25 +340,28 @@ func decode(mask Event, e *event) (syse *event) {
 // This method is allowed to return EINVAL error when concurrently requested to
 // delete identical path.
 func (i *inotify) Unwatch(path string) (err error) {
-	iwd := int32(invalidDescriptor)
+	// A path which was deleted and created again while being watched has more
+	// than one watch descriptor on record.
+	var iwds []int32
 	i.RLock()
-	for iwdkey, wd := range i.m {
+	for iwd, wd := range i.m {
 		if wd.path == path {
-			iwd = iwdkey
-			break
+			iwds = append(iwds, iwd)
 		}
 	}
 	i.RUnlock()
-	if iwd == invalidDescriptor {
+	if len(iwds) == 0 {
 		return errors.New("notify: path " + path + " is already watched")
 	}
 	fd := atomic.LoadInt32(&i.fd)
-	if err = removeInotifyWatch(fd, iwd); err != nil {
-		return
+	for _, iwd := range iwds {
+		if err = removeInotifyWatch(fd, iwd); err != nil {
+			return
+		}
+		i.Lock()
+		delete(i.m, iwd)
+		i.Unlock()
 	}
-	i.Lock()
-	delete(i.m, iwd)
-	i.Unlock()
 	return nil
 }
 
-- 
2.43.0


From ed23954193f8b32dde430e0f8944224b10db3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/10] fix: Stop keeps only what remaining recursive watches
 need

A recursive watch's bookkeeping entry kept the events other channels listen
for at the node alone, so after the last recursive watch was stopped those
nodes stayed watched recursively and for Create.
---
 tree_nonrecursive.go | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 6e23340..7aece6e 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -131,28 +131,27 @@ func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventD
 // watchDelMin TODO(rjeczalik)
 func (t *nonrecursiveTree) watchDelMin(min Event, nd node, c chan<- EventInfo, e Event) eventDiff {
 	old, ok := nd.Watch[t.rec]
-	if ok {
-		nd.Watch[t.rec] = min
+	if !ok {
+		return nd.Watch.Del(c, e)
 	}
-	diff := nd.Watch.Del(c, e)
-	if ok {
-		switch old &^= diff[0] &^ diff[1]; {
-		case old|internal == internal:
-			delete(nd.Watch, t.rec)
-			if set, ok := nd.Watch[nil]; ok && len(nd.Watch) == 1 && set == 0 {
-				delete(nd.Watch, nil)
-			}
-		default:
-			nd.Watch.Add(t.rec, old|Create)
-			switch {
-			case diff == none:
-			case diff[1]|Create == diff[0]:
-				diff = none
-			default:
-				diff[1] |= Create
-			}
+	diff := eventDiff{nd.Watch.Total()}
+	nd.Watch.Del(c, e)
+	// The bookkeeping entry keeps only what is needed by recursive watchpoints
+	// above and at the node; events other channels listen for at the node alone
+	// do not belong to it.
+	need := min
+	for ch, eset := range nd.Watch {
+		if ch != nil && ch != t.rec && eset&recursive != 0 {
+			need |= eset
 		}
 	}
+	if need != 0 {
+		need |= Create | internal
+	}
+	nd.Watch.Del(t.rec, old&^need)
+	if diff[1] = nd.Watch.Total(); diff[0] == diff[1] {
+		return none
+	}
 	return diff
 }
 
-- 
2.43.0


From fd2de726ffe3307cf7b3c6aed92d8f182270e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/10] fix: roll back the whole registration when Watch fails

Rolling back with the difference of the totals left the events which another
channel listens for already.
---
 tree_nonrecursive.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 7aece6e..a362009 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -184,6 +184,7 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 }
 
 func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err error) {
+	old := nd.Watch[c]
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
@@ -197,7 +198,7 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 	}
 	if err != nil {
-		nd.Watch.Del(c, diff.Event())
+		nd.Watch.Del(c, e&^old)
 		return err
 	}
 	return nil
-- 
2.43.0


From 962f58c137a82f325eebbd62dcb0a977ea40e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 04/10] fix: follow new directories for every recursive watch
 above

The events of recursive watches on the path were compared as numbers, so a
new directory was only watched for the numerically largest set, which need
not contain the others.
---
 tree_nonrecursive.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index a362009..78651ad 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -97,9 +97,7 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		var nd node
 		var eset = internal
 		t.root.WalkPath(ei.Path(), func(it node, _ bool) error {
-			if e := it.Watch[t.rec]; e != 0 && e > eset {
-				eset = e
-			}
+			eset |= it.Watch[t.rec]
 			nd = it
 			return nil
 		})
-- 
2.43.0


From 6a777252d7e9b20a818681ab94fc8d7c3451cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 05/10] fix: dispatch events of paths directly below the root
 directory

WalkPath did not find the root node itself, so events whose parent directory
is the root were dropped before any watchpoint was asked.
---
 node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node.go b/node.go
index ad7d04f..b5124d5 100644
--- a/node.go
+++ b/node.go
@@ -271,5 +271,11 @@ func (r root) WalkPath(name string, fn walkPathFunc) error {
 	if err != nil {
 		return err
 	}
+	if nd.Name == name {
+		if err := fn(nd, true); err != errSkip {
+			return err
+		}
+		return nil
+	}
 	return nd.WalkPath(name, fn)
 }
-- 
2.43.0


From 406352b847e7bb4034481164a5efe3624bb93069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:32 +0000
Subject: [PATCH 06/10] fix: look at the first component again after following
 a link

After a relative link the resolution started all over behind the first
character of the path, so a first component which is a link itself was
resolved wrongly, or not at all.
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 7b50b0c..3550514 100644
--- a/util.go
+++ b/util.go
@@ -92,7 +92,7 @@ func canonical(p string) (string, error) {
 			} else {
 				p = p[:j] + s + p[i:]
 			}
-			i = 1 // no guarantee s is canonical, start all over
+			i = 0 // no guarantee s is canonical, start all over
 		}
 	}
 	return filepath.Clean(p), nil
-- 
2.43.0


From e9e6945f293ac6398f67bc26707d6cdab137e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:08 +0000
Subject: [PATCH 07/10] fix: do not unwatch a directory other channels are
 still registered for

When Stop removed the last inactive watchpoint of a node and the channel had
no active one there, the difference was computed without the active ones.
---
 tree_recursive.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 7f00dfe..e4ea74e 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -58,16 +58,17 @@ func watchCopy(src, dst node) {
 
 // watchDel TODO(rjeczalik)
 func watchDel(nd node, c chan<- EventInfo, e Event) eventDiff {
-	diff := nd.Watch.Del(c, e)
+	// The watch of nd serves both its active and its inactive watchpoints; the
+	// difference is the one between the totals of them both.
+	diff := eventDiff{watchTotal(nd)}
+	nd.Watch.Del(c, e)
 	if wp := nd.Child[""].Watch; len(wp) != 0 {
-		diffInactive := wp.Del(c, e)
-		e = wp.Total()
-		// TODO(rjeczalik): add e if e != all?
-		diff[0] |= diffInactive[0] | e
-		diff[1] |= diffInactive[1] | e
-		if diff[0] == diff[1] {
-			return none
-		}
+		wp.Del(c, e)
+	}
+	// TODO(rjeczalik): add e if e != all?
+	diff[1] = watchTotal(nd)
+	if diff[0] == diff[1] {
+		return none
 	}
 	return diff
 }
-- 
2.43.0


From 3e3728db178a3c77372da362e0e4a165960394e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:08 +0000
Subject: [PATCH 08/10] fix: make the parent watch recursive when a
 registration needs it to be

A watch of a single directory was left as it is when a registration below it,
or a recursive one, asked for events which are watched already.
---
 tree_recursive.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index e4ea74e..5e99456 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -191,6 +191,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
+		wasrec := watchIsRecursive(parent)
 		if self {
 			diff = watchAdd(cur, c, eventset)
 		} else {
@@ -199,7 +200,15 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		switch {
 		case diff == none:
 			// the parent watchpoint already covers requested subtree with its
-			// eventset
+			// eventset, unless it does not watch the subtree yet
+			if !wasrec && watchIsRecursive(parent) {
+				e := watchTotal(parent)
+				err = t.w.RecursiveRewatch(parent.Name, parent.Name, e, e)
+				if err != nil {
+					watchDel(parent, c, eventset)
+					return err
+				}
+			}
 		case diff[0] == 0:
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("dangling watchpoint: " + parent.Name)
-- 
2.43.0


From c164dab0f9f0ae916a30a17e6c57bf765b831a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 09/10] fix: roll back the whole registration when Watch of the
 recursive tree fails

Rolling back with the difference of the totals left the events which another
channel listens for already, and internal bits, in the watchpoint.
---
 tree_recursive.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 5e99456..571c01a 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -192,11 +192,21 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
 		wasrec := watchIsRecursive(parent)
+		added := eventset
 		if self {
+			added &^= cur.Watch[c]
 			diff = watchAdd(cur, c, eventset)
 		} else {
+			added &^= parent.Child[""].Watch[c]
 			diff = watchAddInactive(parent, c, eventset)
 		}
+		undo := func() {
+			if self {
+				cur.Watch.Del(c, added)
+			} else {
+				parent.Child[""].Watch.Del(c, added)
+			}
+		}
 		switch {
 		case diff == none:
 			// the parent watchpoint already covers requested subtree with its
@@ -205,7 +215,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 				e := watchTotal(parent)
 				err = t.w.RecursiveRewatch(parent.Name, parent.Name, e, e)
 				if err != nil {
-					watchDel(parent, c, eventset)
+					undo()
 					return err
 				}
 			}
@@ -219,7 +229,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 				err = t.w.Rewatch(parent.Name, diff[0], diff[1])
 			}
 			if err != nil {
-				watchDel(parent, c, diff.Event())
+				undo()
 				return err
 			}
 			watchAdd(cur, c, eventset)
@@ -253,7 +263,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		if err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
 			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			cur.Watch.Del(c, eventset)
 			return err
 		}
 		return nil
@@ -267,7 +277,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		if err = t.w.RecursiveWatch(cur.Name, watchTotal(cur)); err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
 			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			cur.Watch.Del(c, eventset)
 			return err
 		}
 		// Unwatch children subtrees.
@@ -298,7 +308,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			err = t.w.Watch(cur.Name, diff[1])
 		}
 		if err != nil {
-			watchDel(cur, c, diff.Event())
+			watchDel(cur, c, eventset)
 			return err
 		}
 	default:
-- 
2.43.0


From b26ac61b386928fbf70186f06d913a5353e98273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:57 +0000
Subject: [PATCH 10/10] fix: watch a directory anew which was removed and
 created again below a recursive watch

---
 tree_nonrecursive.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 78651ad..f2d546b 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -108,6 +108,14 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		if ei.Path() != nd.Name {
 			nd = nd.Add(ei.Path())
 		}
+		// A node which is watched already may stand for a directory that was
+		// removed, taking its watch with it, and is now created anew.
+		t.walkWatchpoint(nd, func(_ Event, nd node) error {
+			if e := nd.Watch.Total(); e != 0 {
+				t.w.Rewatch(nd.Name, e, e)
+			}
+			return nil
+		})
 		err := nd.AddDir(t.recFunc(eset))
 		t.rw.Unlock()
 		if err != nil {
-- 
2.43.0

