From 50531a1cf28ddf664b65eb5aa1c8463c4277e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 01/35] fix: inotify: Unwatch removes every descriptor that
 holds the path

A directory that is removed or renamed and created again under the same name
leaves its old descriptor in the map next to the new one. Unwatch removed only
one of them, picked by map iteration, so the live kernel watch could leak.
---
 watcher_inotify.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 02b4328..631cf83 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -340,26 +340,27 @@ func decode(mask Event, e *event) (syse *event) {
 // This method is allowed to return EINVAL error when concurrently requested to
 // delete identical path.
 func (i *inotify) Unwatch(path string) (err error) {
-	iwd := int32(invalidDescriptor)
-	i.RLock()
-	for iwdkey, wd := range i.m {
-		if wd.path == path {
-			iwd = iwdkey
-			break
+	i.Lock()
+	defer i.Unlock()
+	fd := atomic.LoadInt32(&i.fd)
+	found := false
+	// The path may be held by several descriptors: the ones of files that were
+	// removed or renamed in the meantime stay in the map.
+	for iwd, wd := range i.m {
+		if wd.path != path {
+			continue
 		}
+		found = true
+		if e := removeInotifyWatch(fd, iwd); e != nil {
+			err = nonil(err, e)
+			continue
+		}
+		delete(i.m, iwd)
 	}
-	i.RUnlock()
-	if iwd == invalidDescriptor {
+	if !found {
 		return errors.New("notify: path " + path + " is already watched")
 	}
-	fd := atomic.LoadInt32(&i.fd)
-	if err = removeInotifyWatch(fd, iwd); err != nil {
-		return
-	}
-	i.Lock()
-	delete(i.m, iwd)
-	i.Unlock()
-	return nil
+	return err
 }
 
 // Close implements notify.watcher interface. It removes all existing watch
-- 
2.43.0


From 2802f8ff3cce246121530cfe48786878d5e96800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 02/35] fix: recursive watches cover directories that are
 created again

Two cases left a directory below a recursive watchpoint without a watch for
good: it was already known by its name (removed without Remove being
requested, renamed away, or replaced by another directory), so its event set
did not change and it was not watched again; or a notification about its
removal was processed after it had been created again and dropped the new
watch.
---
 tree_nonrecursive.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 6e23340..b7975e5 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -4,7 +4,10 @@
 
 package notify
 
-import "sync"
+import (
+	"os"
+	"sync"
+)
 
 // nonrecursiveTree TODO(rjeczalik)
 type nonrecursiveTree struct {
@@ -80,7 +83,7 @@ func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
 func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 	for ei := range rec {
 		t.rw.Lock()
-		if ei.Event() == Remove {
+		if fi, err := os.Lstat(ei.Path()); ei.Event() == Remove && (err != nil || !fi.IsDir()) {
 			nd, err := t.root.Get(ei.Path())
 			if err != nil {
 				t.rw.Unlock()
@@ -110,7 +113,9 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		if ei.Path() != nd.Name {
 			nd = nd.Add(ei.Path())
 		}
-		err := nd.AddDir(t.recFunc(eset))
+		// The directory may be created in place of another one which was removed
+		// or renamed, so watch it even if it is already known by this name.
+		err := nd.AddDir(t.recFunc(eset, true))
 		t.rw.Unlock()
 		if err != nil {
 			dbgprintf("internal(%p) error: %v", rec, err)
@@ -204,10 +209,15 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 	return nil
 }
 
-func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
+// recFunc gives a function which adds e to the internal watchpoint of a node. If
+// refresh is true it watches the node's path even if its event set did not change.
+func (t *nonrecursiveTree) recFunc(e Event, refresh bool) walkFunc {
 	return func(nd node) error {
 		switch diff := nd.Watch.Add(t.rec, e|omit|Create); {
 		case diff == none:
+			if refresh {
+				t.w.Watch(nd.Name, nd.Watch.Total())
+			}
 		case diff[1] == 0:
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("eset is empty: " + nd.Name)
@@ -242,7 +252,7 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	}
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
-	if err := traverse(t.recFunc(e)); err != nil {
+	if err := traverse(t.recFunc(e, false)); err != nil {
 		return err
 	}
 	t.watchAdd(nd, c, e)
-- 
2.43.0


From bd838ddb6c7752ec6ce14b6f566352329957834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 03/35] fix: do not give up scanning a tree when a part of it
 vanishes

AddDir returned on the first subdirectory that could not be read, so removing
one directory while its parent was being scanned left all directories that
were still to be visited without a watch, or made Watch fail.
---
 node.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index ad7d04f..0826c4e 100644
--- a/node.go
+++ b/node.go
@@ -61,6 +61,8 @@ func (nd node) Add(name string) node {
 }
 
 func (nd node) AddDir(fn walkFunc) error {
+	var failed error
+	root := nd.Name
 	stack := []node{nd}
 Traverse:
 	for n := len(stack); n != 0; n = len(stack) {
@@ -80,7 +82,15 @@ Traverse:
 		// AddDirError and notify users which names are not added to the tree.
 		fi, err := os.ReadDir(nd.Name)
 		if err != nil {
-			return err
+			if nd.Name == root {
+				return err
+			}
+			// A directory which is gone by now is no failure; any other one must
+			// not keep its siblings from being added.
+			if fi, e := os.Lstat(nd.Name); e == nil && fi.IsDir() {
+				failed = nonil(failed, err)
+			}
+			continue
 		}
 		for _, fi := range fi {
 			if fi.Type()&(fs.ModeSymlink|fs.ModeDir) == fs.ModeDir {
@@ -89,7 +99,7 @@ Traverse:
 			}
 		}
 	}
-	return nil
+	return failed
 }
 
 func (nd node) Get(name string) (node, error) {
-- 
2.43.0


From 12aa63ed6be04c22e741e5454b6b2690f4f0133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 04/35] fix: recursive watches within a recursive watch cover
 directories created later

---
 tree_nonrecursive.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index b7975e5..e2b96fd 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -100,9 +100,7 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		var nd node
 		var eset = internal
 		t.root.WalkPath(ei.Path(), func(it node, _ bool) error {
-			if e := it.Watch[t.rec]; e != 0 && e > eset {
-				eset = e
-			}
+			eset |= it.Watch[t.rec]
 			nd = it
 			return nil
 		})
@@ -115,7 +113,14 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		}
 		// The directory may be created in place of another one which was removed
 		// or renamed, so watch it even if it is already known by this name.
-		err := nd.AddDir(t.recFunc(eset, true))
+		// Recursive watchpoints within the subtree apply to everything below them.
+		sets := make(map[string]Event)
+		err := nd.AddDir(func(nd node) error {
+			dir, _ := split(nd.Name)
+			err := t.recFunc(eset|sets[dir], true)(nd)
+			sets[nd.Name] = nd.Watch[t.rec]
+			return err
+		})
 		t.rw.Unlock()
 		if err != nil {
 			dbgprintf("internal(%p) error: %v", rec, err)
-- 
2.43.0


From 38d18e4df07b97889eacf6f5ba47871b7c7ab05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 05/35] fix: Stop keeps the internal watches of other recursive
 watches and drops its own

---
 tree_nonrecursive.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index e2b96fd..2b07601 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -140,29 +140,25 @@ func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventD
 
 // watchDelMin TODO(rjeczalik)
 func (t *nonrecursiveTree) watchDelMin(min Event, nd node, c chan<- EventInfo, e Event) eventDiff {
-	old, ok := nd.Watch[t.rec]
-	if ok {
-		nd.Watch[t.rec] = min
+	if _, ok := nd.Watch[t.rec]; !ok {
+		return nd.Watch.Del(c, e)
 	}
-	diff := nd.Watch.Del(c, e)
-	if ok {
-		switch old &^= diff[0] &^ diff[1]; {
-		case old|internal == internal:
-			delete(nd.Watch, t.rec)
-			if set, ok := nd.Watch[nil]; ok && len(nd.Watch) == 1 && set == 0 {
-				delete(nd.Watch, nil)
-			}
-		default:
-			nd.Watch.Add(t.rec, old|Create)
-			switch {
-			case diff == none:
-			case diff[1]|Create == diff[0]:
-				diff = none
-			default:
-				diff[1] |= Create
-			}
+	diff := eventDiff{nd.Watch.Total()}
+	nd.Watch.Del(c, e)
+	// The internal watchpoint holds what is left of the recursive ones: of the
+	// parent (min) and of the node itself.
+	for ch, set := range nd.Watch {
+		if ch != nil && ch != t.rec && set&recursive != 0 {
+			min |= set
 		}
 	}
+	nd.Watch.Del(t.rec, all)
+	if min&^internal != 0 {
+		nd.Watch.Add(t.rec, min|omit|Create)
+	}
+	if diff[1] = nd.Watch.Total(); diff[0] == diff[1] {
+		return none
+	}
 	return diff
 }
 
-- 
2.43.0


From 6091dca28f861c81a5d547da7a2c3375b173eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 06/35] fix: inotify: do not follow a symlink that replaced a
 watched directory

---
 watcher_inotify.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 631cf83..6d223a2 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -90,7 +90,9 @@ func (i *inotify) watch(path string, e Event) (err error) {
 	if err = i.lazyinit(); err != nil {
 		return
 	}
-	iwd, err := unix.InotifyAddWatch(int(i.fd), path, encode(e))
+	// The path has no symlinks; if there is one now, it took the place of the file
+	// or directory meant by the caller.
+	iwd, err := unix.InotifyAddWatch(int(i.fd), path, encode(e)|unix.IN_DONT_FOLLOW)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From a0a64330c4ee462e06e72a26d29f39074a89ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 07/35] fix: files within a recursive watch are watched only
 for their own registrations

The internal watchpoint spread to watched files, where it outlived them, and a
Watch on a file that took the place of a directory had no effect.
---
 tree_nonrecursive.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 2b07601..f9b03d2 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -194,7 +194,15 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
-		return nil
+		// Internal watchpoints follow directories only. A file which took the place
+		// of one has to be watched anew.
+		if nd.Watch[t.rec] == 0 {
+			return nil
+		}
+		if fi, err := os.Lstat(nd.Name); err != nil || fi.IsDir() {
+			return nil
+		}
+		err = t.w.Watch(nd.Name, nd.Watch.Total())
 	case diff[1] == 0:
 		// TODO(rjeczalik): cleanup this panic after implementation is stable
 		panic("eset is empty: " + nd.Name)
@@ -249,7 +257,16 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 		// recursive watchpoint is encountered.
 		traverse = nd.AddDir
 	default:
-		traverse = nd.Walk
+		// Every directory known beneath a recursive watchpoint has an internal
+		// one; other nodes are watched files.
+		traverse = func(fn walkFunc) error {
+			return nd.Walk(func(nd node) error {
+				if nd.Watch[t.rec] == 0 {
+					return errSkip
+				}
+				return fn(nd)
+			})
+		}
 	}
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
-- 
2.43.0


From c6b44ca8b9270081a81cc2f991e501f182401dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 08/35] fix: a Watch that fails takes back all of its
 registration and nothing else

---
 tree_nonrecursive.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index f9b03d2..e87ad16 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -191,6 +191,7 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 }
 
 func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err error) {
+	e &^= nd.Watch[c] // what c has already is kept if the watch fails
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
@@ -212,7 +213,7 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 	}
 	if err != nil {
-		nd.Watch.Del(c, diff.Event())
+		nd.Watch.Del(c, e)
 		return err
 	}
 	return nil
-- 
2.43.0


From a90a01662248f6e31771c7f459f1725bb0f708f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 09/35] fix: a recursive Watch that fails leaves nothing behind
 and reports the error

---
 tree_nonrecursive.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index e87ad16..3a2a9e9 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -117,9 +117,9 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		sets := make(map[string]Event)
 		err := nd.AddDir(func(nd node) error {
 			dir, _ := split(nd.Name)
-			err := t.recFunc(eset|sets[dir], true)(nd)
+			t.recFunc(eset|sets[dir], true)(nd)
 			sets[nd.Name] = nd.Watch[t.rec]
-			return err
+			return nil
 		})
 		t.rw.Unlock()
 		if err != nil {
@@ -232,9 +232,9 @@ func (t *nonrecursiveTree) recFunc(e Event, refresh bool) walkFunc {
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("eset is empty: " + nd.Name)
 		case diff[0] == 0:
-			t.w.Watch(nd.Name, diff[1])
+			return t.w.Watch(nd.Name, diff[1])
 		default:
-			t.w.Rewatch(nd.Name, diff[0], diff[1])
+			return t.w.Rewatch(nd.Name, diff[0], diff[1])
 		}
 		return nil
 	}
@@ -271,7 +271,16 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	}
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
-	if err := traverse(t.recFunc(e, false)); err != nil {
+	fn := t.recFunc(e, false)
+	err := traverse(func(it node) error {
+		if err := fn(it); err != nil && it.Name == nd.Name {
+			return err
+		}
+		return nil
+	})
+	if err != nil {
+		// Take back the internal watchpoints set so far.
+		t.del(nil, 0)
 		return err
 	}
 	t.watchAdd(nd, c, e)
@@ -309,12 +318,13 @@ Traverse:
 	return nil
 }
 
-// Stop TODO(rjeczalik)
-func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
+// del removes the event set from every watchpoint of c and makes the internal
+// watchpoints match the remaining ones.
+func (t *nonrecursiveTree) del(c chan<- EventInfo, e Event) error {
 	fn := func(min Event, nd node) error {
 		// TODO(rjeczalik): aggregate watcher errors and retry; in worst case
 		// forward to the user.
-		switch diff := t.watchDelMin(min, nd, c, all); {
+		switch diff := t.watchDelMin(min, nd, c, e); {
 		case diff == none:
 			return nil
 		case diff[1] == 0:
@@ -324,8 +334,13 @@ func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 		}
 		return nil
 	}
+	return t.walkWatchpoint(t.root.nd, fn) // TODO(rjeczalik): store max root per c
+}
+
+// Stop TODO(rjeczalik)
+func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 	t.rw.Lock()
-	err := t.walkWatchpoint(t.root.nd, fn) // TODO(rjeczalik): store max root per c
+	err := t.del(c, all)
 	t.rw.Unlock()
 	dbgprintf("Stop(%p) error: %v\n", c, err)
 }
-- 
2.43.0


From e8883b340d5bb53a0e736ed50028a1ea1e6384b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 10/35] fix: paths of any depth are resolved, only the number
 of symlinks is limited

---
 util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util.go b/util.go
index 7b50b0c..ef54b64 100644
--- a/util.go
+++ b/util.go
@@ -69,10 +69,7 @@ func canonical(p string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	for i, j, depth := 1, 0, 1; i < len(p); i, depth = i+1, depth+1 {
-		if depth > 128 {
-			return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
-		}
+	for i, j, links := 1, 0, 0; i < len(p); i++ {
 		if j = strings.IndexRune(p[i:], '/'); j == -1 {
 			j, i = i, len(p)
 		} else {
@@ -83,6 +80,9 @@ func canonical(p string) (string, error) {
 			return "", err
 		}
 		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+			if links++; links > 128 {
+				return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
+			}
 			s, err := os.Readlink(p[:i])
 			if err != nil {
 				return "", err
-- 
2.43.0


From 474878513585df582bdb6827a006c5c424b81024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 11/35] fix: symlinks at the root of the filesystem resolve to
 other symlinks there

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index ef54b64..3873a1e 100644
--- a/util.go
+++ b/util.go
@@ -92,7 +92,7 @@ func canonical(p string) (string, error) {
 			} else {
 				p = p[:j] + s + p[i:]
 			}
-			i = 1 // no guarantee s is canonical, start all over
+			i = 0 // no guarantee s is canonical, start all over
 		}
 	}
 	return filepath.Clean(p), nil
-- 
2.43.0


From 05feafab7b4df082f6edf252e2c371d40d122d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 12/35] fix: events about a watched top-level directory itself
 reach its watchpoint

---
 node.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/node.go b/node.go
index 0826c4e..d51e57e 100644
--- a/node.go
+++ b/node.go
@@ -177,6 +177,14 @@ Traverse:
 }
 
 func (nd node) WalkPath(name string, fn walkPathFunc) error {
+	if name == nd.Name {
+		switch err := fn(nd, true); err {
+		case nil, errSkip:
+			return nil
+		default:
+			return err
+		}
+	}
 	i := indexrel(nd.Name, name)
 	if i == -1 {
 		return errnotexist(name)
-- 
2.43.0


From 6e1caa5dadf6ce78390a2ab46ad45d77614e14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 13/35] fix: events added to a recursive watch apply to the
 whole subtree

A channel has one event set per path. After Watch(dir/..., c, A) and
Watch(dir, c, B) it was told of B in subdirectories only by chance.
---
 tree_nonrecursive.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 3a2a9e9..1d34063 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -184,8 +184,9 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 	t.rw.Lock()
 	defer t.rw.Unlock()
 	nd := t.root.Add(path)
-	if isrec {
-		return t.watchrec(nd, c, eset|recursive)
+	// A channel has one event set per path, which is recursive as a whole.
+	if has := nd.Watch[c]; isrec || has&recursive != 0 {
+		return t.watchrec(nd, c, eset|has|recursive)
 	}
 	return t.watch(nd, c, eset)
 }
-- 
2.43.0


From e6b323b87609f3a0b298639401b4965a1aff321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 14/35] fix: a recursive Watch reports refused watches and
 takes back all of them

---
 tree_nonrecursive.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 1d34063..395b33b 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -243,6 +243,7 @@ func (t *nonrecursiveTree) recFunc(e Event, refresh bool) walkFunc {
 
 func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error {
 	var traverse func(walkFunc) error
+	from := t.root.nd
 	// Non-recursive tree listens on Create event for every recursive
 	// watchpoint in order to automagically set a watch for every
 	// created directory.
@@ -258,6 +259,8 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 		// TODO(rjeczalik): BFS into directories and skip subtree as soon as first
 		// recursive watchpoint is encountered.
 		traverse = nd.AddDir
+		// There was no internal watchpoint, so the ones above do not apply.
+		from = nd
 	default:
 		// Every directory known beneath a recursive watchpoint has an internal
 		// one; other nodes are watched files.
@@ -272,16 +275,23 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	}
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
+	var failed error
 	fn := t.recFunc(e, false)
 	err := traverse(func(it node) error {
-		if err := fn(it); err != nil && it.Name == nd.Name {
+		err := fn(it)
+		if err == nil || it.Name == nd.Name {
 			return err
 		}
+		// A directory which is gone by now is no failure.
+		if fi, e := os.Lstat(it.Name); os.IsPermission(e) || e == nil && fi.IsDir() {
+			failed = nonil(failed, err)
+		}
 		return nil
 	})
+	err = nonil(err, failed)
 	if err != nil {
 		// Take back the internal watchpoints set so far.
-		t.del(nil, 0)
+		t.del(from, nil, 0)
 		return err
 	}
 	t.watchAdd(nd, c, e)
@@ -319,9 +329,9 @@ Traverse:
 	return nil
 }
 
-// del removes the event set from every watchpoint of c and makes the internal
-// watchpoints match the remaining ones.
-func (t *nonrecursiveTree) del(c chan<- EventInfo, e Event) error {
+// del removes the event set from every watchpoint of c at and below nd and makes
+// the internal watchpoints match the remaining ones.
+func (t *nonrecursiveTree) del(nd node, c chan<- EventInfo, e Event) error {
 	fn := func(min Event, nd node) error {
 		// TODO(rjeczalik): aggregate watcher errors and retry; in worst case
 		// forward to the user.
@@ -335,13 +345,13 @@ func (t *nonrecursiveTree) del(c chan<- EventInfo, e Event) error {
 		}
 		return nil
 	}
-	return t.walkWatchpoint(t.root.nd, fn) // TODO(rjeczalik): store max root per c
+	return t.walkWatchpoint(nd, fn)
 }
 
 // Stop TODO(rjeczalik)
 func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 	t.rw.Lock()
-	err := t.del(c, all)
+	err := t.del(t.root.nd, c, all) // TODO(rjeczalik): store max root per c
 	t.rw.Unlock()
 	dbgprintf("Stop(%p) error: %v\n", c, err)
 }
-- 
2.43.0


From 6b36fb828c7b2c204ff8b3ca2452d74a27086edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 15/35] fix: a directory that vanished during a scan is no
 failure even if it is back

---
 node.go              | 8 ++++++--
 tree_nonrecursive.go | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index d51e57e..dc491bf 100644
--- a/node.go
+++ b/node.go
@@ -85,8 +85,12 @@ Traverse:
 			if nd.Name == root {
 				return err
 			}
-			// A directory which is gone by now is no failure; any other one must
-			// not keep its siblings from being added.
+			// A directory which was or is gone is no failure (if it is back by now,
+			// an event tells); any other one must not keep its siblings from being
+			// added.
+			if os.IsNotExist(err) {
+				continue
+			}
 			if fi, e := os.Lstat(nd.Name); e == nil && fi.IsDir() {
 				failed = nonil(failed, err)
 			}
diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 395b33b..3452c49 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -282,7 +282,10 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 		if err == nil || it.Name == nd.Name {
 			return err
 		}
-		// A directory which is gone by now is no failure.
+		// A directory which was or is gone is no failure.
+		if os.IsNotExist(err) {
+			return nil
+		}
 		if fi, e := os.Lstat(it.Name); os.IsPermission(e) || e == nil && fi.IsDir() {
 			failed = nonil(failed, err)
 		}
-- 
2.43.0


From 381d0c800bca335145413b2866a07b5fd35495b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 16/35] fix: recursive tree keeps the events of other channels
 when one stops

Removing a channel which had only inactive watchpoints dropped the events of the
node's own watchpoints from the native watch, and the other way round.
---
 tree_recursive.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 7f00dfe..389cdf1 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -58,16 +58,13 @@ func watchCopy(src, dst node) {
 
 // watchDel TODO(rjeczalik)
 func watchDel(nd node, c chan<- EventInfo, e Event) eventDiff {
-	diff := nd.Watch.Del(c, e)
+	diff := eventDiff{watchTotal(nd)}
+	nd.Watch.Del(c, e)
 	if wp := nd.Child[""].Watch; len(wp) != 0 {
-		diffInactive := wp.Del(c, e)
-		e = wp.Total()
-		// TODO(rjeczalik): add e if e != all?
-		diff[0] |= diffInactive[0] | e
-		diff[1] |= diffInactive[1] | e
-		if diff[0] == diff[1] {
-			return none
-		}
+		wp.Del(c, e)
+	}
+	if diff[1] = watchTotal(nd); diff[0] == diff[1] {
+		return none
 	}
 	return diff
 }
-- 
2.43.0


From 9d67324c86ce7ac43f9cb5eb2c346329b355fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 17/35] fix: failed Watch in the recursive tree leaves no
 watchpoint behind

The channel kept a part of the events it was refused, or a total event set was
left in a node without any channel, so later calls used it as a watched one.
---
 tree_recursive.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 389cdf1..5c46e75 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -187,9 +187,12 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
+		added := eventset // what c has already is kept if the watch fails
 		if self {
+			added &^= cur.Watch[c]
 			diff = watchAdd(cur, c, eventset)
 		} else {
+			added &^= parent.Child[""].Watch[c]
 			diff = watchAddInactive(parent, c, eventset)
 		}
 		switch {
@@ -206,7 +209,11 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 				err = t.w.Rewatch(parent.Name, diff[0], diff[1])
 			}
 			if err != nil {
-				watchDel(parent, c, diff.Event())
+				if self {
+					cur.Watch.Del(c, added)
+				} else {
+					parent.Child[""].Watch.Del(c, added)
+				}
 				return err
 			}
 			watchAdd(cur, c, eventset)
@@ -238,9 +245,9 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		err = t.w.RecursiveRewatch(children[0].Name, cur.Name, watchTotal(children[0]),
 			watchTotal(cur))
 		if err != nil {
-			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			// Clean inactive watchpoint. No chan did exist before.
+			delete(cur.Child, "")
+			cur.Watch.Del(c, all)
 			return err
 		}
 		return nil
@@ -252,9 +259,9 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		}
 		// Watch parent subtree.
 		if err = t.w.RecursiveWatch(cur.Name, watchTotal(cur)); err != nil {
-			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			// Clean inactive watchpoint. No chan did exist before.
+			delete(cur.Child, "")
+			cur.Watch.Del(c, all)
 			return err
 		}
 		// Unwatch children subtrees.
@@ -285,7 +292,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			err = t.w.Watch(cur.Name, diff[1])
 		}
 		if err != nil {
-			watchDel(cur, c, diff.Event())
+			watchDel(cur, c, all)
 			return err
 		}
 	default:
-- 
2.43.0


From f98c077b758ab02510a63ea551d8433e3bbd3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 18/35] fix: recursive tree makes a watch recursive when only
 that is missing

A Watch which needs the subtree of an already watched path, with no new events,
left the native watch non-recursive.
---
 tree_recursive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree_recursive.go b/tree_recursive.go
index 5c46e75..d46fa6b 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -188,6 +188,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
 		added := eventset // what c has already is kept if the watch fails
+		wasrec := watchIsRecursive(parent)
 		if self {
 			added &^= cur.Watch[c]
 			diff = watchAdd(cur, c, eventset)
@@ -195,6 +196,10 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			added &^= parent.Child[""].Watch[c]
 			diff = watchAddInactive(parent, c, eventset)
 		}
+		if diff == none && !wasrec && watchIsRecursive(parent) {
+			// The event set is there already, but not for the subtree.
+			diff = eventDiff{watchTotal(parent), watchTotal(parent)}
+		}
 		switch {
 		case diff == none:
 			// the parent watchpoint already covers requested subtree with its
-- 
2.43.0


From 299f0517db2347dff502d4c2e61b4dbb8bc37017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 19/35] fix: recursive tree sees a native watch which holds
 only inactive watchpoints

A new parent of a node whose own watchpoints were stopped took the nodes below
for natively watched ones.
---
 tree_recursive.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index d46fa6b..50fdb59 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -46,12 +46,11 @@ func watchCopy(src, dst node) {
 		watchAddInactive(dst, c, e)
 	}
 	if wpsrc := src.Child[""].Watch; len(wpsrc) != 0 {
-		wpdst := dst.Child[""].Watch
 		for c, e := range wpsrc {
 			if c == nil {
 				continue
 			}
-			wpdst.Add(c, e)
+			watchAddInactive(dst, c, e)
 		}
 	}
 }
@@ -235,7 +234,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 	// Look for children nodes, unwatch n-1 of them and rewatch the last one.
 	var children []node
 	fn := func(nd node) error {
-		if len(nd.Watch) == 0 {
+		// A watched node may hold nothing but inactive watchpoints.
+		if watchTotal(nd) == 0 {
 			return nil
 		}
 		children = append(children, nd)
-- 
2.43.0


From c44110dffd676e06e17e852cccf4904e0b3454bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 20/35] fix: failed start of the inotify watcher does not close
 descriptor 0

unix.Pipe of the x/sys version in use sets both descriptors to 0 if it fails.
---
 watcher_inotify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 6d223a2..e8a673a 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -147,6 +147,8 @@ func (i *inotify) epollinit() (err error) {
 		return
 	}
 	if err = unix.Pipe(i.pipefd); err != nil {
+		// Pipe(2) may set descriptors despite of the error.
+		i.pipefd[0], i.pipefd[1] = invalidDescriptor, invalidDescriptor
 		return
 	}
 	i.epes = []unix.EpollEvent{
-- 
2.43.0


From 719d1e994185ab91db52b0dea36df4a7bba8e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 21/35] fix: windows: non-recursive watchpoints got
 modifications from beneath

---
 watchpoint_readdcw.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/watchpoint_readdcw.go b/watchpoint_readdcw.go
index 49a9b9c..298a793 100644
--- a/watchpoint_readdcw.go
+++ b/watchpoint_readdcw.go
@@ -32,8 +32,10 @@ func eventmask(ei EventInfo, extra Event) (e Event) {
 //
 //   - for user events, when event is present in the given set
 //   - for internal events, when additionally both event and set have omit bit set
+//   - for events from beneath, when the set has recursive bit set
 //
 // Internal events must not be sent to user channels and vice versa.
 func matches(set, event Event) bool {
-	return (set&omit)^(event&omit) == 0 && (set&event == event || set&fileNotifyChangeModified&event != 0)
+	return (set&omit)^(event&omit) == 0 && set&recursive&event == event&recursive &&
+		(set&event == event || set&fileNotifyChangeModified&event != 0)
 }
-- 
2.43.0


From e9fe8f4fc745d9991b05d5665c770ee72556c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 22/35] fix: windows: an unwatched directory was reported until
 its next event

---
 watcher_readdcw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index b0dee41..234f7e2 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -530,6 +530,8 @@ func (r *readdcw) unwatch(path string) (err error) {
 	wd.filter |= stateUnwatch
 	dbgprint("unwatch: set unwatch state")
 
+	// Closing the handles completes the pending reads, which makes the loop
+	// remove the watch. If the directory is gone nothing is pending.
 	if _, attrErr := syscall.GetFileAttributes(&wd.pathw[0]); attrErr != nil {
 		for _, g := range wd.digrip {
 			if g == nil {
@@ -542,6 +544,8 @@ func (r *readdcw) unwatch(path string) (err error) {
 				return
 			}
 		}
+	} else if err = wd.closeHandle(); err != nil {
+		wd.filter &^= stateUnwatch
 	}
 
 	return
-- 
2.43.0


From 359d71004a7c8941fdf3f53b6d5b3c4a52e8b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 23/35] fix: windows: renames of directories were not reported
 if only Rename was requested

---
 watcher_readdcw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 234f7e2..4ac2300 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -190,7 +190,7 @@ func (wd *watched) recreate(cph syscall.Handle) (err error) {
 	if err = wd.updateGrip(0, cph, filefilter == 0, filefilter); err != nil {
 		return
 	}
-	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove)
+	dirfilter := wd.filter & uint32(FileNotifyChangeDirName|Create|Remove|Rename)
 	if err = wd.updateGrip(1, cph, dirfilter == 0, wd.filter|uint32(dirmarker)); err != nil {
 		return
 	}
-- 
2.43.0


From a2764c638ff61843697b723711bb59a03a11041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 24/35] fix: windows: a rewatch which left only
 FileNotifyChangeDirName got stuck

---
 watcher_readdcw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index 4ac2300..edddb8e 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -186,6 +186,7 @@ func newWatched(cph syscall.Handle, filter uint32, recursive bool,
 
 // TODO : doc
 func (wd *watched) recreate(cph syscall.Handle) (err error) {
+	wd.filter &^= onlyMachineStates
 	filefilter := wd.filter &^ uint32(FileNotifyChangeDirName)
 	if err = wd.updateGrip(0, cph, filefilter == 0, filefilter); err != nil {
 		return
@@ -194,7 +195,6 @@ func (wd *watched) recreate(cph syscall.Handle) (err error) {
 	if err = wd.updateGrip(1, cph, dirfilter == 0, wd.filter|uint32(dirmarker)); err != nil {
 		return
 	}
-	wd.filter &^= onlyMachineStates
 	return
 }
 
-- 
2.43.0


From d3c2f650f6b7e201e7a2e5047f297cb03c863df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 25/35] fix: windows: a Watch or Stop shortly after another one
 was dropped or refused

---
 watcher_readdcw.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index edddb8e..f61ff51 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -304,8 +304,7 @@ func (r *readdcw) watch(path string, event Event, recursive bool) error {
 
 	if wd, ok := r.m[path]; ok {
 		dbgprint("watch: already exists")
-		wd.filter &^= stateUnwatch
-		return nil
+		return wd.reset(uint32(event), recursive)
 	}
 
 	if err := r.lazyinit(); err != nil {
@@ -385,6 +384,7 @@ func (r *readdcw) loopstate(overEx *overlappedEx) {
 		switch filter & onlyMachineStates {
 		case stateRewatch:
 			dbgprint("loopstate rewatch")
+			overEx.parent.parent.closeHandle()
 			overEx.parent.parent.recreate(r.cph)
 		case stateUnwatch:
 			dbgprint("loopstate unwatch")
@@ -477,33 +477,37 @@ func (r *readdcw) rewatch(path string, oldevent, newevent uint32, recursive bool
 	var wd *watched
 	r.Lock()
 	defer r.Unlock()
-	if wd, err = r.nonStateWatchedLocked(path); err != nil {
+	if wd, err = r.watchedLocked(path); err != nil {
 		return
 	}
 	if wd.filter&(onlyNotifyChanges|onlyNGlobalEvents) != oldevent {
 		panic(`notify: windows re-watcher logic error`)
 	}
-	wd.filter = stateRewatch | newevent
-	wd.recursive, recursive = recursive, wd.recursive
+	return wd.reset(newevent, recursive)
+}
+
+// reset makes the loop watch with the new filter as soon as the pending reads
+// are completed.
+func (wd *watched) reset(filter uint32, recursive bool) (err error) {
+	oldfilter, oldrecursive := wd.filter, wd.recursive
+	wd.filter, wd.recursive = stateRewatch|filter, recursive
+	if oldfilter&onlyMachineStates != 0 {
+		return nil // The handles are closed already.
+	}
 	if err = wd.closeHandle(); err != nil {
-		wd.filter = oldevent
-		wd.recursive = recursive
-		return
+		wd.filter, wd.recursive = oldfilter, oldrecursive
 	}
 	return
 }
 
-// TODO : pknap
-func (r *readdcw) nonStateWatchedLocked(path string) (wd *watched, err error) {
+// watchedLocked gives the watch for the path, which may be waiting for a rewatch
+// but not for being unwatched.
+func (r *readdcw) watchedLocked(path string) (wd *watched, err error) {
 	wd, ok := r.m[path]
-	if !ok || wd == nil {
+	if !ok || wd == nil || wd.filter&stateUnwatch != 0 {
 		err = errors.New(`notify: ` + path + ` path is unwatched`)
 		return
 	}
-	if wd.filter&onlyMachineStates != 0 {
-		err = errors.New(`notify: another re/unwatching operation in progress`)
-		return
-	}
 	return
 }
 
@@ -523,7 +527,13 @@ func (r *readdcw) unwatch(path string) (err error) {
 
 	r.Lock()
 	defer r.Unlock()
-	if wd, err = r.nonStateWatchedLocked(path); err != nil {
+	if wd, err = r.watchedLocked(path); err != nil {
+		return
+	}
+
+	if wd.filter&stateRewatch != 0 {
+		// The handles are closed already, the loop is about to notice.
+		wd.filter ^= stateRewatch | stateUnwatch
 		return
 	}
 
-- 
2.43.0


From 353f3a8be88872f4fd9edb7f1ba484813d85e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 26/35] fix: windows: a refused Watch left the directory open

---
 watcher_readdcw.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/watcher_readdcw.go b/watcher_readdcw.go
index f61ff51..0666fd9 100644
--- a/watcher_readdcw.go
+++ b/watcher_readdcw.go
@@ -102,9 +102,14 @@ func (g *grip) register(cph syscall.Handle) (err error) {
 	}
 	if _, err = syscall.CreateIoCompletionPort(g.handle, cph, 0, 0); err != nil {
 		syscall.CloseHandle(g.handle)
+		g.handle = syscall.InvalidHandle
 		return
 	}
-	return g.readDirChanges()
+	if err = g.readDirChanges(); err != nil {
+		syscall.CloseHandle(g.handle)
+		g.handle = syscall.InvalidHandle
+	}
+	return
 }
 
 // readDirChanges tells the system to store file change information in grip's
-- 
2.43.0


From 5175b6c3fda8dcfe9c129798667bb16b71d7980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 27/35] fix: kqueue: Close left the stop pipe open, a failed
 start did not return

---
 watcher_kqueue.go  | 7 +++++--
 watcher_trigger.go | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index 715edfb..a5e49aa 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -52,7 +52,10 @@ func (k *kq) Stop() (err error) {
 
 // Close implements trigger.
 func (k *kq) Close() error {
-	return syscall.Close(k.fd)
+	err := syscall.Close(k.fd)
+	syscall.Close(k.pipefds[0])
+	syscall.Close(k.pipefds[1])
+	return err
 }
 
 // NewWatched implements trigger.
@@ -106,7 +109,7 @@ func (k *kq) Init() (err error) {
 	// Creates pipe used to stop `Kevent` call by registering it,
 	// watching read end and writing to other end of it.
 	if err = syscall.Pipe(k.pipefds[:]); err != nil {
-		return nonil(err, k.Close())
+		return nonil(err, syscall.Close(k.fd))
 	}
 	var kevn [1]syscall.Kevent_t
 	syscall.SetKevent(&kevn[0], k.pipefds[0], syscall.EVFILT_READ, syscall.EV_ADD)
diff --git a/watcher_trigger.go b/watcher_trigger.go
index 7cd0824..41dab69 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -106,8 +106,8 @@ func newWatcher(c chan<- EventInfo) watcher {
 		c:      c,
 	}
 	t.t = newTrigger(t.pthLkp)
+	// Init leaves nothing open if it fails, and nothing to stop.
 	if err := t.t.Init(); err != nil {
-		t.Close()
 		return watcherStub{fmt.Errorf("failed setting up watcher: %v", err)}
 	}
 	go t.monitor()
-- 
2.43.0


From 2374789ec3700ac13b2d3b3209d3c405d37907e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 28/35] fix: kqueue, FEN: Unwatch failed and left entries
 watched when files were gone

---
 watcher_trigger.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 41dab69..8d00a5d 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -124,7 +124,7 @@ func (t *trg) Close() (err error) {
 	<-t.s
 	var e error
 	for _, w := range t.pthLkp {
-		if e = t.unwatch(w.p, w.fi); e != nil {
+		if e = t.singleunwatch(w.p, both); e != nil {
 			dbgprintf("trg: unwatch %q failed: %q\n", w.p, e)
 			err = nonil(err, e)
 		}
@@ -236,20 +236,23 @@ func (t *trg) walk(p string, fn func(os.FileInfo) error) error {
 	return nil
 }
 
-func (t *trg) unwatch(p string, fi os.FileInfo) error {
-	if fi.IsDir() {
-		err := t.walk(p, func(fi os.FileInfo) error {
-			err := t.singleunwatch(filepath.Join(p, fi.Name()), ndir)
-			if err != errNotWatched {
-				return err
+// unwatch ends the watch of p. What is watched with it is looked up among the
+// watched paths, as p and its entries may be gone by now.
+func (t *trg) unwatch(p string) (err error) {
+	w, ok := t.pthLkp[p]
+	if !ok || w.eDir == 0 {
+		return errNotWatched
+	}
+	if w.fi.IsDir() {
+		for q := range t.pthLkp {
+			if q != p && filepath.Dir(q) == p {
+				if e := t.singleunwatch(q, ndir); e != errNotWatched {
+					err = nonil(err, e)
+				}
 			}
-			return nil
-		})
-		if err != nil {
-			return err
 		}
 	}
-	return t.singleunwatch(p, dir)
+	return nonil(err, t.singleunwatch(p, dir))
 }
 
 // Watch implements Watcher interface.
@@ -266,12 +269,8 @@ func (t *trg) Watch(p string, e Event) error {
 
 // Unwatch implements Watcher interface.
 func (t *trg) Unwatch(p string) error {
-	fi, err := os.Stat(p)
-	if err != nil {
-		return err
-	}
 	t.Lock()
-	err = t.unwatch(p, fi)
+	err := t.unwatch(p)
 	t.Unlock()
 	return err
 }
@@ -285,7 +284,7 @@ func (t *trg) Rewatch(p string, _, e Event) error {
 		return err
 	}
 	t.Lock()
-	if err = t.unwatch(p, fi); err == nil {
+	if err = t.unwatch(p); err == nil {
 		// TODO(rjeczalik): If watch fails then we leave trigger in inconsistent
 		// state. Handle? Panic? Native version of rewatch?
 		err = t.watch(p, e, fi)
-- 
2.43.0


From d507d7ddb8c56bd12b30e0b4c13a9c3106f74838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 29/35] fix: kqueue, FEN: entries were not followed for some
 event sets, or if replaced

New entries of a watched directory were not found, and gone ones kept, unless
Create, Write, Remove and Rename were requested; an entry replaced by another
file before the removal was processed was never watched; entries of
sub-directories that are only entries themselves were registered.
---
 watcher_fen.go     | 11 ++++++-----
 watcher_kqueue.go  | 23 +++++++++--------------
 watcher_trigger.go | 46 ++++++++++++++++++++++++++++++++--------------
 3 files changed, 47 insertions(+), 33 deletions(-)

diff --git a/watcher_fen.go b/watcher_fen.go
index 114ec7f..86e5e64 100644
--- a/watcher_fen.go
+++ b/watcher_fen.go
@@ -126,12 +126,13 @@ func (f *fen) IsStop(n interface{}, err error) bool {
 func init() {
 	encode = func(e Event, dir bool) (o int64) {
 		// Create event is not supported by FEN. Instead FileModified event will
-		// be registered. If this event will be reported on dir which is to be
-		// monitored for Create, dir will be rescanned and Create events will
-		// be generated and returned for new files. In case of files,
-		// if not requested FileModified event is reported, it will be ignored.
+		// be registered. If this event will be reported on dir, it will be
+		// rescanned: new files are watched from then on, and Create events will
+		// be generated and returned for them if dir is to be monitored for
+		// Create. In case of files, if not requested FileModified event is
+		// reported, it will be ignored.
 		o = int64(e &^ Create)
-		if (e&Create != 0 && dir) || e&Write != 0 {
+		if dir || e&Write != 0 {
 			o = (o &^ int64(Write)) | int64(FileModified)
 		}
 		// Following events are 'exception events' and as such cannot be requested
diff --git a/watcher_kqueue.go b/watcher_kqueue.go
index a5e49aa..ffcc11e 100644
--- a/watcher_kqueue.go
+++ b/watcher_kqueue.go
@@ -171,20 +171,15 @@ func (k *kq) IsStop(n interface{}, err error) bool {
 func init() {
 	encode = func(e Event, dir bool) (o int64) {
 		// Create event is not supported by kqueue. Instead NoteWrite event will
-		// be registered for a directory. If this event will be reported on dir
-		// which is to be monitored for Create, dir will be rescanned
-		// and Create events will be generated and returned for new files.
-		// In case of files, if not requested NoteRename event is reported,
-		// it will be ignored.
-		o = int64(e &^ Create)
-		if (e&Create != 0 && dir) || e&Write != 0 {
-			o = (o &^ int64(Write)) | int64(NoteWrite)
-		}
-		if e&Rename != 0 {
-			o = (o &^ int64(Rename)) | int64(NoteRename)
-		}
-		if e&Remove != 0 {
-			o = (o &^ int64(Remove)) | int64(NoteDelete)
+		// be registered for a directory. If this event will be reported on dir,
+		// it will be rescanned: new files are watched from then on, and Create
+		// events will be generated and returned for them if dir is to be
+		// monitored for Create.
+		// NoteDelete and NoteRename tell when to stop watching a file. If not
+		// requested they will be filtered out by watcher's logic.
+		o = int64(e&^(Create|Write|Rename|Remove)) | int64(NoteDelete|NoteRename)
+		if dir || e&Write != 0 {
+			o |= int64(NoteWrite)
 		}
 		return
 	}
diff --git a/watcher_trigger.go b/watcher_trigger.go
index 8d00a5d..a1f01af 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -309,7 +309,9 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 	if (ge & (not2nat[Rename] | not2nat[Remove])) != 0 {
 		// Write is reported also for Remove on directory. Because of that
 		// we have to filter it out explicitly.
-		evn = append(evn, event{w.p, e & ^Write & ^not2nat[Write], true, n})
+		if e &= ^Write & ^not2nat[Write]; e != 0 {
+			evn = append(evn, event{w.p, e, true, n})
+		}
 		if ge&not2nat[Rename] != 0 {
 			for p := range t.pthLkp {
 				if strings.HasPrefix(p, w.p+string(os.PathSeparator)) {
@@ -318,11 +320,8 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 						dbgprintf("trg: failed stop watching moved file (%q): %q\n",
 							p, err)
 					}
-					if (w.eDir|w.eNonDir)&(not2nat[Rename]|Rename) != 0 {
-						evn = append(evn, event{
-							p, (w.eDir | w.eNonDir) & e &^ Write &^ not2nat[Write],
-							w.fi.IsDir(), nil,
-						})
+					if e&(not2nat[Rename]|Rename) != 0 {
+						evn = append(evn, event{p, e, w.fi.IsDir(), nil})
 					}
 				}
 			}
@@ -330,7 +329,8 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 		t.t.Del(w)
 		return
 	}
-	if (ge & not2nat[Write]) != 0 {
+	// Entries of a directory that is only an entry itself are not watched.
+	if (ge&not2nat[Write]) != 0 && w.eDir != 0 {
 		switch err := t.walk(w.p, func(fi os.FileInfo) error {
 			p := filepath.Join(w.p, fi.Name())
 			switch err := t.singlewatch(p, w.eDir, ndir, fi); {
@@ -355,6 +355,27 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 	return
 }
 
+// replaced looks whether another file has taken the place of w, which is no
+// longer there. When the directory was scanned w was still known.
+func (t *trg) replaced(w *watched, n interface{}) (evn []event) {
+	d, ok := t.pthLkp[filepath.Dir(w.p)]
+	if !ok || d.eDir == 0 || d.p == w.p {
+		return
+	}
+	fi, err := os.Lstat(w.p)
+	if err != nil {
+		return
+	}
+	if err = t.singlewatch(w.p, d.eDir, ndir, fi); err != nil {
+		dbgprintf("trg: watching %q failed: %q", w.p, err)
+		return
+	}
+	if d.eDir&Create != 0 {
+		evn = append(evn, event{w.p, Create, fi.IsDir(), n})
+	}
+	return
+}
+
 type mode uint
 
 const (
@@ -435,18 +456,15 @@ func (t *trg) process(n interface{}) (evn []event) {
 			}
 		}
 	}
-	if e == Event(0) && (!w.fi.IsDir() || (ge&int64(not2nat[Write])) == 0) {
-		t.Unlock()
-		return
-	}
-
+	gone := Event(ge)&(not2nat[Remove]|not2nat[Rename]) != 0
 	if w.fi.IsDir() {
 		evn = append(evn, t.dir(w, n, e, Event(ge))...)
-	} else {
+	} else if e != 0 {
 		evn = append(evn, t.file(w, n, e)...)
 	}
-	if Event(ge)&(not2nat[Remove]|not2nat[Rename]) != 0 {
+	if gone {
 		t.t.Del(w)
+		evn = append(evn, t.replaced(w, n)...)
 	}
 	t.Unlock()
 	return
-- 
2.43.0


From e40811cf6e17e2a921a6cf833aec6171bd81b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 30/35] fix: kqueue, FEN: a failed Watch left a part watched,
 Rewatch hid its error

And a file that vanished while its directory was set up is no failure.
---
 watcher_trigger.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index a1f01af..c5e77a1 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -158,6 +158,7 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 			return
 		}
 	}
+	eDir, eNonDir := w.eDir, w.eNonDir
 	switch direct {
 	case dir:
 		w.eDir |= e
@@ -168,6 +169,9 @@ func (t *trg) singlewatch(p string, e Event, direct mode, fi os.FileInfo) (err e
 		w.eNonDir |= e
 	}
 	if err = t.t.Watch(fi, w, encode(w.eDir|w.eNonDir, fi.IsDir())); err != nil {
+		if w.eDir, w.eNonDir = eDir, eNonDir; !ok {
+			t.t.Del(w)
+		}
 		return
 	}
 	if !ok {
@@ -194,6 +198,7 @@ func decode(o int64, w Event) (e Event) {
 	return
 }
 
+// watch starts the watch of p. If it fails p is not watched.
 func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
 	if err := t.singlewatch(p, e, dir, fi); err != nil {
 		if err != errAlreadyWatched {
@@ -202,15 +207,21 @@ func (t *trg) watch(p string, e Event, fi os.FileInfo) error {
 	}
 	if fi.IsDir() {
 		err := t.walk(p, func(fi os.FileInfo) (err error) {
-			if err = t.singlewatch(filepath.Join(p, fi.Name()), e, ndir,
-				fi); err != nil {
+			q := filepath.Join(p, fi.Name())
+			if err = t.singlewatch(q, e, ndir, fi); err != nil {
 				if err != errAlreadyWatched {
+					if _, e := os.Lstat(q); os.IsNotExist(e) {
+						return nil // gone since it was listed
+					}
 					return
 				}
 			}
 			return nil
 		})
 		if err != nil {
+			if e := t.unwatch(p); e != nil {
+				dbgprintf("trg: unwatch %q failed: %q", p, e)
+			}
 			return err
 		}
 	}
@@ -278,19 +289,25 @@ func (t *trg) Unwatch(p string) error {
 // Rewatch implements Watcher interface.
 //
 // TODO(rjeczalik): This is a naive hack. Rewrite might help.
-func (t *trg) Rewatch(p string, _, e Event) error {
+func (t *trg) Rewatch(p string, old, e Event) error {
 	fi, err := os.Stat(p)
 	if err != nil {
 		return err
 	}
 	t.Lock()
-	if err = t.unwatch(p); err == nil {
-		// TODO(rjeczalik): If watch fails then we leave trigger in inconsistent
-		// state. Handle? Panic? Native version of rewatch?
+	defer t.Unlock()
+	if err = t.unwatch(p); err == errNotWatched {
+		return err
+	}
+	if err == nil {
 		err = t.watch(p, e, fi)
 	}
-	t.Unlock()
-	return nil
+	if err != nil {
+		if e := t.watch(p, old, fi); e != nil {
+			dbgprintf("trg: %q is no longer watched: %q", p, e)
+		}
+	}
+	return err
 }
 
 func (*trg) file(w *watched, n interface{}, e Event) (evn []event) {
-- 
2.43.0


From a494954d3c91e155efd03d125a214578aae978f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 31/35] fix: kqueue, FEN: events reported at once were lost if
 requested in part

---
 watcher_trigger.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index c5e77a1..97430a9 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -140,10 +140,15 @@ func (t *trg) Close() (err error) {
 	return
 }
 
-// send reported events one by one through chan.
+// send reported events one by one through chan. What was reported at once is
+// sent in parts, as it may be requested in parts.
 func (t *trg) send(evn []event) {
-	for i := range evn {
-		t.c <- &evn[i]
+	for _, ev := range evn {
+		for e := ev.e; e != 0; e &= e - 1 {
+			part := ev
+			part.e = e &^ (e - 1)
+			t.c <- &part
+		}
 	}
 }
 
-- 
2.43.0


From c801190e4d68353c23c71cf0b509e4cd12447577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 32/35] fix: kqueue, FEN: Close waited for the monitor with the
 lock it needs

---
 watcher_trigger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index 97430a9..e4ca7dc 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -116,12 +116,12 @@ func newWatcher(c chan<- EventInfo) watcher {
 
 // Close implements watcher.
 func (t *trg) Close() (err error) {
-	t.Lock()
 	if err = t.t.Stop(); err != nil {
-		t.Unlock()
 		return
 	}
+	// Events are processed with the lock held.
 	<-t.s
+	t.Lock()
 	var e error
 	for _, w := range t.pthLkp {
 		if e = t.singleunwatch(w.p, both); e != nil {
-- 
2.43.0


From 482bf30234be3d82f3a177c3d1f458f31d4ab9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 33/35] fix: kqueue, FEN: a renamed or removed directory was
 closed twice

The second close hits whatever got the descriptor meanwhile. Renames of what
was moved with a directory are reported as renames only, and no removal of what
was never announced.
---
 watcher_trigger.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index e4ca7dc..b4586a5 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -343,12 +343,14 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 							p, err)
 					}
 					if e&(not2nat[Rename]|Rename) != 0 {
-						evn = append(evn, event{p, e, w.fi.IsDir(), nil})
+						evn = append(evn, event{
+							p, e & (not2nat[Rename] | Rename),
+							w.fi.IsDir(), nil,
+						})
 					}
 				}
 			}
 		}
-		t.t.Del(w)
 		return
 	}
 	// Entries of a directory that is only an entry itself are not watched.
@@ -356,8 +358,6 @@ func (t *trg) dir(w *watched, n interface{}, e, ge Event) (evn []event) {
 		switch err := t.walk(w.p, func(fi os.FileInfo) error {
 			p := filepath.Join(w.p, fi.Name())
 			switch err := t.singlewatch(p, w.eDir, ndir, fi); {
-			case os.IsNotExist(err) && ((w.eDir & Remove) != 0):
-				evn = append(evn, event{p, Remove, fi.IsDir(), n})
 			case err == errAlreadyWatched:
 			case err != nil:
 				dbgprintf("trg: watching %q failed: %q", p, err)
-- 
2.43.0


From 5c8f0d9115a0a87ee38628573b0b8f35f4a00562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:38 +0000
Subject: [PATCH 34/35] fix: kqueue, FEN: a rewatch of a path whose file was
 replaced watches it anew

---
 watcher_trigger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/watcher_trigger.go b/watcher_trigger.go
index b4586a5..41389a2 100644
--- a/watcher_trigger.go
+++ b/watcher_trigger.go
@@ -302,7 +302,8 @@ func (t *trg) Rewatch(p string, old, e Event) error {
 	t.Lock()
 	defer t.Unlock()
 	if err = t.unwatch(p); err == errNotWatched {
-		return err
+		// The watch ended when the file was removed or renamed; it is replaced now.
+		return t.watch(p, e, fi)
 	}
 	if err == nil {
 		err = t.watch(p, e, fi)
-- 
2.43.0


From da5cb95ab1358fcfe8fd80e72782a2abfb48d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:01 +0000
Subject: [PATCH 35/35] fix: keep the old FSEvents watch if its relocation
 fails

---
 watcher_fsevents.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/watcher_fsevents.go b/watcher_fsevents.go
index dab5286..00cf688 100644
--- a/watcher_fsevents.go
+++ b/watcher_fsevents.go
@@ -293,11 +293,14 @@ func (fse *fsevents) RecursiveRewatch(oldpath, newpath string, oldevent, neweven
 		if _, ok := fse.watches[newpath]; ok {
 			return errAlreadyWatched
 		}
-		if err := fse.Unwatch(oldpath); err != nil {
+		if _, ok := fse.watches[oldpath]; !ok {
+			return errNotWatched
+		}
+		// The old watch-point stays in place if the new one fails.
+		if err := fse.watch(newpath, newevent, 1); err != nil {
 			return err
 		}
-		// TODO(rjeczalik): revert unwatch if watch fails?
-		return fse.watch(newpath, newevent, 1)
+		return fse.Unwatch(oldpath)
 	}
 }
 
-- 
2.43.0

