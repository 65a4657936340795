//go:build !c15 && !c17

package platcheck

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"vh/core"
	"vh/fake/winsys"
	notify "vh/plat/readdcw"
)

// Bits of an event set in a case: four generic values and the notify filters.
var winEvents = []notify.Event{
	notify.Create, notify.Remove, notify.Write, notify.Rename,
	notify.FileNotifyChangeFileName, notify.FileNotifyChangeDirName, notify.FileNotifyChangeAttributes, notify.FileNotifyChangeSize,
	notify.FileNotifyChangeLastWrite, notify.FileNotifyChangeLastAccess, notify.FileNotifyChangeCreation, notify.FileNotifyChangeSecurity,
}

// change is what the operating system reports for a kind of change.
type change struct {
	action  uint32
	classes uint32
	generic int // index of the generic value
	must    bool
}

// winChanges: the classes of changes of contents are those NTFS uses. Write must be reported if
// contents change size, attributes or security change.
var winChanges = map[string]change{
	"add":      {winsys.FILE_ACTION_ADDED, 0, 0, true},
	"remove":   {winsys.FILE_ACTION_REMOVED, 0, 1, true},
	"oldname":  {winsys.FILE_ACTION_RENAMED_OLD_NAME, 0, 3, true},
	"newname":  {winsys.FILE_ACTION_RENAMED_NEW_NAME, 0, 3, true},
	"write":    {winsys.FILE_ACTION_MODIFIED, winsys.FILE_NOTIFY_CHANGE_SIZE | winsys.FILE_NOTIFY_CHANGE_LAST_WRITE, 2, true},
	"rewrite":  {winsys.FILE_ACTION_MODIFIED, winsys.FILE_NOTIFY_CHANGE_LAST_WRITE, 2, false},
	"attrib":   {winsys.FILE_ACTION_MODIFIED, winsys.FILE_NOTIFY_CHANGE_ATTRIBUTES, 2, true},
	"security": {winsys.FILE_ACTION_MODIFIED, winsys.ChangeSecurity, 2, true},
	"access":   {winsys.FILE_ACTION_MODIFIED, winsys.FILE_NOTIFY_CHANGE_LAST_ACCESS, 2, false},
	"creation": {winsys.FILE_ACTION_MODIFIED, winsys.FILE_NOTIFY_CHANGE_CREATION, 2, true},
}

var winKinds = []string{"add", "remove", "rename", "write", "rewrite", "attrib", "security", "access", "creation"}

var winActions = map[uint32]notify.Event{
	winsys.FILE_ACTION_ADDED: notify.FileActionAdded, winsys.FILE_ACTION_REMOVED: notify.FileActionRemoved, winsys.FILE_ACTION_MODIFIED: notify.FileActionModified,
	winsys.FILE_ACTION_RENAMED_OLD_NAME: notify.FileActionRenamedOldName, winsys.FILE_ACTION_RENAMED_NEW_NAME: notify.FileActionRenamedNewName,
}

func randDir(r *rand.Rand) string {
	return []string{"", "a", "a/b", "ab", "a/ab", "b"}[r.IntN(6)]
}

func genWin(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"nch": 1 + r.IntN(4)}}
	nch := c.Cfg["nch"]
	small := r.IntN(2) == 0 // few values, so that sets differ by one
	watch := func() {
		op := core.Op{K: "watch", C: r.IntN(nch), P: randDir(r), R: r.IntN(3) == 0, E: uint32(r.IntN(1<<12)) & uint32(r.IntN(1<<12))}
		if small {
			op.E = 1 << r.IntN(len(winEvents))
			if r.IntN(2) == 0 {
				op.E = 1 << r.IntN(4)
			}
		}
		op.N = r.IntN(2)
		if op.E == 0 {
			op.E = 1 + uint32(r.IntN(15))
		}
		c.Ops = append(c.Ops, op)
	}
	for i := 1 + r.IntN(4); i > 0; i-- {
		watch()
	}
	for i := 5 + r.IntN(30); i > 0; i-- {
		switch x := r.IntN(12); {
		case x == 0:
			c.Ops = append(c.Ops, core.Op{K: "stop", C: r.IntN(nch), N: r.IntN(2)})
		case x < 4:
			watch()
		case x == 4:
			c.Ops = append(c.Ops, core.Op{K: "sync"})
		default:
			op := core.Op{K: "change", P: path.Join(randDir(r), []string{"f", "b", "é x", "ab", "new", "x/y"}[r.IntN(6)]), S: winKinds[r.IntN(len(winKinds))], R: r.IntN(3) == 0, N: r.IntN(3)}
			c.Ops = append(c.Ops, op)
		}
	}
	return c
}

var winOnce sync.Once
var winBase string

// winDirs makes the directories that are watched; they stay.
func winDirs() string {
	winOnce.Do(func() {
		b := fmt.Sprintf("%s/w%d", os.Getenv("VH_SCRATCH"), os.Getpid())
		for _, d := range []string{"a/b", "ab", "a/ab", "b"} {
			if err := os.MkdirAll(b+"/"+d, 0o755); err != nil {
				core.Fatalf("%v", err)
			}
		}
		b, err := filepath.EvalSymlinks(b)
		if err != nil {
			core.Fatalf("%v", err)
		}
		winBase = b
	})
	return winBase
}

type winReg struct {
	rec bool
	ev  notify.Event
}

type bounds struct{ lo, hi int }

// winQuiet waits until the simulated kernel and the library are idle.
func winQuiet() error {
	end := time.Now().Add(core.QuiesceTimeout)
	for {
		if !winsys.Idle(func(int) bool { time.Sleep(20 * time.Microsecond); return time.Now().Before(end) }) {
			return fmt.Errorf("the loop of the watcher does not wait for changes:\n%s", core.AllStacks())
		}
		if err := core.Quiesce(); err != nil {
			return err
		}
		if winsys.Idle(func(int) bool { return false }) {
			return nil
		}
	}
}

func runWin(c core.Case) (res core.Result) {
	base := winDirs()
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	winsys.Reset(nil)
	t := notify.XNewTree()
	nch := max(1, c.Cfg["nch"])
	chans := make([]chan notify.EventInfo, nch)
	regs := make([]map[string]*winReg, nch)
	want := make([]map[string]bounds, nch)
	reset := func() {
		for i := range want {
			want[i] = map[string]bounds{}
		}
	}
	for i := range chans {
		chans[i], regs[i] = make(chan notify.EventInfo, 4096), map[string]*winReg{}
	}
	reset()
	var history []string
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Dirty = core.Violation, true
			res.Msg = "windows: " + fmt.Sprintf(format, v...)
		}
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	rel := func(p string) string { return strings.TrimPrefix(p, base) }
	describe := func(i int) string {
		var s []string
		for p, g := range regs[i] {
			s = append(s, fmt.Sprintf("%q rec=%v %v", p, g.rec, g.ev))
		}
		sort.Strings(s)
		for _, d := range winsys.Dirs() {
			s = append(s, fmt.Sprintf("[OS handle %q filter %#x subtree=%v pending=%v]", rel(d.Path), d.Filter, d.Subtree, d.Pending))
		}
		return strings.Join(s, "; ")
	}
	hang := func(err error) bool {
		if err != nil && res.Verdict == core.OK {
			res.Verdict, res.Msg, res.Dirty = core.Hang, err.Error(), true
		}
		return err != nil
	}
	check := func() bool {
		if hang(winQuiet()) {
			return false
		}
		for i, ch := range chans {
			got := map[string]int{}
			for len(ch) > 0 {
				ei := <-ch
				k := fmt.Sprintf("%v %q", ei.Event(), rel(ei.Path()))
				got[k]++
				res.Stats["delivered"]++
			}
			for k, n := range got {
				if b := want[i][k]; n > b.hi {
					fail("channel %d got %s %d times, want at most %d; registrations %s; changes %s", i, k, n, b.hi, describe(i), strings.Join(history, ", "))
				}
			}
			for k, b := range want[i] {
				if got[k] < b.lo {
					fail("channel %d got %s %d times, want %d; registrations %s; changes %s", i, k, got[k], b.lo, describe(i), strings.Join(history, ", "))
				}
			}
		}
		if w := winsys.Wrong(); len(w) > 0 {
			fail("%s", strings.Join(w, "; "))
		}
		history = nil
		reset()
		return res.Verdict == core.OK
	}
	type rec struct {
		p       string
		action  uint32
		classes uint32
	}
	var batch []rec
	flush := func() {
		if len(batch) == 1 {
			winsys.Report(batch[0].p, batch[0].action, batch[0].classes)
		} else if len(batch) > 1 {
			winsys.Batch(func(report func(string, uint32, uint32)) {
				for _, b := range batch {
					report(b.p, b.action, b.classes)
				}
			})
		}
		batch = nil
	}
	one := func(p, kind string, isdir bool) {
		ch := winChanges[kind]
		classes := ch.classes
		if classes == 0 {
			classes = winsys.FILE_NOTIFY_CHANGE_FILE_NAME
			if isdir {
				classes = winsys.FILE_NOTIFY_CHANGE_DIR_NAME
			}
		}
		p = path.Join(base, p)
		batch = append(batch, rec{p, ch.action, classes})
		history = append(history, fmt.Sprintf("%s %q dir=%v", kind, rel(p), isdir))
		modified := notify.FileNotifyChangeAttributes | notify.FileNotifyChangeSize | notify.FileNotifyChangeLastWrite |
			notify.FileNotifyChangeLastAccess | notify.FileNotifyChangeCreation | notify.FileNotifyChangeSecurity
		for i := range regs {
			for q, g := range regs[i] {
				q = path.Join(base, q)
				if p != q && path.Dir(p) != q && !(g.rec && strings.HasPrefix(p, q+"/")) {
					continue
				}
				// Changes of a watched path itself are only seen by watches above it.
				must := p != q
				add := func(e notify.Event, lo bool) {
					k := fmt.Sprintf("%v %q", e, rel(p))
					b := want[i][k]
					b.hi++
					if lo && must {
						b.lo++
					}
					want[i][k] = b
				}
				if e := winEvents[ch.generic]; g.ev&e != 0 {
					add(e, ch.must)
				}
				s := g.ev & modified
				lo := uint32(s)&classes != 0
				if ch.action != winsys.FILE_ACTION_MODIFIED {
					s = g.ev & notify.Event(classes)
					lo = true
				}
				if s != 0 {
					add(winActions[ch.action], lo)
				}
			}
		}
	}
	busy := false // handles may be about to be replaced
	for _, op := range c.Ops {
		if res.Verdict != core.OK {
			break
		}
		if op.K == "change" && busy && hang(winQuiet()) {
			break
		}
		if op.K == "change" {
			busy = false
		} else if op.N != 0 {
			busy = true
		}
		if op.K != "change" && len(batch)+len(history) > 0 {
			flush()
			if !check() {
				break
			}
		}
		i := op.C % nch
		switch op.K {
		case "watch":
			p := path.Join(base, op.P)
			if op.R {
				p += "/..."
			}
			var es []notify.Event
			var set notify.Event
			for b, e := range winEvents {
				if op.E&(1<<b) != 0 {
					es = append(es, e)
					set |= e
				}
			}
			if err := t.Watch(p, chans[i], es...); err != nil {
				fail("Watch(%q, channel %d, %v): %v", rel(p), i, es, err)
				break
			}
			g := regs[i][op.P]
			if g == nil {
				g = &winReg{}
				regs[i][op.P] = g
			}
			g.rec = g.rec || op.R
			g.ev |= set
			res.Stats["watches"]++
			if op.N == 0 && !check() {
				break
			}
		case "stop":
			t.Stop(chans[i])
			regs[i] = map[string]*winReg{}
			// Changes while the loop replaces handles get lost on this platform.
			if op.N == 0 && hang(winQuiet()) {
				break
			}
		case "change":
			if op.S == "rename" {
				one(op.P, "oldname", op.R)
				one(op.P+".new", "newname", op.R)
			} else {
				one(op.P, op.S, op.R)
			}
			if op.N == 0 {
				flush()
			}
			res.Stats["changes"]++
		}
	}
	if res.Verdict == core.OK {
		flush()
		check()
	}
	if res.Verdict == core.OK {
		done := make(chan error, 1)
		go func() { done <- t.Close() }()
		select {
		case err := <-done:
			if err != nil {
				fail("Close: %v", err)
			}
		case <-time.After(core.QuiesceTimeout):
			hang(fmt.Errorf("Close does not return:\n%s", core.AllStacks()))
		}
		if ds := winsys.Dirs(); len(ds) > 0 && res.Verdict == core.OK {
			fail("after Close %d directory handles are open", len(ds))
		}
		if n := winsys.Ports(); n > 0 && res.Verdict == core.OK {
			fail("after Close %d completion ports are open", n)
		}
		if w := winsys.Wrong(); len(w) > 0 {
			fail("%s", strings.Join(w, "; "))
		}
	}
	res.Nontrivial = res.Stats["watches"] > 1 && res.Stats["delivered"] > 2
	return res
}

func init() {
	add(2, core.Engine{Name: "windows", Gen: genWin, Run: runWin, Count: only("C16", 4000, 100000)})
}
