//go:build !c15 && !c17

package platcheck

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"vh/core"
	"vh/fake/winsys"
	notify "vh/plat/readdcw"
)

// The Windows watcher alone: which directories are open after calls that succeed or fail.

func genWinFaults(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{}}
	if r.IntN(4) > 0 {
		c.Cfg["fault"] = 1 + r.IntN(16)
	}
	e := func() uint32 {
		x := uint32(r.IntN(1 << 12))
		if r.IntN(2) == 0 {
			x = 1 << r.IntN(len(winEvents))
		}
		return x | 1<<r.IntN(len(winEvents))
	}
	for i := 3 + r.IntN(12); i > 0; i-- {
		op := core.Op{K: []string{"watch", "watch", "unwatch", "rewatch", "move"}[r.IntN(5)], P: randDir(r), Q: randDir(r), R: r.IntN(2) == 0, E: e(), N: r.IntN(2)}
		if r.IntN(12) == 0 {
			op.P = "missing"
		}
		if r.IntN(20) == 0 {
			op.E = 1 << 31 // unknown
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runWinFaults(c core.Case) (res core.Result) {
	base := winDirs()
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	ncall, armed, failed := 0, false, 0
	winsys.Reset(func(call, p string) error {
		if !armed {
			return nil
		}
		switch call {
		case "CreateFile", "CreateIoCompletionPort", "ReadDirectoryChanges":
			if ncall++; ncall == c.Cfg["fault"] {
				failed++
				return winsys.ENOENT
			}
		}
		return nil
	})
	out := make(chan notify.EventInfo, 4096)
	w := notify.XNewWatcher(out)
	type reg struct {
		ev  notify.Event
		rec bool
	}
	m := map[string]reg{}
	var history []string
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Dirty = core.Violation, true
			res.Msg = "windows: " + fmt.Sprintf(format, v...) + "; " + strings.Join(history, ", ")
		}
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	hang := func(err error) bool {
		if err != nil && res.Verdict == core.OK {
			res.Verdict, res.Msg, res.Dirty = core.Hang, err.Error(), true
		}
		return err != nil
	}
	check := func() {
		if hang(winQuiet()) {
			return
		}
		open := map[string]bool{}
		for _, d := range winsys.Dirs() {
			open[d.Path] = true
			g, ok := m[d.Path]
			if !ok {
				fail("a handle of %q is open, which is not watched", strings.TrimPrefix(d.Path, base))
			} else if d.Subtree != g.rec {
				fail("%q is watched with subtree=%v, wanted %v", strings.TrimPrefix(d.Path, base), d.Subtree, g.rec)
			}
			if !d.Pending {
				fail("nothing waits for changes of %q", strings.TrimPrefix(d.Path, base))
			}
		}
		for p := range m {
			if !open[p] {
				fail("no handle of the watched %q is open", strings.TrimPrefix(p, base))
			}
		}
		if wr := winsys.Wrong(); len(wr) > 0 {
			fail("%s", strings.Join(wr, "; "))
		}
	}
	set := func(e uint32) (s notify.Event) {
		for b, x := range winEvents {
			if e&(1<<b) != 0 {
				s |= x
			}
		}
		if e == 1<<31 {
			s = notify.Event(1) << 31
		}
		return s
	}
	for _, op := range c.Ops {
		if res.Verdict != core.OK {
			return res
		}
		p, ev := path.Join(base, op.P), set(op.E)
		g, watched := m[p]
		bad := op.E == 1<<31
		var err error
		switch op.K {
		case "watch":
			if watched {
				continue // the trees do not do that
			}
			history = append(history, fmt.Sprintf("watch %q rec=%v %v", op.P, op.R, ev))
			if ncall < c.Cfg["fault"] {
				if hang(winQuiet()) { // only calls made by Watch itself are refused
					return res
				}
				armed = true
			}
			before := failed
			if op.R {
				err = w.RecursiveWatch(p, ev)
			} else {
				err = w.Watch(p, ev)
			}
			armed = false
			_, e := os.Stat(p)
			if want := bad || e != nil || failed > before; want != (err != nil) {
				fail("result %v, a call was refused: %v, unknown events: %v, directory: %v", err, failed > before, bad, e)
			}
			if failed > before {
				res.Stats["refused"]++
			}
			if err == nil {
				m[p] = reg{ev, op.R}
				res.Stats["watches"]++
			}
		case "unwatch":
			history = append(history, fmt.Sprintf("unwatch %q", op.P))
			if op.R {
				err = w.RecursiveUnwatch(p)
			} else {
				err = w.Unwatch(p)
			}
			if (err == nil) != watched {
				fail("result %v, watched %v", err, watched)
			}
			delete(m, p)
		case "rewatch":
			if !watched {
				g.ev = ev
			}
			history = append(history, fmt.Sprintf("rewatch %q rec=%v %v", op.P, op.R, ev))
			if op.R {
				err = w.RecursiveRewatch(p, p, g.ev, ev)
			} else {
				err = w.Rewatch(p, g.ev, ev)
			}
			if want := watched && !bad; (err == nil) != want {
				fail("result %v, watched %v, unknown events %v", err, watched, bad)
			}
			if err == nil {
				m[p] = reg{ev, op.R}
			}
		case "move":
			q := path.Join(base, op.Q)
			if _, ok := m[q]; ok || p == q || bad {
				continue
			}
			history = append(history, fmt.Sprintf("move %q to %q %v", op.P, op.Q, ev))
			err = w.RecursiveRewatch(p, q, g.ev, ev)
			if (err == nil) != watched {
				fail("result %v, watched %v", err, watched)
			}
			if err == nil {
				delete(m, p)
				m[q] = reg{ev, true}
			}
		}
		if op.N == 0 {
			check()
		}
	}
	check()
	if res.Verdict != core.OK {
		return res
	}
	done := make(chan error, 1)
	go func() { done <- w.Close() }()
	select {
	case err := <-done:
		if err != nil {
			fail("Close: %v", err)
		}
	case <-time.After(core.QuiesceTimeout):
		hang(fmt.Errorf("Close does not return:\n%s", core.AllStacks()))
		return res
	}
	m = map[string]reg{}
	if ds := winsys.Dirs(); len(ds) > 0 {
		var s []string
		for _, d := range ds {
			s = append(s, strings.TrimPrefix(d.Path, base))
		}
		sort.Strings(s)
		fail("after Close directories are open: %q", s)
	}
	if n := winsys.Ports(); n > 0 {
		fail("after Close %d completion ports are open", n)
	}
	if wr := winsys.Wrong(); len(wr) > 0 {
		fail("%s", strings.Join(wr, "; "))
	}
	if len(out) > 0 {
		fail("reported %v although nothing changed", <-out)
	}
	res.Nontrivial = res.Stats["watches"] > 0 && (res.Stats["refused"] > 0 || c.Cfg["fault"] == 0)
	return res
}

func init() {
	add(3, core.Engine{Name: "windows-calls", Gen: genWinFaults, Run: runWinFaults, Count: only("C16", 3000, 100000)})
}
