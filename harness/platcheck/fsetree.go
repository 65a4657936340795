//go:build !c15 && !c17

package platcheck

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"vh/core"
	notify "vh/plat/fsevents"
)

// Registrations made through the recursive tree on the macOS backend: every announcement is
// compared with what the live registrations have to be told.

var fseTreeDirs = []string{"", "a", "a/b", "a/b/c", "ab", "b", "b/a"}

func genFSETree(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"nch": 1 + r.IntN(4)}}
	few := r.IntN(2) == 0
	dir := func() string {
		if few {
			return fseTreeDirs[r.IntN(4)]
		}
		return fseTreeDirs[r.IntN(len(fseTreeDirs))]
	}
	for i := 6 + r.IntN(30); i > 0; i-- {
		switch x := r.IntN(20); {
		case x < 6 || len(c.Ops) < 2:
			op := core.Op{K: "watch", P: dir(), C: r.IntN(4), R: r.IntN(2) == 0}
			for op.E == 0 {
				op.E = uint32(r.IntN(1 << 8))
				if r.IntN(3) == 0 {
					op.E = 1 << r.IntN(8)
				}
			}
			if r.IntN(15) == 0 {
				op.P = "missing"
			}
			if r.IntN(6) == 0 { // the library refuses
				op.N = 1 + r.IntN(3)
			}
			c.Ops = append(c.Ops, op)
		case x < 8:
			c.Ops = append(c.Ops, core.Op{K: "stop", C: r.IntN(4)})
		default:
			// Of one kind or some; creations and removals come once for a path.
			op := core.Op{K: "event", P: dir(), N: r.IntN(3), R: r.IntN(3) > 0}
			op.E = 1 << r.IntN(8)
			if r.IntN(3) == 0 {
				op.E = uint32(1+r.IntN(63)) << 2
			}
			c.Ops = append(c.Ops, op)
		}
	}
	return c
}

var (
	fseOnce sync.Once
	fseBase string
)

func runFSETree(c core.Case) (res core.Result) {
	fseOnce.Do(func() {
		b := fmt.Sprintf("%s/m%d", os.Getenv("VH_SCRATCH"), os.Getpid())
		for _, d := range fseTreeDirs {
			if err := os.MkdirAll(b+"/"+d, 0o755); err != nil {
				core.Fatalf("%v", err)
			}
		}
		b, err := filepath.EvalSymlinks(b)
		if err != nil {
			core.Fatalf("%v", err)
		}
		fseBase = b
	})
	base := fseBase
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	arm, refused := 0, false
	notify.XReset(func(call, p string) bool {
		if arm--; arm == 0 {
			refused = true
			return true
		}
		return false
	})
	t := notify.XNewTree()
	type reg struct {
		e   uint32
		rec bool
	}
	nch := max(1, c.Cfg["nch"])
	chans := make([]chan notify.EventInfo, nch)
	regs := make([]map[string]*reg, nch)
	for i := range chans {
		chans[i], regs[i] = make(chan notify.EventInfo, 4096), map[string]*reg{}
	}
	var history []string
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Dirty = core.Violation, true
			res.Msg = "macos tree: " + fmt.Sprintf(format, v...) + "; " + strings.Join(history, ", ")
		}
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	set := func(e uint32) (s notify.Event) {
		for i, x := range fseEvents[:8] {
			if e&(1<<i) != 0 {
				s |= x
			}
		}
		return
	}
	flushed := map[uintptr]bool{}
	quiet := func() bool {
		if err := core.Quiesce(); err != nil && res.Verdict == core.OK {
			res.Verdict, res.Msg, res.Dirty = core.Hang, err.Error(), true
		}
		return res.Verdict == core.OK
	}
	// Streams begin with the end of their history.
	start := func() {
		for _, s := range notify.XStreams() {
			if !flushed[s.Info] {
				flushed[s.Info] = true
				notify.XDeliver(s.Info, []notify.FSEvent{{Path: s.Path, Flags: uint32(notify.FSEventsHistoryDone)}})
			}
		}
	}
	id, fresh := uint64(1000), 0
	once := map[string]uint32{}
	for _, op := range c.Ops {
		if res.Verdict != core.OK {
			return
		}
		op.C %= nch
		dir := path.Join(base, op.P)
		switch op.K {
		case "watch":
			if op.E &= 1<<8 - 1; op.E == 0 {
				continue
			}
			arg := dir
			if op.R {
				arg += "/..."
			}
			history = append(history, fmt.Sprintf("Watch(%q, c%d, %v)", strings.TrimPrefix(arg, base), op.C, set(op.E)))
			arm, refused = op.N, false
			err := t.Watch(arg, chans[op.C], set(op.E))
			arm = 0
			if refused {
				history = append(history, "refused")
				res.Stats["refused"]++
			}
			if (err != nil) != (refused || op.P == "missing") {
				fail("Watch: %v", err)
				return
			}
			if err == nil {
				g := regs[op.C][dir]
				if g == nil {
					g = &reg{}
					regs[op.C][dir] = g
				}
				g.e, g.rec = g.e|op.E, g.rec || op.R
				res.Stats["watch"]++
			}
			start()
		case "stop":
			history = append(history, fmt.Sprintf("Stop(c%d)", op.C))
			t.Stop(chans[op.C])
			regs[op.C] = map[string]*reg{}
			start()
		case "event":
			p := dir
			if op.R {
				p = path.Join(dir, []string{"f", "a", "é x"}[op.N%3])
			}
			if op.E &= 1<<8 - 1; op.E&3 != 0 { // created, removed
				if op.E = op.E & -op.E; once[p]|op.E == 3 && op.E == 1 || once[p]&op.E != 0 {
					fresh++
					p = path.Join(dir, fmt.Sprintf("n%d", fresh))
				}
				once[p] |= op.E
			}
			if op.E == 0 {
				continue
			}
			id++
			history = append(history, fmt.Sprintf("%q %v", strings.TrimPrefix(p, base), set(op.E)))
			for _, s := range notify.XStreams() {
				if p == s.Path || strings.HasPrefix(p, s.Path+"/") {
					notify.XDeliver(s.Info, []notify.FSEvent{{Path: p, ID: id, Flags: uint32(set(op.E))}})
				}
			}
			if !quiet() {
				return
			}
			for i, ch := range chans {
				got := map[int]int{}
				for len(ch) > 0 {
					ei := <-ch
					k := -1
					for j, x := range fseEvents[:8] {
						if ei.Event() == x {
							k = j
						}
					}
					if ei.Path() != p || k < 0 {
						fail("channel %d got %v of %q", i, ei.Event(), ei.Path())
						return
					}
					got[k]++
					res.Stats["events"]++
				}
				for k := range fseEvents[:8] {
					n := 0
					for w, g := range regs[i] {
						if op.E&g.e&(1<<k) != 0 && (p == w || path.Dir(p) == w || g.rec && strings.HasPrefix(p, w+"/")) {
							n++
						}
					}
					if got[k] != n {
						var ss []string
						for _, s := range notify.XStreams() {
							ss = append(ss, strings.TrimPrefix(s.Path, base))
						}
						sort.Strings(ss)
						fail("channel %d got %v of %q %d times instead of %d; streams %q", i, fseEvents[k], strings.TrimPrefix(p, base), got[k], n, ss)
						return
					}
				}
			}
			continue
		}
		if !quiet() {
			return
		}
		for i, ch := range chans {
			if len(ch) > 0 {
				ei := <-ch
				fail("channel %d got %v of %q", i, ei.Event(), ei.Path())
				return
			}
		}
	}
	for _, ch := range chans {
		t.Stop(ch)
	}
	history = append(history, "Stop of all")
	if ss := notify.XStreams(); len(ss) > 0 {
		fail("a stream runs for %q", ss[0].Path)
	}
	t.Close()
	if wr := notify.XWrong(); len(wr) > 0 {
		fail("%s", strings.Join(wr, "; "))
	}
	res.Nontrivial = res.Stats["events"] > 2 && res.Stats["watch"] > 1
	return
}

func init() {
	add(6, core.Engine{Name: "macos-tree", Gen: genFSETree, Run: runFSETree, Count: only("C16", 20000, 600000)})
}
