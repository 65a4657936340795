// Package tree checks the trees of notify with watchers of the harness, and the real watcher
// without a tree. It needs the exports added by the overlay.
package tree

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"vh/core"
	"vh/e2e"

	"github.com/rjeczalik/notify"
)

// stub accepts everything.
type stub struct{}

func (stub) Watch(string, notify.Event) error                                  { return nil }
func (stub) Unwatch(string) error                                              { return nil }
func (stub) Rewatch(string, notify.Event, notify.Event) error                  { return nil }
func (stub) Close() error                                                      { return nil }
func (stub) RecursiveWatch(string, notify.Event) error                         { return nil }
func (stub) RecursiveUnwatch(string) error                                     { return nil }
func (stub) RecursiveRewatch(string, string, notify.Event, notify.Event) error { return nil }

// The paths share prefixes of their names.
var comps = []string{"a", "ab", "b", "a b", "..a", "é"}

var layoutOnce sync.Once
var layoutBase string

// layout makes a tree of directories, two levels of all names and a third of some, and a file
// f in each.
func layout() string {
	layoutOnce.Do(func() {
		b := fmt.Sprintf("%s/t%d", os.Getenv("VH_SCRATCH"), os.Getpid())
		var mk func(p string, d int)
		mk = func(p string, d int) {
			if err := os.MkdirAll(p, 0o755); err != nil {
				core.Fatalf("%v", err)
			}
			if err := os.WriteFile(p+"/f", nil, 0o644); err != nil {
				core.Fatalf("%v", err)
			}
			n := len(comps)
			switch {
			case d == 0:
				return
			case d == 1:
				n = 2
			}
			for _, c := range comps[:n] {
				mk(p+"/"+c, d-1)
			}
		}
		mk(b, 3)
		b, err := filepath.EvalSymlinks(b)
		if err != nil {
			core.Fatalf("%v", err)
		}
		layoutBase = b
	})
	return layoutBase
}

func randPath(r *rand.Rand, d int) string {
	var p []string
	for n := r.IntN(d + 1); n > 0; n-- {
		k := len(comps)
		if len(p) == 2 {
			k = 2
		}
		if r.IntN(2) == 0 {
			k = 2
		}
		p = append(p, comps[r.IntN(k)])
	}
	return strings.Join(p, "/")
}

func isFileTok(p string) bool { return path.Base(p) == "f" }

func events(r *rand.Rand) uint32 {
	switch r.IntN(4) {
	case 0:
		return uint32(1+r.IntN(15)) & 15
	case 1:
		return 1 << r.IntN(16)
	case 2:
		return e2e.AllKinds
	}
	for {
		if e := uint32(r.IntN(e2e.AllKinds)) & uint32(r.IntN(e2e.AllKinds)); e != 0 {
			return e
		}
	}
}

func genRoute(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"nch": 1 + r.IntN(5)}}
	watches := 1 + r.IntN(6)
	if r.IntN(40) == 0 { // many channels
		c.Cfg["nch"] = []int{10, 20, 70, 140}[r.IntN(4)]
		watches = 2 * c.Cfg["nch"]
	}
	nch := c.Cfg["nch"]
	watch := func() {
		op := core.Op{K: "watch", C: r.IntN(nch), P: randPath(r, 3), R: r.IntN(2) == 0, E: events(r)}
		if r.IntN(6) == 0 {
			op.P, op.R = strings.TrimPrefix(op.P+"/f", "/"), false
		}
		c.Ops = append(c.Ops, op)
	}
	for i := watches; i > 0; i-- {
		watch()
	}
	for i := 20 + r.IntN(60); i > 0; i-- {
		switch x := r.IntN(30); {
		case x == 0:
			c.Ops = append(c.Ops, core.Op{K: "stop", C: r.IntN(nch)})
		case x < 3:
			watch()
		case x < 5:
			c.Ops = append(c.Ops, core.Op{K: "sync"})
		default:
			p := randPath(r, 3)
			switch r.IntN(8) {
			case 0:
				p += "/new"
			case 1, 2:
				p += "/f"
			case 3:
				p += "/x/y/z"
			case 4:
				if p != "" {
					p += "b" // a name that another one is a prefix of
				}
			case 5:
				p = "../" + p // outside
			}
			c.Ops = append(c.Ops, core.Op{K: "event", P: strings.TrimPrefix(p, "/"), N: r.IntN(16), R: r.IntN(3) == 0})
		}
	}
	return c
}

type regT struct {
	rec bool
	ev  uint32
}

type routeTree struct {
	name  string
	t     notify.VerifTree
	c     chan notify.EventInfo
	chans []chan notify.EventInfo
}

func runRoute(c core.Case) (res core.Result) {
	base := layout()
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	nch := max(1, c.Cfg["nch"])
	var trees []*routeTree
	for i := 0; i < 2; i++ {
		rt := &routeTree{c: make(chan notify.EventInfo)}
		for j := 0; j < nch; j++ {
			rt.chans = append(rt.chans, make(chan notify.EventInfo, 4096))
		}
		if i == 0 {
			rt.name, rt.t = "non-recursive tree", notify.VerifNonrecursiveTree(stub{}, rt.c)
		} else {
			rt.name, rt.t = "recursive tree", notify.VerifRecursiveTree(stub{}, rt.c)
		}
		trees = append(trees, rt)
		defer rt.t.Close()
	}
	regs := make([]map[string]*regT, nch)
	for i := range regs {
		regs[i] = map[string]*regT{}
	}
	want := make([]map[int]int, nch) // event number -> copies
	clearWant := func() {
		for i := range want {
			want[i] = map[int]int{}
		}
	}
	clearWant()
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Dirty = core.Violation, true
			res.Msg = fmt.Sprintf(format, v...)
		}
	}
	var sent []core.Op
	sync := func() bool {
		if err := core.Quiesce(); err != nil {
			res.Verdict, res.Msg = core.Hang, err.Error()
			return false
		}
		for _, rt := range trees {
			for ch := range rt.chans {
				got := map[int]int{}
				for len(rt.chans[ch]) > 0 {
					e := <-rt.chans[ch]
					n, ok := e.Sys().(int)
					if !ok || n >= len(sent) {
						fail("%s: channel %d got %v which was not sent", rt.name, ch, e)
						return false
					}
					if op := sent[n]; e.Path() != abs(base, op.P) || e.Event() != e2e.Kinds[op.N] {
						fail("%s: event %v arrived as %v", rt.name, op, e)
						return false
					}
					got[n]++
					res.Stats["delivered"]++
				}
				for n := range sent {
					if got[n] != want[ch][n] {
						fail("%s: channel %d got %s %q (dir %v) %d times, want %d (registrations %s)", rt.name, ch,
							e2e.KindNames[sent[n].N], sent[n].P, sent[n].R, got[n], want[ch][n], list(regs[ch], base))
						return false
					}
				}
			}
		}
		sent = sent[:0]
		clearWant()
		return true
	}
	for _, op := range c.Ops {
		p := abs(base, op.P)
		switch op.K {
		case "sync":
			sync()
		case "watch":
			if op.C < 0 || op.C >= nch || op.E&e2e.AllKinds == 0 || op.R && isFileTok(op.P) || strings.HasPrefix(op.P, "..") && !strings.HasPrefix(op.P, "..a") {
				continue
			}
			if !sync() {
				return
			}
			for _, rt := range trees {
				sp := p
				if op.R {
					sp += "/..."
				}
				if err := rt.t.Watch(sp, rt.chans[op.C], e2e.Args(op)...); err != nil {
					fail("%s: Watch(%q): %v", rt.name, sp, err)
					return
				}
			}
			g := regs[op.C][p]
			if g == nil {
				g = &regT{}
				regs[op.C][p] = g
			}
			g.rec = g.rec || op.R
			g.ev |= op.E & e2e.AllKinds
			res.Stats["watch"]++
		case "stop":
			if op.C < 0 || op.C >= nch {
				continue
			}
			if !sync() {
				return
			}
			for _, rt := range trees {
				rt.t.Stop(rt.chans[op.C])
			}
			regs[op.C] = map[string]*regT{}
		case "event":
			if op.N < 0 || op.N >= 16 {
				continue
			}
			n := len(sent)
			sent = append(sent, op)
			for ch := range regs {
				for q, g := range regs[ch] {
					if g.ev&(1<<op.N) != 0 && (p == q || path.Dir(p) == q || g.rec && strings.HasPrefix(p, q+"/")) {
						want[ch][n]++
					}
				}
			}
			for _, rt := range trees {
				rt.c <- &notify.VerifEvent{E: e2e.Kinds[op.N], P: p, S: n, D: op.R && !isFileTok(op.P)}
			}
			res.Stats["sent"]++
		}
		if res.Verdict != core.OK {
			return
		}
	}
	sync()
	res.Nontrivial = res.Stats["delivered"] > 3 && res.Stats["watch"] > 1
	return
}

func abs(base, p string) string { return path.Clean(base + "/" + p) }

func list(m map[string]*regT, base string) string {
	var s []string
	for p, g := range m {
		s = append(s, fmt.Sprintf("%q rec=%v %#x", strings.TrimPrefix(p, base), g.rec, g.ev))
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}
