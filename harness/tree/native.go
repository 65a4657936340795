package tree

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"vh/core"
	"vh/e2e"

	"github.com/rjeczalik/notify"
)

// native is a strict natively recursive watcher: it holds what the platform would hold and
// records the first use which its contract (the documentation of watcher and
// recursiveWatcher in watcher.go, as implemented by fsevents and readdcw) does not allow.
type native struct {
	base    string
	watches map[string]regT
	wrong   string
	calls   []string
	fail    int // number of the (re)watch call to fail from now, 0 for none
	failed  bool
}

var errNative = errors.New("native watcher refuses")

func (n *native) bad(format string, v ...interface{}) {
	if n.wrong == "" {
		n.wrong = fmt.Sprintf(format, v...)
	}
}

func (n *native) call(name string, p string, v ...interface{}) {
	n.calls = append(n.calls, strings.TrimSpace(fmt.Sprintln(append([]interface{}{name, n.rel(p)}, v...)...)))
}

func (n *native) rel(p string) string { return strings.TrimPrefix(p, n.base) }

func (n *native) refuse() bool {
	if n.fail > 0 {
		if n.fail--; n.fail == 0 {
			n.failed = true
			return true
		}
	}
	return false
}

func (n *native) set(p string, e notify.Event) {
	switch {
	case e == 0:
		n.bad("empty event set passed for %q", n.rel(p))
	case e&^notify.Event(toEv(e2e.AllKinds)) != 0:
		n.bad("event set %#x with bits nobody asked for passed for %q", uint32(e), n.rel(p))
	}
}

func (n *native) watch(p string, e notify.Event, rec bool) error {
	n.set(p, e)
	if _, ok := n.watches[p]; ok {
		n.bad("watch of %q which is already watched", n.rel(p))
	}
	if n.refuse() {
		return errNative
	}
	n.watches[p] = regT{rec, uint32(e)}
	return nil
}

func (n *native) unwatch(p string) error {
	if _, ok := n.watches[p]; !ok {
		n.bad("unwatch of %q which is not watched", n.rel(p))
	}
	delete(n.watches, p)
	return nil
}

func (n *native) rewatch(p, newp string, old, e notify.Event, rec bool) error {
	n.set(newp, e)
	g, ok := n.watches[p]
	if !ok {
		n.bad("rewatch of %q which is not watched", n.rel(p))
	} else if g.ev != uint32(old) {
		n.bad("rewatch of %q with old event set %#x, it has %#x", n.rel(p), uint32(old), g.ev)
	}
	if p != newp {
		if _, ok := n.watches[newp]; ok {
			n.bad("rewatch moves %q to %q which is already watched", n.rel(p), n.rel(newp))
		}
	}
	if n.refuse() {
		return errNative
	}
	delete(n.watches, p)
	n.watches[newp] = regT{rec, uint32(e)}
	return nil
}

func (n *native) Watch(p string, e notify.Event) error {
	n.call("Watch", p, e)
	return n.watch(p, e, false)
}
func (n *native) Unwatch(p string) error { n.call("Unwatch", p); return n.unwatch(p) }
func (n *native) Rewatch(p string, old, e notify.Event) error {
	n.call("Rewatch", p, old, e)
	return n.rewatch(p, p, old, e, false)
}
func (n *native) Close() error { return nil }
func (n *native) RecursiveWatch(p string, e notify.Event) error {
	n.call("RecursiveWatch", p, e)
	return n.watch(p, e, true)
}
func (n *native) RecursiveUnwatch(p string) error {
	n.call("RecursiveUnwatch", p)
	return n.unwatch(p)
}
func (n *native) RecursiveRewatch(p, newp string, old, e notify.Event) error {
	n.call("RecursiveRewatch", p, n.rel(newp), old, e)
	return n.rewatch(p, newp, old, e, true)
}

func genNative(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"nch": 1 + r.IntN(4)}}
	depth := 1 + r.IntN(3)
	faults := r.IntN(2) == 0
	n := 2 + r.IntN(24)
	if r.IntN(40) == 0 { // many channels
		c.Cfg["nch"] = []int{10, 20, 70}[r.IntN(3)]
		n += 2 * c.Cfg["nch"]
	}
	for i := n; i > 0; i-- {
		op := core.Op{K: "watch", C: r.IntN(c.Cfg["nch"]), P: randPath(r, depth), R: r.IntN(5) < 2, E: events(r)}
		if r.IntN(2) == 0 {
			op.E = 1 << r.IntN(3)
		}
		switch x := r.IntN(24); {
		case x < 5:
			op = core.Op{K: "stop", C: op.C}
		case x < 8:
			op.P, op.R = strings.TrimPrefix(op.P+"/f", "/"), false
		}
		if op.K == "watch" && faults && r.IntN(6) == 0 {
			op.N = 1 + r.IntN(2)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runNative(c core.Case) (res core.Result) {
	base := layout()
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	nch := max(1, c.Cfg["nch"])
	w := &native{base: base, watches: map[string]regT{}}
	evc := make(chan notify.EventInfo)
	t := notify.VerifRecursiveTree(w, evc)
	defer t.Close()
	chans := make([]chan notify.EventInfo, nch)
	regs := make([]map[string]*regT, nch)
	for i := range chans {
		chans[i] = make(chan notify.EventInfo, 1)
		regs[i] = map[string]*regT{}
	}
	fail := func(op core.Op, format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict = core.Violation
			res.Msg = fmt.Sprintf(format, v...) + fmt.Sprintf(" (after %s; native calls then: %s; native watches: %s)",
				opStr(op), strings.Join(w.calls, ", "), listw(w.watches, base))
		}
	}
	check := func(op core.Op) {
		if w.wrong != "" {
			fail(op, "%s", w.wrong)
			return
		}
		for ch := range regs {
			for p, g := range regs[ch] {
				ok := false
				for q, n := range w.watches {
					if g.ev&^n.ev == 0 && (p == q && (n.rec || !g.rec) || n.rec && strings.HasPrefix(p, q+"/")) {
						ok = true
					}
				}
				if !ok {
					fail(op, "registration of channel %d for %q (recursive %v, events %#x) is not covered", ch, strings.TrimPrefix(p, base), g.rec, g.ev)
					return
				}
			}
		}
		for p := range w.watches {
			for q := range w.watches {
				if strings.HasPrefix(p, q+"/") {
					fail(op, "%q is watched beneath %q", w.rel(p), w.rel(q))
					return
				}
			}
		}
	}
	defer func() {
		if e := recover(); e != nil {
			res.Verdict, res.Dirty = core.Violation, true
			res.Msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	for _, op := range c.Ops {
		if op.C < 0 || op.C >= nch {
			continue
		}
		w.calls = nil
		switch op.K {
		case "watch":
			if op.E&e2e.AllKinds == 0 || op.R && isFileTok(op.P) {
				continue
			}
			p := abs(base, op.P)
			sp := p
			if op.R {
				sp += "/..."
			}
			w.fail, w.failed = op.N, false
			err := t.Watch(sp, chans[op.C], e2e.Args(op)...)
			w.fail = 0
			switch {
			case w.failed:
				res.Stats["refused"]++
				if err == nil {
					fail(op, "Watch(%q) succeeded though the native watcher refused", sp)
				}
			case err != nil:
				fail(op, "Watch(%q): %v", sp, err)
			default:
				g := regs[op.C][p]
				if g == nil {
					g = &regT{}
					regs[op.C][p] = g
				}
				g.rec = g.rec || op.R
				g.ev |= toEv(op.E)
				res.Stats["watch"]++
			}
		case "stop":
			if len(regs[op.C]) != 0 {
				res.Stats["stop"]++
			}
			t.Stop(chans[op.C])
			regs[op.C] = map[string]*regT{}
		}
		check(op)
		if res.Verdict != core.OK {
			return
		}
	}
	for i, ch := range chans {
		w.calls = nil
		t.Stop(ch)
		regs[i] = map[string]*regT{}
		check(core.Op{K: "stop", C: i})
	}
	if len(w.watches) != 0 {
		fail(core.Op{K: "stop", C: nch - 1}, "native watches left without any registration")
	}
	res.Nontrivial = res.Stats["watch"] > 3
	return
}

// toEv gives the notify event set of a set of kinds.
func toEv(kinds uint32) (e uint32) {
	for _, k := range e2e.Events(kinds & e2e.AllKinds) {
		e |= uint32(k)
	}
	return
}

func opStr(op core.Op) string {
	if op.K == "stop" {
		return fmt.Sprintf("Stop of channel %d", op.C)
	}
	return fmt.Sprintf("Watch of %q by channel %d, recursive %v, events %#x", op.P, op.C, op.R, toEv(op.E))
}

func listw(m map[string]regT, base string) string {
	var s []string
	for p, g := range m {
		s = append(s, fmt.Sprintf("%q rec=%v %#x", strings.TrimPrefix(p, base), g.rec, g.ev))
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}
