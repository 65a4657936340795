package tree

import (
	"fmt"
	"math/rand/v2"
	"path"
	"strings"
	"sync/atomic"
	"time"

	"vh/core"
	"vh/e2e"

	"github.com/rjeczalik/notify"
)

// C04, C08, C11: Watch and Stop while the processing of an event is held at any point.

func genGate(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"nch": 1 + r.IntN(4), "tree": r.IntN(2)}}
	nch := c.Cfg["nch"]
	if prop == "C08" {
		// Some receivers have little room, or none.
		for i := 0; i < nch; i++ {
			if r.IntN(2) == 0 {
				c.Cfg[fmt.Sprint("cap", i)] = 1 + r.IntN(3) // capacity and 1
			}
		}
	}
	dir := func() string { return randPath(r, 2) }
	event := func(k string) core.Op {
		p := dir()
		switch r.IntN(4) {
		case 0:
			p += "/f"
		case 1:
			p += "/new"
		}
		return core.Op{K: k, P: strings.TrimPrefix(p, "/"), N: r.IntN(4), R: r.IntN(2) == 0, C: 1 + r.IntN(10)}
	}
	watch := func(k string) core.Op {
		return core.Op{K: k, C: r.IntN(nch), P: dir(), R: r.IntN(2) == 0, E: events(r) | 1<<r.IntN(4)}
	}
	add := func(op core.Op) { c.Ops = append(c.Ops, op) }
	for i := 1 + r.IntN(6); i > 0; i-- {
		add(watch("watch"))
	}
	for i := 2 + r.IntN(6); i > 0; i-- {
		for j := r.IntN(3); j > 0; j-- {
			add(watch("watch"))
		}
		for j := r.IntN(3); j > 0; j-- {
			add(event("event"))
		}
		add(event("gate"))
		for j := 1 + r.IntN(4); j > 0; j-- {
			switch r.IntN(6) {
			case 0, 1, 2:
				add(core.Op{K: "stop", C: r.IntN(nch)})
			case 3:
				add(watch("watch"))
			case 4:
				add(watch("rewatch")) // Stop and Watch
			case 5:
				add(event("event"))
			}
		}
		add(core.Op{K: "open"})
	}
	return c
}

type gateOp struct {
	ch   int
	done chan struct{}
	err  error
	// What the channel held when its Stop returned.
	stopped bool
	n       int
	hasAny  bool // registered again
	settled bool
}

type gateRun struct {
	res    core.Result
	base   string
	name   string
	t      notify.VerifTree
	c      chan notify.EventInfo
	chans  []chan notify.EventInfo
	regs   []map[string]regT // as of the calls that returned
	next   []map[string]regT // and those under way
	ops    map[int]*gateOp
	sent   []core.Op
	lo, hi []map[int]int
	gated  bool
	gate   chan struct{}
}

func (g *gateRun) fail(format string, v ...interface{}) {
	if g.res.Verdict == core.OK {
		g.res.Verdict, g.res.Dirty = core.Violation, true
		g.res.Msg = g.name + ": " + fmt.Sprintf(format, v...)
	}
}

func copies(m map[string]regT, base string, op core.Op) (n int) {
	p := abs(base, op.P)
	for q, g := range m {
		if g.ev&(1<<op.N) != 0 && (p == q || path.Dir(p) == q || g.rec && strings.HasPrefix(p, q+"/")) {
			n++
		}
	}
	return
}

// span notes how many copies of the events sent so far a channel may still get or have got.
func (g *gateRun) span(n, ch int) {
	for _, m := range []map[string]regT{g.regs[ch], g.next[ch]} {
		k := copies(m, g.base, g.sent[n])
		g.hi[ch][n] = max(g.hi[ch][n], k)
		if o, ok := g.lo[ch][n]; !ok || k < o {
			g.lo[ch][n] = k
		}
	}
	if o := g.ops[ch]; o != nil && o.stopped {
		g.lo[ch][n] = 0
	}
}

func (g *gateRun) send(op core.Op, hook func()) {
	n := len(g.sent)
	g.sent = append(g.sent, op)
	for ch := range g.chans {
		g.span(n, ch)
	}
	g.c <- &notify.VerifEvent{E: e2e.Kinds[op.N], P: abs(g.base, op.P), S: n, D: op.R && !isFileTok(op.P), Hook: hook}
	g.res.Stats["sent"]++
}

// open lets everything go on, waits for it, and checks what came.
func (g *gateRun) open() bool {
	if g.gated {
		close(g.gate)
		g.gated = false
	}
	for ch, o := range g.ops {
		select {
		case <-o.done:
		case <-time.After(core.QuiesceTimeout):
			g.res.Verdict, g.res.Dirty = core.Hang, true
			g.res.Msg = fmt.Sprintf("%s: a call for channel %d does not return:\n%s", g.name, ch, core.AllStacks())
			return false
		}
	}
	if err := core.Quiesce(); err != nil {
		g.res.Verdict, g.res.Msg = core.Hang, err.Error()
		return false
	}
	for ch, o := range g.ops {
		if o.err != nil {
			g.fail("Watch by channel %d: %v", ch, o.err)
		}
		if o.stopped && !o.hasAny && len(g.chans[ch]) != o.n {
			g.fail("channel %d held %d events when Stop returned, then %d; the last ones: %v", ch, o.n, len(g.chans[ch]), drainFrom(g.chans[ch], o.n))
		}
		g.regs[ch] = g.next[ch]
	}
	g.ops = map[int]*gateOp{}
	for ch := range g.chans {
		got := map[int]int{}
		total, room := 0, cap(g.chans[ch])
		for len(g.chans[ch]) > 0 {
			e := <-g.chans[ch]
			n, ok := e.Sys().(int)
			if !ok || n >= len(g.sent) {
				g.fail("channel %d got %v which was not sent", ch, e)
				return false
			}
			got[n]++
			total++
			g.res.Stats["delivered"]++
		}
		least := 0
		for n, op := range g.sent {
			lo, hi := g.lo[ch][n], g.hi[ch][n]
			least += lo
			if room < 4096 { // as many as there is room for
				lo = 0
			}
			if got[n] < lo || got[n] > hi {
				g.fail("channel %d got %s %q (dir %v) %d times, not %d to %d (registrations %s)", ch,
					e2e.KindNames[op.N], op.P, op.R, got[n], g.lo[ch][n], g.hi[ch][n], listT(g.regs[ch], g.base))
				return false
			}
		}
		if total < min(least, room) {
			g.fail("channel %d with room for %d got %d events of at least %d", ch, room, total, least)
		}
	}
	g.sent = nil
	for ch := range g.chans {
		g.lo[ch], g.hi[ch] = map[int]int{}, map[int]int{}
	}
	return g.res.Verdict == core.OK
}

func drainFrom(c chan notify.EventInfo, n int) (l []string) {
	for i := 0; len(c) > 0; i++ {
		if e := <-c; i >= n {
			l = append(l, fmt.Sprint(e.Event(), " ", e.Path()))
		}
	}
	return
}

func listT(m map[string]regT, base string) string {
	l := map[string]*regT{}
	for p, r := range m {
		r := r
		l[p] = &r
	}
	return list(l, base)
}

func runGate(c core.Case) core.Result {
	g := &gateRun{res: core.Result{Verdict: core.OK, Stats: map[string]int{}}, base: layout(), c: make(chan notify.EventInfo, 1000), ops: map[int]*gateOp{}}
	nch := max(1, c.Cfg["nch"])
	for i := 0; i < nch; i++ {
		n := 4096
		if k := c.Cfg[fmt.Sprint("cap", i)]; k > 0 {
			n = k - 1
		}
		g.chans = append(g.chans, make(chan notify.EventInfo, n))
		g.regs = append(g.regs, map[string]regT{})
		g.next = append(g.next, map[string]regT{})
		g.lo = append(g.lo, map[int]int{})
		g.hi = append(g.hi, map[int]int{})
	}
	if c.Cfg["tree"] == 0 {
		g.name, g.t = "non-recursive tree", notify.VerifNonrecursiveTree(stub{}, g.c)
	} else {
		g.name, g.t = "recursive tree", notify.VerifRecursiveTree(stub{}, g.c)
	}
	for _, op := range c.Ops {
		if g.res.Verdict != core.OK {
			return g.res
		}
		switch op.K {
		case "gate":
			if op.N < 0 || op.N >= 16 || op.C < 1 || !g.open() {
				continue
			}
			var left atomic.Int64
			left.Store(int64(op.C))
			gate := make(chan struct{})
			g.gate, g.gated = gate, true
			reached := make(chan struct{})
			g.send(op, func() {
				if left.Add(-1) == 0 {
					close(reached)
					<-gate
				}
			})
			select {
			case <-reached:
				g.res.Stats["held"]++
			case <-time.After(300 * time.Microsecond): // it has fewer steps
			}
		case "open":
			g.open()
		case "event":
			if op.N < 0 || op.N >= 16 {
				continue
			}
			g.send(op, nil)
		case "watch", "stop", "rewatch":
			if op.C < 0 || op.C >= nch || op.K != "stop" && op.E&e2e.AllKinds == 0 {
				continue
			}
			if !g.gated && !g.open() || g.ops[op.C] != nil {
				continue
			}
			ch, o := op.C, &gateOp{ch: op.C, done: make(chan struct{})}
			m := map[string]regT{}
			if op.K == "watch" {
				for p, r := range g.regs[ch] {
					m[p] = r
				}
			}
			p := abs(g.base, op.P)
			if op.K != "stop" {
				r := m[p]
				r.ev |= op.E & e2e.AllKinds
				r.rec = r.rec || op.R
				m[p] = r
			}
			g.next[ch] = m
			o.stopped, o.hasAny = op.K != "watch", op.K == "rewatch"
			g.ops[ch] = o
			for n := range g.sent {
				g.span(n, ch)
			}
			go func() {
				defer close(o.done)
				if op.K != "watch" {
					g.t.Stop(g.chans[ch])
					o.n = len(g.chans[ch])
				}
				if op.K != "stop" {
					sp := p
					if op.R {
						sp += "/..."
					}
					o.err = g.t.Watch(sp, g.chans[ch], e2e.Args(op)...)
				}
			}()
			g.res.Stats[op.K]++
			select {
			case <-o.done:
				// What is sent from now is about the new registrations only.
				g.regs[ch] = m
				if g.gated {
					g.res.Stats["returned"]++
				}
			case <-time.After(time.Millisecond):
				g.res.Stats["waiting"]++
			}
			if !g.gated {
				g.open()
			}
		}
	}
	if g.open() {
		g.t.Close()
	}
	g.res.Nontrivial = g.res.Stats["held"] > 0 && g.res.Stats["delivered"] > 0 && g.res.Stats["returned"]+g.res.Stats["waiting"] > 0
	return g.res
}
