package e2e

// C08: receivers that are full, unbuffered, or never read.

import (
	"fmt"
	"math/rand/v2"
	"time"

	"vh/core"

	"github.com/rjeczalik/notify"
)

// A case has groups of channels with the same registrations: channel 0 of a group is roomy
// and tells how many events there were; the others have Cfg capacities.

func genSlow(prop, tier string, r *rand.Rand) core.Case {
	g := &gen{r: r, fs: NewFS(""), p: profile{oddPct: 5, deep: 4, evmode: r.IntN(3)}}
	g.do(core.Op{K: "mkdir", P: "r"})
	for i := 1 + r.IntN(5); i > 0; i-- {
		if x := g.newPath(); x != "" {
			g.do(core.Op{K: "mkdir", P: x})
		}
	}
	for i := 1 + r.IntN(4); i > 0; i-- {
		if x := g.newPath(); x != "" {
			g.do(core.Op{K: "create", P: x, N: 1})
		}
	}
	cfg := map[string]int{"groups": 1 + r.IntN(3)}
	caps := []int{0, 1, 2, 3, 5, 8, 17, 64}
	for i := 0; i < cfg["groups"]; i++ {
		n := 1 + r.IntN(4)
		cfg[fmt.Sprintf("n%d", i)] = n
		for j := 0; j < n; j++ {
			cfg[fmt.Sprintf("cap%d.%d", i, j)] = caps[r.IntN(len(caps))]
		}
	}
	reg := func(grp int) {
		o := g.pick(func(o *obj) bool { return o.dir && depth(o) >= 1 })
		if o != nil {
			g.ops = append(g.ops, core.Op{K: "watch", C: grp, P: g.tok(o), R: r.IntN(2) == 0, E: g.events() | uint32(1<<r.IntN(4))})
		}
	}
	for i := 0; i < cfg["groups"]; i++ {
		for n := 1 + r.IntN(2); n > 0; n-- {
			reg(i)
		}
	}
	for i := 10 + r.IntN(60); i > 0; i-- {
		switch r.IntN(30) {
		case 0, 1, 2:
			g.ops = append(g.ops, core.Op{K: "sync"})
		case 3, 4: // drain some channel
			grp := r.IntN(cfg["groups"])
			g.ops = append(g.ops, core.Op{K: "drain", C: grp, N: r.IntN(cfg[fmt.Sprintf("n%d", grp)])})
		case 5:
			reg(r.IntN(cfg["groups"]))
		case 6:
			g.ops = append(g.ops, core.Op{K: "stop", C: r.IntN(cfg["groups"]), N: r.IntN(5) - 1})
		case 7, 8:
			g.ops = append(g.ops, core.Op{K: "park", C: r.IntN(cfg["groups"])})
		case 9:
			if f := g.pick(isFile); f != nil { // many events
				g.ops = append(g.ops, core.Op{K: "storm", P: g.tok(f), N: 5 + r.IntN(200)})
			}
		default:
			g.fileOp()
		}
	}
	g.ops = append(g.ops, core.Op{K: "sync"})
	deepBase(r, cfg)
	return core.Case{Ops: g.ops, Cfg: cfg}
}

type slowChan struct {
	ch      chan notify.EventInfo
	at      int  // events of its group when it had been drained last
	stopped bool // on its own: it must not change any more
	frozen  int
}

func runSlow(c core.Case) (res core.Result) {
	res.Verdict = core.OK
	groups := max(1, c.Cfg["groups"])
	r := newRun(groups, c.Cfg) // channel 0 of each group
	defer r.cleanup()
	res.Stats = r.stats
	total := make([]int, groups)
	small := make([][]*slowChan, groups)
	type regn struct {
		p   string
		rec bool
		e   uint32
	}
	for i := range small {
		for j := 0; j < c.Cfg[fmt.Sprintf("n%d", i)]; j++ {
			small[i] = append(small[i], &slowChan{ch: make(chan notify.EventInfo, c.Cfg[fmt.Sprintf("cap%d.%d", i, j)])})
		}
	}
	regs := make([]int, groups)
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Msg, res.Dirty = core.Violation, fmt.Sprintf("after op %d: ", r.opNo)+fmt.Sprintf(format, v...), true
		}
	}
	dropped := 0
	sync := func() bool {
		if err := core.Quiesce(); err != nil {
			res.Verdict, res.Msg = core.Hang, err.Error()
			return false
		}
		r.must, r.notes, r.count = nil, nil, nil
		for i := range small {
			n := len(r.drain(i))
			total[i] += n
			r.stats["event"] += n
			for j, s := range small[i] {
				want := min(cap(s.ch), total[i]-s.at)
				if s.stopped {
					want = s.frozen
				} else if total[i]-s.at > cap(s.ch) {
					dropped++
				}
				if len(s.ch) != want {
					fail("channel %d.%d of capacity %d holds %d events; %d were sent to a roomy one with the same registrations", i, j, cap(s.ch), len(s.ch), total[i]-s.at)
				}
			}
		}
		return res.Verdict == core.OK
	}
	for i, op := range c.Ops {
		r.opNo = i
		switch op.K {
		case "watch":
			o, _, _ := r.fs.lookup(op.P)
			if o == nil || !o.dir || op.C < 0 || op.C >= groups || op.E&AllKinds == 0 {
				continue
			}
			// The channels of a group must be registered at the same time.
			if !sync() {
				break
			}
			chs := []chan<- notify.EventInfo{r.chans[op.C]}
			for _, s := range small[op.C] {
				if !s.stopped {
					chs = append(chs, s.ch)
				}
			}
			for _, ch := range chs {
				if err := notify.Watch(spell(o.path(), op.R), ch, Args(op)...); err != nil {
					fail("Watch(%q): %v", op.P, err)
				}
			}
			regs[op.C]++
			r.stats["watch"]++
			// Setting watches reads directories, which the first channel may notice.
			if err := core.Quiesce(); err != nil {
				res.Verdict, res.Msg = core.Hang, err.Error()
				break
			}
			n := len(r.drain(op.C))
			_ = n
			for _, s := range small[op.C] {
				if !s.stopped {
					drainAll(s.ch)
					s.at = total[op.C]
				}
			}
			for k := range small {
				if k != op.C {
					total[k] += len(r.drain(k))
				}
			}
		case "stop":
			if op.C < 0 || op.C >= groups {
				continue
			}
			if !sync() {
				break
			}
			if op.N < 0 {
				notify.Stop(r.chans[op.C])
				for _, s := range small[op.C] {
					if !s.stopped {
						notify.Stop(s.ch)
					}
				}
				regs[op.C] = 0
			} else if op.N < len(small[op.C]) {
				s := small[op.C][op.N]
				if !s.stopped {
					notify.Stop(s.ch)
					s.stopped, s.frozen = true, len(s.ch)
				}
			}
			r.stats["stop"]++
		case "drain":
			if op.C < 0 || op.C >= groups || op.N < 0 || op.N >= len(small[op.C]) || !sync() {
				continue
			}
			s := small[op.C][op.N]
			drainAll(s.ch)
			s.at = total[op.C]
			s.frozen = 0
			r.stats["drained"]++
		case "storm":
			for k := 0; k < op.N; k++ {
				if !r.apply(core.Op{K: "write", P: op.P, N: 1}) {
					break
				}
			}
		case "park":
			// A receiver that waits on an unbuffered channel gets the next event.
			if op.C < 0 || op.C >= groups || regs[op.C] == 0 || !sync() {
				continue
			}
			if n, err := park(r, op.C); err != nil {
				res.Verdict, res.Msg = core.Hang, err.Error()
			} else if n == 0 {
				fail("a receiver waiting on an unbuffered channel got nothing")
			}
			r.stats["parked"]++
			r.must, r.notes, r.count = nil, nil, nil
		case "sync":
			sync()
		default:
			r.step(op)
			if r.fail != "" {
				fail("%s", r.fail)
			}
		}
		if res.Verdict != core.OK {
			break
		}
	}
	for i := range small {
		notify.Stop(r.chans[i])
		for _, s := range small[i] {
			notify.Stop(s.ch)
		}
	}
	if res.Verdict == core.OK {
		if err := core.Quiesce(); err != nil {
			res.Verdict, res.Msg = core.Hang, err.Error()
		}
	}
	res.Nontrivial = dropped > 0 && r.stats["event"] > 0
	r.stats["dropped"] = dropped
	return
}

func drainAll(ch chan notify.EventInfo) (n int) {
	for {
		select {
		case <-ch:
			n++
		default:
			return
		}
	}
}

// park registers an unbuffered channel with a waiting receiver on a directory of its own,
// next to full and unread ones, and causes one event.
func park(r *run, grp int) (int, error) {
	d := "r/zpark"
	if !r.apply(core.Op{K: "mkdir", P: d}) {
		return 1, nil
	}
	if err := core.Quiesce(); err != nil {
		return 0, err
	}
	ch, full := make(chan notify.EventInfo), make(chan notify.EventInfo)
	got, started := make(chan int, 1), make(chan struct{})
	quit := make(chan struct{})
	go func() {
		close(started)
		select {
		case <-ch:
			got <- 1
		case <-quit:
			got <- 0
		}
	}()
	<-started
	must(notify.Watch(r.base+"/"+d, full, notify.Create))
	must(notify.Watch(r.base+"/"+d, ch, notify.Create))
	// The receiver runs nothing but the select; give it time to get there.
	for i := 0; i < 200; i++ {
		time.Sleep(50 * time.Microsecond)
		if core.Parked("e2e.park.func1") {
			break
		}
	}
	r.apply(core.Op{K: "create", P: d + "/x"})
	if err := core.Quiesce(); err != nil {
		return 0, err
	}
	close(quit)
	n := <-got
	notify.Stop(ch)
	notify.Stop(full)
	r.apply(core.Op{K: "unlink", P: d + "/x"})
	r.apply(core.Op{K: "rmdir", P: d})
	if err := core.Quiesce(); err != nil {
		return 0, err
	}
	return n, nil
}
