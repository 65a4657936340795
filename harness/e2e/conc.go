package e2e

// C11: goroutines call Watch and Stop while the filesystem changes. Run with -race.

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"vh/core"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

// Operations with S == "g" are concurrent; N is their goroutine. Those with S == "fs" change
// the filesystem and may fail. Everything else happens first, in order.
func genConc(prop, tier string, r *rand.Rand) core.Case {
	nch, ng, nfs := 2+r.IntN(6), 2+r.IntN(4), 1+r.IntN(2)
	volWatch := r.IntN(2)
	c := core.Case{Cfg: map[string]int{"nch": nch, "vol": volWatch, "small": r.IntN(2)}}
	deepBase(r, c.Cfg)
	g := &gen{r: r, fs: NewFS(""), p: profile{oddPct: 10, deep: 4, evmode: r.IntN(3)}}
	for i := 1 + r.IntN(5); i > 0; i-- {
		if x := g.newPath(); x != "" {
			g.do(core.Op{K: "mkdir", P: x})
		}
	}
	for i := r.IntN(4); i > 0; i-- {
		if x := g.newPath(); x != "" {
			g.do(core.Op{K: "create", P: x, N: 1})
		}
	}
	// Directories with changing content.
	var vols []string
	for i := 0; i < 2; i++ {
		d := g.pick(isDir)
		v := fmt.Sprintf("v%d", i)
		if t := g.tok(d); t != "" && t != "." {
			v = t + "/" + v
		}
		g.do(core.Op{K: "mkdir", P: v})
		vols = append(vols, v)
	}
	c.Ops = append(c.Ops, g.ops...)
	vpath := func() string {
		p := vols[r.IntN(2)]
		for n := 1 + r.IntN(3); n > 0; n-- {
			p += "/" + string("xyz"[r.IntN(3)])
		}
		return p
	}
	target := func() (string, bool) {
		if volWatch == 1 && r.IntN(3) == 0 {
			return vpath(), r.IntN(2) == 0
		}
		if r.IntN(3) == 0 {
			return vols[r.IntN(2)], r.IntN(3) > 0
		}
		o := g.pick(func(o *obj) bool {
			return !o.link && (o.dir || r.IntN(3) == 0) && (o.dir || !strings.HasSuffix(o.name, "..."))
		})
		if o == nil {
			return vols[0], true
		}
		return g.tok(o), o.dir && r.IntN(2) == 0
	}
	for i := r.IntN(4); i > 0; i-- {
		p, rec := target()
		c.Ops = append(c.Ops, core.Op{K: "watch", P: p, R: rec, C: r.IntN(nch), E: g.events()})
	}
	dirs := []string{}
	g.fs.root.walk(func(o *obj) {
		if o.dir {
			dirs = append(dirs, g.tok(o))
		}
	})
	var lists [][]core.Op
	for k := 0; k < ng; k++ {
		var l []core.Op
		for n := 3 + r.IntN(12); n > 0; n-- {
			ch := r.IntN(nch)
			if r.IntN(3) > 0 {
				ch = k % nch
			}
			op := core.Op{K: "watch", S: "g", N: k, C: ch, E: g.events()}
			op.P, op.R = target()
			switch r.IntN(6) {
			case 0, 1:
				op = core.Op{K: "stop", S: "g", N: k, C: ch}
			case 2:
				if r.IntN(2) == 0 {
					op = core.Op{K: "stopclose", S: "g", N: k, C: ch}
				} else {
					op = core.Op{K: "yield", S: "g", N: k, E: uint32(r.IntN(200))}
				}
			}
			l = append(l, op)
		}
		lists = append(lists, l)
	}
	uniq := 0
	for k := 0; k < nfs; k++ {
		var l []core.Op
		for n := 10 + r.IntN(40); n > 0; n-- {
			op := core.Op{S: "fs", N: ng + k}
			switch r.IntN(12) {
			case 0, 1, 2:
				uniq++
				op.K, op.P = "create", strings.TrimPrefix(dirs[r.IntN(len(dirs))]+fmt.Sprintf("/u%d", uniq), "/")
				l = append(l, op)
				if r.IntN(2) == 0 {
					op.K = "unlink"
				} else {
					continue
				}
			case 3, 4, 5:
				op.K, op.P = "mkdir", vpath()
			case 6:
				op.K, op.P = "mkdirall", vpath()
			case 7:
				op.K, op.P = "removeall", vpath()
			case 8, 9:
				op.K, op.P, op.Q = "rename", vpath(), vpath()
			case 10:
				op.K, op.P = "create", vpath()
			default:
				op.K, op.E = "yield", uint32(r.IntN(300))
			}
			l = append(l, op)
		}
		lists = append(lists, l)
	}
	for _, l := range lists {
		c.Ops = append(c.Ops, l...)
	}
	return c
}

type outcome struct {
	op  core.Op
	err error
}

// runConc repeats a case that failed because something did not arrive: while the kernel
// replaces the mask of a watch, it may lose a notification (the mask is zero for a moment and
// read without the lock). What the library loses, it loses again.
func runConc(c core.Case) core.Result {
	res, missed := concOnce(c)
	if res.Verdict != core.Violation || !missed {
		return res
	}
	again := 0
	for i := 0; i < 20; i++ {
		x, m := concOnce(c)
		if x.Verdict != core.OK && !m {
			return x
		}
		if x.Verdict != core.OK {
			again++
		}
	}
	if again >= 4 {
		return res
	}
	stats := res.Stats
	stats["lost by the kernel"]++
	return core.Result{Verdict: core.OK, Stats: stats, Dirty: true}
}

func concOnce(c core.Case) (res core.Result, missed bool) {
	res = core.Result{Verdict: core.OK}
	nch := max(1, c.Cfg["nch"])
	r := newRun(nch, c.Cfg)
	defer r.cleanup()
	res.Stats = r.stats
	defer func() { missed = r.missed && res.Verdict == core.Violation }()
	hang := func(err error) (core.Result, bool) {
		res.Verdict, res.Msg, res.Dirty = core.Hang, err.Error(), true
		return res, false
	}
	var first []core.Op
	lists := map[int][]core.Op{}
	user := map[int]map[int]bool{}
	stops, mixed := map[int]bool{}, map[int]bool{}
	for _, op := range c.Ops {
		if op.S == "" {
			first = append(first, op)
			continue
		}
		lists[op.N] = append(lists[op.N], op)
		if op.C < 0 || op.C >= nch || op.S != "g" {
			continue
		}
		if op.K == "watch" || op.K == "stop" || op.K == "stopclose" {
			if user[op.C] == nil {
				user[op.C] = map[int]bool{}
			}
			user[op.C][op.N] = true
			stops[op.C] = stops[op.C] || op.K != "watch"
		}
	}
	for ch := range user {
		mixed[ch] = len(user[ch]) > 1 && stops[ch]
		if mixed[ch] && c.Cfg["small"] == 1 {
			r.chans[ch] = make(chan notify.EventInfo, ch%2)
		}
	}
	defer func() {
		for _, ch := range r.chans {
			notify.Stop(ch)
		}
	}()
	var anchors []core.Op
	for _, op := range first {
		if ok, err := r.step(op); err != nil {
			return hang(err)
		} else if ok && op.K == "watch" {
			anchors = append(anchors, op)
		}
		if r.fail != "" {
			res.Verdict, res.Msg, res.Dirty = core.Violation, r.fail, true
			return
		}
	}
	if err := r.sync(); err != nil {
		return hang(err)
	}
	abs := func(t string) string {
		parts := strings.Split(t, "/")
		for i := range parts {
			parts[i] = Tok(parts[i])
		}
		if t == "" || t == "." {
			return r.base
		}
		return r.base + "/" + strings.Join(parts, "/")
	}
	type stable struct {
		dir, link bool
	}
	known := map[string]stable{}
	r.fs.root.walk(func(o *obj) { known[o.path()] = stable{o.dir, o.link} })

	var (
		wg    sync.WaitGroup
		done  = map[int][]outcome{}
		mu    sync.Mutex // done, panics
		start = make(chan struct{})
		panic string
	)
	for k, l := range lists {
		wg.Add(1)
		go func(k int, l []core.Op) {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					mu.Lock()
					panic = fmt.Sprintf("panic: %v\n%s", v, debug.Stack())
					mu.Unlock()
				}
			}()
			var out []outcome
			<-start
			for _, op := range l {
				p := abs(op.P)
				var err error
				switch {
				case op.K == "yield":
					for t := time.Now(); time.Since(t) < time.Duration(op.E)*time.Microsecond; {
					}
				case op.S == "g" && (op.C < 0 || op.C >= nch):
				case op.K == "watch":
					if op.E&AllKinds == 0 {
						continue
					}
					if s, ok := known[p]; ok && (op.R && !s.dir || s.link || !s.dir && strings.HasSuffix(p, "...")) {
						continue
					}
					err = notify.Watch(spell(p, op.R), r.chans[op.C], Args(op)...)
				case op.K == "stop":
					notify.Stop(r.chans[op.C])
				case op.K == "stopclose":
					notify.Stop(r.chans[op.C])
					if len(user[op.C]) == 1 {
						close(r.chans[op.C]) // what is sent later panics
						r.chans[op.C] = make(chan notify.EventInfo, 1<<14)
					}
				case op.K == "create":
					var fd int
					if fd, err = unix.Open(p, unix.O_WRONLY|unix.O_CREAT|unix.O_EXCL|unix.O_CLOEXEC, 0o644); err == nil {
						unix.Write(fd, []byte("x"))
						unix.Close(fd)
					}
				case op.K == "unlink":
					err = unix.Unlink(p)
				case op.K == "mkdir":
					err = unix.Mkdir(p, 0o755)
				case op.K == "mkdirall":
					err = os.MkdirAll(p, 0o755)
				case op.K == "removeall":
					err = os.RemoveAll(p)
				case op.K == "rename":
					err = unix.Rename(p, abs(op.Q))
				}
				out = append(out, outcome{op, err})
			}
			mu.Lock()
			done[k] = out
			mu.Unlock()
		}(k, l)
	}
	close(start)
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(core.QuiesceTimeout):
		return hang(fmt.Errorf("calls of Watch or Stop did not return:\n%s", core.AllStacks()))
	}
	if panic != "" {
		res.Verdict, res.Msg, res.Dirty = core.Violation, panic, true
		return
	}
	for ch, m := range mixed {
		if m {
			notify.Stop(r.chans[ch])
			r.chans[ch] = make(chan notify.EventInfo, 1<<14)
		}
	}
	if err := core.Quiesce(); err != nil {
		return hang(err)
	}

	r.concEvents(done, anchors, stops, abs, func(p string) bool { return known[p].dir })

	// What is registered now.
	r.regs = nil
	for i := range r.burstRegs {
		r.burstRegs[i] = map[string]*breg{}
	}
	live := map[int][]core.Op{}
	for _, op := range anchors {
		live[op.C] = append(live[op.C], op)
	}
	for ch := range mixed {
		if mixed[ch] {
			live[ch] = nil
		}
	}
	keys := []int{}
	for k := range done {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	total := 0
	for _, k := range keys {
		for _, d := range done[k] {
			op := d.op
			if op.S != "g" || op.C < 0 || op.C >= nch {
				continue
			}
			total++
			if mixed[op.C] {
				if s, ok := known[abs(op.P)]; ok && op.K == "watch" && d.err != nil {
					r.violate("Watch(%q, rec=%v) of an existing object (%v) failed: %v", op.P, op.R, s, d.err)
				}
				continue
			}
			switch op.K {
			case "watch":
				if d.err == nil {
					live[op.C] = append(live[op.C], op)
				} else if _, ok := known[abs(op.P)]; ok {
					r.violate("Watch(%q, rec=%v) failed: %v", op.P, op.R, d.err)
				} else {
					r.stats["failed"]++
				}
			case "stop", "stopclose":
				live[op.C] = nil
			}
		}
	}
	for ch := range r.chans {
		for _, op := range live[ch] {
			o, _, _ := r.fs.lookup(op.P)
			if o != nil {
				r.registered(op, o)
				continue
			}
			g := &reg{c: ch, path: abs(op.P), o: newObj(nil, abs(op.P), true), stale: true, rec: op.R, taint: map[*obj]bool{}, ghost: map[string]bool{}}
			if op.R {
				g.recEv = op.E
			} else {
				g.ev = op.E
			}
			var old *reg
			for _, x := range r.regs {
				if x.c == ch && x.path == g.path {
					old = x
				}
			}
			if old != nil {
				old.rec = old.rec || g.rec
				old.ev, old.recEv = old.ev|g.ev, old.recEv|g.recEv
			} else {
				r.regs = append(r.regs, g)
			}
		}
	}

	// The tree as it is now.
	var scan func(o *obj)
	scan = func(o *obj) {
		ents, err := os.ReadDir(o.path())
		must(err)
		for _, e := range ents {
			k := o.kids[e.Name()]
			if k == nil {
				if c.Cfg["vol"] == 1 && e.IsDir() {
					continue
				}
				k = newObj(o, e.Name(), e.IsDir())
				k.link = e.Type()&os.ModeSymlink != 0
				k.loose = true
				k.ino = ino(k.path())
				r.byIno[k.ino] = k
				r.noteDir(k)
			}
			if k.dir {
				scan(k)
			}
		}
	}
	if err := core.Quiesce(); err != nil {
		return hang(err)
	}
	scan(r.fs.root)
	if err := core.Quiesce(); err != nil { // reading directories is seen as well
		return hang(err)
	}
	for ch := range r.chans {
		r.drain(ch)
	}
	r.must, r.notes, r.count = nil, nil, nil
	r.skipUnknown = c.Cfg["vol"] == 1
	r.table = true
	if r.fail == "" {
		if err := r.sync(); err != nil {
			return hang(err)
		}
	}
	if r.fail == "" {
		if err := r.probe(); err != nil {
			return hang(err)
		}
	}
	failed := r.fail
	r.skipUnknown = false
	if err := r.finish(); err != nil {
		return hang(err)
	}
	if failed == "" {
		failed = r.fail
	}
	if len(core.KernelWatches()) > 0 {
		res.Dirty = true
		if failed == "" {
			failed = "OS watches are left after all channels were stopped"
		}
	}
	r.stats["calls"] = total
	if failed != "" {
		res.Verdict, res.Msg, res.Dirty = core.Violation, failed, true
	}
	res.Nontrivial = total > 4 && r.stats["probed"] > 0
	return
}

// concEvents judges what arrived while calls were made concurrently: files with unique names
// created in directories that stay are reported for each registration made before, and
// everything only for registrations that existed and only as often as there were some.
func (r *run) concEvents(done map[int][]outcome, anchors []core.Op, stops map[int]bool, abs func(string) string, stable func(string) bool) {
	raw := map[string]uint32{}
	watches := map[int][]core.Op{}
	for _, op := range anchors {
		watches[op.C] = append(watches[op.C], op)
	}
	for _, l := range done {
		for _, d := range l {
			p := abs(d.op.P)
			switch {
			case d.op.S == "g" && d.op.K == "watch":
				watches[d.op.C] = append(watches[d.op.C], d.op)
			case d.op.S == "fs" && d.err == nil && stable(path.Dir(p)) && strings.HasPrefix(path.Base(p), "u"):
				switch d.op.K {
				case "create":
					raw[p] |= unix.IN_CREATE | unix.IN_OPEN | unix.IN_MODIFY | unix.IN_CLOSE_WRITE
				case "unlink":
					raw[p] |= unix.IN_DELETE
				}
			}
		}
	}
	for ch := range r.chans {
		got := map[key]int{}
		for _, e := range r.drain(ch) {
			k := kindIndex(e.Event())
			if k < 0 {
				r.violate("channel %d: event %v is not a single kind", ch, e)
				return
			}
			got[key{ch, e.Path(), k}]++
			r.stats["event"]++
		}
		for k, n := range got {
			paths := map[string]bool{}
			for _, op := range watches[ch] {
				if covers(abs(op.P), k.path, op.R) {
					if op.E&(1<<k.kind) != 0 {
						paths[abs(op.P)] = true
					} else if !paths[abs(op.P)] {
						// Kinds add up over the calls for a path.
						for _, x := range watches[ch] {
							if x.P == op.P && x.E&(1<<k.kind) != 0 {
								paths[abs(op.P)] = true
							}
						}
					}
				}
			}
			if len(paths) == 0 {
				r.violate("channel %d got %s %q, which it never asked for", ch, KindNames[k.kind], r.rel(k.path))
			} else if m, ok := raw[k.path]; ok {
				x := 0
				for b := uint32(1); b != 0; b <<= 1 {
					if m&rawBits[k.kind]&b != 0 {
						x++
					}
				}
				if n > x*len(paths) {
					r.violate("channel %d got %s %q %d times, %d notifications, %d paths", ch, KindNames[k.kind], r.rel(k.path), n, x, len(paths))
				}
			}
		}
		if stops[ch] {
			continue
		}
		for p, m := range raw {
			for _, op := range anchors {
				if op.C != ch || !covers(abs(op.P), p, op.R) {
					continue
				}
				for k := range Kinds {
					if op.E&(1<<k) != 0 && rawBits[k]&m != 0 {
						r.stats["anchored"]++
						if got[key{ch, p, k}] == 0 {
							r.miss("channel %d never got %s %q, registered before and never stopped", ch, KindNames[k], r.rel(p))
						}
					}
				}
			}
		}
	}
}
