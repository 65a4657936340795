package tree

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vh/core"
	"vh/e2e"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

// kern is a watcher that is bound to inodes, as inotify is, on real directories. It says what
// a kernel would notify of, but the harness decides when and in which order that arrives, and
// may hold a call or make it fail.
type kern struct {
	mu    sync.Mutex
	base  string
	byIno map[uint64]*kwatch
	queue []knote
	wrong string

	hold    int // number of the call to hold from now, 0 for none
	held    chan struct{}
	release chan struct{}
	fail    int // likewise for the call to refuse
	failed  bool
	calls   int
}

type kwatch struct {
	path string
	mask notify.Event
	gone bool // unwatched
}

type knote struct {
	w    *kwatch
	name string
	e    notify.Event
	dir  bool
}

const kindsKnown = notify.All | notify.Event(unix.IN_ALL_EVENTS)

func (k *kern) enter(call, p string, e notify.Event) error {
	k.mu.Lock()
	k.calls++
	if e == 0 || e&^kindsKnown != 0 {
		if k.wrong == "" {
			k.wrong = fmt.Sprintf("%s(%q) with event set %#x", call, strings.TrimPrefix(p, k.base), uint32(e))
		}
	}
	var wait chan struct{}
	if k.hold > 0 {
		if k.hold--; k.hold == 0 {
			wait = k.release
			close(k.held)
		}
	}
	k.mu.Unlock()
	if wait != nil {
		<-wait
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.fail > 0 && inode(p) != 0 { // those about paths which are gone do not matter
		if k.fail--; k.fail == 0 {
			k.failed = true
			return errNative
		}
	}
	return nil
}

func (k *kern) Watch(p string, e notify.Event) error {
	if err := k.enter("Watch", p, e); err != nil {
		return err
	}
	var st unix.Stat_t
	if err := unix.Lstat(p, &st); err != nil {
		return err.(syscall.Errno)
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	if w := k.byIno[st.Ino]; w != nil {
		w.path, w.mask = p, e
		return nil
	}
	k.byIno[st.Ino] = &kwatch{path: p, mask: e}
	return nil
}

func (k *kern) Rewatch(p string, _, e notify.Event) error { return k.Watch(p, e) }

func (k *kern) Unwatch(p string) error {
	if err := k.enter("Unwatch", p, notify.Create); err != nil {
		return err
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	found := false
	for ino, w := range k.byIno {
		if w.path == p {
			w.gone = true
			delete(k.byIno, ino)
			found = true
		}
	}
	if !found {
		return errNative
	}
	return nil
}

func (k *kern) Close() error { return nil }

// note queues what the kernel tells a watch.
func (k *kern) note(ino uint64, name string, generic, raw notify.Event, dir bool) {
	w := k.byIno[ino]
	if w == nil {
		return
	}
	for _, e := range []notify.Event{generic, raw} {
		if w.mask&e != 0 {
			k.queue = append(k.queue, knote{w, name, e, dir})
		}
	}
}

func inode(p string) uint64 {
	var st unix.Stat_t
	if unix.Lstat(p, &st) != nil {
		return 0
	}
	return st.Ino
}

func (k *kern) mkdir(p string) bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	if unix.Mkdir(p, 0o755) != nil {
		return false
	}
	k.note(inode(path.Dir(p)), path.Base(p), notify.Create, notify.InCreate, true)
	return true
}

func (k *kern) rmdir(p string) bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	ino := inode(p)
	if unix.Rmdir(p) != nil {
		return false
	}
	k.note(ino, "", notify.Remove, notify.InDeleteSelf, false)
	delete(k.byIno, ino)
	k.note(inode(path.Dir(p)), path.Base(p), notify.Remove, notify.InDelete, true)
	return true
}

func (k *kern) rename(p, q string) bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	ino, old := inode(p), inode(q)
	if unix.Rename(p, q) != nil {
		return false
	}
	k.note(inode(path.Dir(p)), path.Base(p), notify.Rename, notify.InMovedFrom, true)
	k.note(inode(path.Dir(q)), path.Base(q), notify.Create, notify.InMovedTo, true)
	k.note(ino, "", notify.Rename, notify.InMoveSelf, false)
	if old != 0 && old != ino {
		k.note(old, "", notify.Remove, notify.InDeleteSelf, false)
		delete(k.byIno, old)
	}
	return true
}

// Directories that stay.
var anchors = []string{"r", "r/k", "r/k/m", "s", "rk"}

func genSched(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"nch": 1 + r.IntN(4)}}
	nch := c.Cfg["nch"]
	dirs := map[string]bool{}
	for _, a := range anchors {
		dirs[a] = true
	}
	list := func() (l []string) {
		for d := range dirs {
			l = append(l, d)
		}
		sort.Strings(l)
		return
	}
	isAnchor := func(p string) bool {
		for _, a := range anchors {
			if a == p || strings.HasPrefix(a, p+"/") {
				return true
			}
		}
		return false
	}
	add := func(op core.Op) { c.Ops = append(c.Ops, op) }
	pick := func() string { l := list(); return l[r.IntN(len(l))] }
	fresh := func() string {
		d := pick()
		if strings.Count(d, "/") > 4 {
			d = "r"
		}
		return d + "/" + []string{"a", "b", "c", "k"}[r.IntN(4)]
	}
	drop := func(p string) {
		for d := range dirs {
			if d == p || strings.HasPrefix(d, p+"/") {
				delete(dirs, d)
			}
		}
	}
	watch := func(conc bool) {
		p := anchors[r.IntN(len(anchors))]
		if !conc && r.IntN(2) == 0 {
			p = pick()
		}
		op := core.Op{K: "watch", C: r.IntN(nch), P: p, R: r.IntN(3) > 0, E: events(r)}
		if prop == "C07" && r.IntN(2) == 0 {
			op.N = 1 + r.IntN(6) // refuse the n-th call
		}
		add(op)
	}
	struc := func() {
		switch r.IntN(9) {
		case 0, 1, 2, 3:
			p := fresh()
			if !dirs[p] {
				dirs[p] = true
				add(core.Op{K: "mkdir", P: p})
				for r.IntN(2) == 0 {
					p += "/" + []string{"a", "b", "c", "k"}[r.IntN(4)]
					dirs[p] = true
					add(core.Op{K: "mkdir", P: p})
				}
			}
		case 4, 5:
			if p := pick(); !isAnchor(p) {
				drop(p)
				add(core.Op{K: "removeall", P: p})
				if r.IntN(2) == 0 { // and back
					dirs[p] = true
					add(core.Op{K: "mkdir", P: p})
				}
			}
		case 6, 7:
			p, q := pick(), fresh()
			if !isAnchor(p) && !dirs[q] && q != p && !strings.HasPrefix(q, p+"/") {
				for _, d := range list() {
					if d == p || strings.HasPrefix(d, p+"/") {
						delete(dirs, d)
						dirs[q+d[len(p):]] = true
					}
				}
				add(core.Op{K: "rename", P: p, Q: q})
			}
		case 8: // onto an empty one
			p, q := pick(), pick()
			if isAnchor(p) || isAnchor(q) || p == q || strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
				return
			}
			for d := range dirs {
				if strings.HasPrefix(d, q+"/") {
					return
				}
			}
			for _, d := range list() {
				if d == p || strings.HasPrefix(d, p+"/") {
					delete(dirs, d)
					dirs[q+d[len(p):]] = true
				}
			}
			add(core.Op{K: "rename", P: p, Q: q})
		}
	}
	for i := r.IntN(8); i > 0; i-- {
		struc()
	}
	watch(false)
	gated := false
	for i := 5 + r.IntN(30); i > 0; i-- {
		switch x := r.IntN(30); {
		case x == 0:
			add(core.Op{K: "stop", C: r.IntN(nch)})
		case x < 4:
			watch(gated)
		case x < 7:
			add(core.Op{K: "deliver", N: 1 + r.IntN(6), R: r.IntN(2) == 0, C: r.IntN(1 << 16)})
		case x < 9:
			add(core.Op{K: "sync"})
			gated = false
		case x == 9 && prop != "C07":
			if !gated {
				add(core.Op{K: "hold", N: 1 + r.IntN(3)})
				gated = true
			}
		case x == 10 && gated:
			add(core.Op{K: "release"})
			gated = false
		case x == 11 && prop != "C07" && r.IntN(8) == 0:
			d := anchors[r.IntN(len(anchors))]
			if !gated {
				add(core.Op{K: "hold", N: 1})
				gated = true
			}
			add(core.Op{K: "flood", P: d, N: 100 + r.IntN(300)})
		default:
			struc()
		}
	}
	return c
}

type sreg struct {
	c     int
	p     string
	ev    uint32
	rec   bool
	stale bool
	at    int     // when
	cloud []*sreg // stale ones at that time
}

// covers tells whether the registration is about the directory.
func (g *sreg) covers(p string) bool {
	return p == g.p || g.rec && strings.HasPrefix(p, g.p+"/")
}

type sched struct {
	k     *kern
	base  string
	t     notify.VerifTree
	c     chan notify.EventInfo
	chans []chan notify.EventInfo
	regs  []*sreg
	now   int
	born  map[uint64]int // when a directory got its path
	moved map[uint64]bool
	held  bool
	wait  []chan string // calls under way
	busy  map[int]bool  // channels of them
	open  []*sreg       // registrations of them
	res   *core.Result
}

var schedNo int

func (s *sched) fail(format string, v ...interface{}) {
	if s.res.Verdict == core.OK {
		s.res.Verdict, s.res.Dirty = core.Violation, true
		s.res.Msg = fmt.Sprintf(format, v...)
	}
}

func (s *sched) hang(err error) bool {
	if err != nil && s.res.Verdict == core.OK {
		s.res.Verdict, s.res.Msg, s.res.Dirty = core.Hang, err.Error(), true
	}
	return err != nil
}

// settle ends the hold, if any, and waits until everything is done.
func (s *sched) settle() bool {
	if s.held {
		s.k.mu.Lock()
		s.k.hold = 0
		s.k.mu.Unlock()
		close(s.k.release)
		s.held = false
	}
	if s.hang(core.Quiesce()) {
		return false
	}
	for _, w := range s.wait {
		select {
		case m := <-w:
			if m != "" {
				s.fail("%s", m)
			}
		case <-time.After(core.QuiesceTimeout):
			s.hang(fmt.Errorf("a call of Watch or Stop does not return:\n%s", core.AllStacks()))
			return false
		}
	}
	s.wait, s.busy = nil, map[int]bool{}
	s.now++
	for _, g := range s.open {
		g.at = s.now
		s.cloud(g)
	}
	s.open = nil
	return s.res.Verdict == core.OK
}

// deliver hands over the first n notifications, or n random ones.
func (s *sched) deliver(n, seed int, shuffle bool) {
	s.k.mu.Lock()
	n = min(n, len(s.k.queue))
	part := append([]knote(nil), s.k.queue[:n]...)
	if shuffle {
		r := rand.New(rand.NewPCG(uint64(seed), 7))
		q := s.k.queue
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		part = append([]knote(nil), q[:n]...)
	}
	s.k.queue = append([]knote(nil), s.k.queue[n:]...)
	var evs []notify.EventInfo
	for _, m := range part {
		if m.w.gone {
			continue
		}
		p := m.w.path
		if m.name != "" {
			p += "/" + m.name
		}
		evs = append(evs, &notify.VerifEvent{E: m.e, P: p, D: m.dir})
	}
	s.k.mu.Unlock()
	for _, e := range evs {
		s.c <- e
		s.res.Stats["delivered"]++
		if !s.held && s.hang(core.Quiesce()) {
			return
		}
	}
}

func (s *sched) sync() bool {
	for s.settle() {
		s.k.mu.Lock()
		n := len(s.k.queue)
		s.k.mu.Unlock()
		if n == 0 {
			return true
		}
		s.deliver(n, 0, false)
	}
	return false
}

func toMask(e uint32) (m notify.Event) {
	for _, x := range e2e.Events(e) {
		m |= x
	}
	return
}

func (s *sched) rel(p string) string { return strings.TrimPrefix(p, s.base+"/") }

func (s *sched) describe() string {
	var l []string
	for _, g := range s.regs {
		l = append(l, fmt.Sprintf("%q channel %d rec=%v stale=%v %#x", g.p, g.c, g.rec, g.stale, uint32(toMask(g.ev))))
	}
	return strings.Join(l, "; ")
}

// needs tells whether a directory has to be watched for a registration. A registration whose
// directory went away is about that one, not about another that takes its place. The finding
// stale-watchpoint is left out: a directory which has taken the place of one with such a
// registration is not watched by calls of Watch that come later.
func (s *sched) needs(g *sreg, p string) bool {
	if g.stale {
		return false
	}
	if p != g.p && s.born[inode(s.base+"/"+p)] > g.at {
		return s.needs(g, path.Dir(p))
	}
	for _, h := range g.cloud {
		if h.covers(p) {
			return false
		}
	}
	return true
}

func (s *sched) cloud(g *sreg) {
	for _, h := range s.regs {
		if h.stale && h != g {
			g.cloud = append(g.cloud, h)
		}
	}
}

// bear notes that directories got their paths.
func (s *sched) bear(p string) {
	s.now++
	filepath.WalkDir(p, func(p string, d os.DirEntry, err error) error {
		s.born[inode(p)] = s.now
		return nil
	})
}

// check compares the native watches with the registrations.
func (s *sched) check() {
	s.k.mu.Lock()
	defer s.k.mu.Unlock()
	if s.k.wrong != "" {
		s.fail("native call %s", s.k.wrong)
		return
	}
	filepath.WalkDir(s.base, func(p string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() || p == s.base || s.res.Verdict != core.OK {
			return nil
		}
		rp := s.rel(p)
		var need, allow notify.Event
		for _, g := range s.regs {
			if !g.covers(rp) {
				continue
			}
			m := toMask(g.ev)
			if g.rec {
				m |= notify.Create
			}
			allow |= m
			if s.needs(g, rp) {
				need |= m
			}
		}
		ino := inode(p)
		w := s.k.byIno[ino]
		switch {
		case w == nil:
			if need != 0 {
				s.fail("nothing watches %q, needed: %#x; registrations %s", rp, uint32(need), s.describe())
			}
		case w.path != p && need != 0:
			s.fail("%q is watched under the name %q; registrations %s", rp, s.rel(w.path), s.describe())
		case need&^w.mask != 0:
			s.fail("%q is watched for %#x, needed: %#x; registrations %s", rp, uint32(w.mask), uint32(need), s.describe())
		case w.path == p && w.mask&^allow != 0 && !s.moved[ino]:
			s.fail("%q is watched for %#x, allowed: %#x; registrations %s", rp, uint32(w.mask), uint32(allow), s.describe())
		}
		return nil
	})
}

func (s *sched) snapshot() string {
	s.k.mu.Lock()
	defer s.k.mu.Unlock()
	var l []string
	for ino, w := range s.k.byIno {
		skip := s.moved[ino] // may be watched under the names it had
		for _, g := range s.regs {
			skip = skip || g.stale && g.covers(s.rel(w.path))
		}
		if skip {
			continue
		}
		l = append(l, fmt.Sprintf("%d %q %#x", ino, s.rel(w.path), uint32(w.mask)))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// stale marks the registrations in a directory that goes away.
func (s *sched) stale(p string) {
	for _, g := range s.regs {
		if g.p == p || strings.HasPrefix(g.p, p+"/") {
			g.stale = true
		}
	}
}

func runSched(c core.Case) (res core.Result) {
	schedNo++
	base := fmt.Sprintf("%s/k%d-%d", os.Getenv("VH_SCRATCH"), os.Getpid(), schedNo)
	for _, a := range anchors {
		if err := os.MkdirAll(base+"/"+a, 0o755); err != nil {
			core.Fatalf("%v", err)
		}
	}
	defer os.RemoveAll(base)
	base, err := filepath.EvalSymlinks(base)
	if err != nil {
		core.Fatalf("%v", err)
	}
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	s := &sched{k: &kern{base: base + "/", byIno: map[uint64]*kwatch{}}, base: base, c: make(chan notify.EventInfo), born: map[uint64]int{}, moved: map[uint64]bool{}, busy: map[int]bool{}, res: &res}
	s.t = notify.VerifNonrecursiveTree(s.k, s.c)
	nch := max(1, c.Cfg["nch"])
	for i := 0; i < nch; i++ {
		s.chans = append(s.chans, make(chan notify.EventInfo, 1))
	}
	async := func(f func() string) {
		w := make(chan string, 1)
		s.wait = append(s.wait, w)
		go func() { w <- f() }()
		time.Sleep(50 * time.Microsecond)
	}
	stopped := func(ch int) {
		var keep []*sreg
		for _, g := range s.regs {
			if g.c != ch {
				keep = append(keep, g)
			}
		}
		s.regs = keep
	}
	for _, op := range c.Ops {
		if res.Verdict != core.OK {
			return
		}
		p, q := base+"/"+op.P, base+"/"+op.Q
		switch op.K {
		case "mkdir":
			if s.k.mkdir(p) {
				s.bear(p)
				res.Stats["struct"]++
			}
		case "removeall":
			if inode(p) == 0 {
				continue
			}
			var ds []string
			filepath.WalkDir(p, func(p string, d os.DirEntry, err error) error {
				ds = append(ds, p)
				return nil
			})
			for i := len(ds) - 1; i >= 0; i-- {
				s.stale(s.rel(ds[i]))
				s.k.rmdir(ds[i])
				res.Stats["struct"]++
			}
		case "rename":
			if s.k.rename(p, q) {
				s.stale(op.P)
				s.stale(op.Q)
				s.bear(q)
				filepath.WalkDir(q, func(p string, d os.DirEntry, err error) error {
					s.moved[inode(p)] = true
					return nil
				})
				res.Stats["struct"]++
			}
		case "flood":
			for i := 0; i < op.N; i++ {
				if f := fmt.Sprintf("%s/f%d", p, i); s.k.mkdir(f) {
					s.bear(f)
				}
			}
			s.k.mu.Lock()
			n := len(s.k.queue)
			s.k.mu.Unlock()
			s.deliver(n, 0, false)
			res.Stats["struct"]++
		case "deliver":
			s.deliver(op.N, op.C, op.R)
		case "sync":
			if s.sync() {
				s.check()
			}
		case "hold":
			if !s.held && op.N > 0 {
				s.k.mu.Lock()
				s.k.hold, s.k.held, s.k.release = op.N, make(chan struct{}), make(chan struct{})
				s.k.mu.Unlock()
				s.held = true
			}
		case "release":
			s.settle()
		case "watch":
			if op.C < 0 || op.C >= nch || op.E&e2e.AllKinds == 0 {
				continue
			}
			sp := p
			if op.R {
				sp += "/..."
			}
			args := e2e.Args(op)
			anchor := false
			for _, a := range anchors {
				anchor = anchor || a == op.P
			}
			if s.held {
				// While something is held calls run on; each channel has one.
				if !anchor || s.busy[op.C] {
					continue
				}
				s.busy[op.C] = true
				async(func() string {
					if err := s.t.Watch(sp, s.chans[op.C], args...); err != nil {
						return fmt.Sprintf("Watch(%q): %v", s.rel(sp), err)
					}
					return ""
				})
				res.Stats["concurrent"]++
			} else {
				if !s.sync() || inode(p) == 0 {
					continue
				}
				before := s.snapshot()
				s.k.fail, s.k.failed = op.N, false
				err := s.t.Watch(sp, s.chans[op.C], args...)
				s.k.fail = 0
				switch {
				case err != nil && !s.k.failed:
					s.fail("Watch(%q): %v", s.rel(sp), err)
				case err == nil && s.k.failed:
					s.fail("Watch(%q) succeeded, a native call was refused", s.rel(sp))
				case err != nil:
					res.Stats["refused"]++
					if after := s.snapshot(); before != after {
						s.fail("Watch(%q, %v) was refused, but the native watches changed:\n %s\n %s", s.rel(sp), args, before, after)
					}
					continue
				}
			}
			res.Stats["watch"]++
			// A further registration of the same path joins the ones before.
			s.now++
			g := &sreg{c: op.C, p: op.P, ev: op.E & e2e.AllKinds, rec: op.R, at: s.now}
			if s.cloud(g); s.held {
				s.open = append(s.open, g)
			}
			for _, h := range s.regs {
				if h.c == g.c && h.p == g.p && !h.stale {
					g.ev |= h.ev
					g.rec = g.rec || h.rec
					g.cloud = append(g.cloud, h.cloud...)
				}
			}
			s.regs = append(s.regs, g)
			if !s.held {
				s.check()
			}
		case "stop":
			if op.C < 0 || op.C >= nch {
				continue
			}
			if s.held {
				if s.busy[op.C] {
					continue
				}
				s.busy[op.C] = true
				async(func() string { s.t.Stop(s.chans[op.C]); return "" })
				res.Stats["concurrent"]++
			} else {
				if !s.sync() {
					continue
				}
				s.t.Stop(s.chans[op.C])
			}
			stopped(op.C)
			if !s.held {
				s.check()
			}
		}
	}
	if res.Verdict != core.OK || !s.sync() {
		return
	}
	s.check()
	for i, ch := range s.chans {
		if res.Verdict != core.OK {
			return
		}
		s.t.Stop(ch)
		stopped(i)
		s.check()
	}
	if s.settle() {
		s.t.Close()
	}
	res.Nontrivial = res.Stats["watch"] > 0 && res.Stats["struct"] > 2 && res.Stats["delivered"] > 0
	if c.Prop == "C07" {
		res.Nontrivial = res.Stats["refused"] > 0
	}
	return
}
