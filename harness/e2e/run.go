package e2e

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"vh/core"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

// reg is what a channel asked for on one path.
type reg struct {
	c         int
	path      string
	o         *obj
	rec       bool
	ev, recEv uint32 // requested without and with "..."
	stale     bool   // its object is not at its path any more, or was not when it was made
	taint     map[*obj]bool
	ghost     map[string]bool // paths above it whose directory vanished
}

type key struct {
	c    int
	path string
	kind int
}

type mustEnt struct {
	k key
	w *obj
	n string
	// self is set for notifications about the disappearance of a watched directory. With a
	// recursive watch above, only the notification of its parent is guaranteed.
	self bool
}

type run struct {
	fs    *FS
	base  string
	top   string // what holds base
	chans []chan notify.EventInfo
	regs  []*reg
	byIno map[uint64]*obj

	// burst
	must      []mustEnt
	notes     []note
	count     map[string]map[uint32]int // path -> bit -> notifications, nil if not computed
	dirs      []*obj                    // directories that had directories in them
	dirPath   map[string]bool           // paths that are or were directories
	burstRegs []map[string]*breg        // per channel
	struc     bool                      // directories appeared, moved or vanished in this burst
	opNo      int

	stats   map[string]int
	table   bool // check the kernel watch list at sync
	nStruct int
	fail    string
	missed  bool // fail is about something that did not arrive
	// kernel watches of objects the model does not know are not looked at
	skipUnknown bool
	reused      map[string]bool // paths of watched directories that vanished in this burst
}

// breg is what a channel had on a path at some time of the burst.
type breg struct {
	ev, recEv uint32
	rec       bool
}

var caseNo atomic.Int64

// newRun makes a run in a directory of its own; cfg tells how deep it lies ("deep" further
// directories with names of "len" bytes).
func newRun(nch int, cfg map[string]int) *run {
	top := fmt.Sprintf("%s/w%d-%d", os.Getenv("VH_SCRATCH"), os.Getpid(), caseNo.Add(1))
	base := top
	for i, n := 0, max(1, cfg["len"]); i < cfg["deep"] && len(base)+1+n < 1800; i++ {
		base += "/" + strings.Repeat("y", n)
	}
	if err := os.MkdirAll(base, 0o755); err != nil {
		core.Fatalf("mkdir: %v", err)
	}
	base, err := filepath.EvalSymlinks(base)
	if err != nil {
		core.Fatalf("evalsymlinks: %v", err)
	}
	r := &run{fs: NewFS(base), base: base, top: top, byIno: map[uint64]*obj{}, stats: map[string]int{}, dirPath: map[string]bool{base: true},
		reused: map[string]bool{}}
	r.fs.root.ino = ino(base)
	r.byIno[r.fs.root.ino] = r.fs.root
	for i := 0; i < nch; i++ {
		r.chans = append(r.chans, make(chan notify.EventInfo, 1<<14))
	}
	r.burstRegs = make([]map[string]*breg, nch)
	for i := range r.burstRegs {
		r.burstRegs[i] = map[string]*breg{}
	}
	return r
}

func ino(p string) uint64 {
	var st unix.Stat_t
	if err := unix.Lstat(p, &st); err != nil {
		core.Fatalf("lstat %q: %v", p, err)
	}
	return st.Ino
}

func (r *run) violate(format string, v ...interface{}) {
	if r.fail == "" {
		r.fail = fmt.Sprintf("after op %d: ", r.opNo) + fmt.Sprintf(format, v...)
	}
}

// miss is violate for a notification that was not delivered or not acted upon.
func (r *run) miss(format string, v ...interface{}) {
	if r.fail == "" {
		r.missed = true
	}
	r.violate(format, v...)
}

func below(p, root string) bool { return strings.HasPrefix(p, root+"/") }

// covers reports whether a registration on root concerns an event at p.
func covers(root, p string, rec bool) bool {
	return p == root || path.Dir(p) == root || rec && below(p, root)
}

func (r *run) real(o *obj) string { return o.path() }

func must(err error) {
	if err != nil {
		core.Fatalf("%v", err)
	}
}

// apply performs a filesystem operation on the model and for real.
func (r *run) apply(op core.Op) bool {
	var e effect
	var ok bool
	f := r.fs
	o, _, _ := f.lookup(op.P)
	var p, q string
	abs := func(t string) string {
		parts := strings.Split(t, "/")
		for i := range parts {
			parts[i] = Tok(parts[i])
		}
		if t == "" || t == "." {
			return r.base
		}
		return r.base + "/" + strings.Join(parts, "/")
	}
	p, q = abs(op.P), abs(op.Q)
	if op.K == "symlink" && r.dirPath[p] {
		return false // the library may still know it as a directory
	}
	switch op.K {
	case "create":
		e, ok = f.create(op.P, op.N)
	case "mkdir":
		e, ok = f.mkdir(op.P)
	case "symlink":
		e, ok = f.symlink(op.P)
	case "write":
		e, ok = f.write(op.P, op.N)
	case "read":
		e, ok = f.read(op.P)
	case "trunc":
		e, ok = f.trunc(op.P, op.N)
	case "chmod", "touch":
		e, ok = f.attrib(op.P)
	case "readdir":
		e, ok = f.readdir(op.P)
	case "unlink":
		e, ok = f.remove(op.P, false)
	case "rmdir":
		e, ok = f.remove(op.P, true)
	case "rename":
		e, ok = f.rename(op.P, op.Q)
	}
	if !ok {
		return false
	}
	switch op.K {
	case "create", "write":
		fl := unix.O_WRONLY | unix.O_CLOEXEC | unix.O_APPEND
		if op.K == "create" {
			fl |= unix.O_CREAT | unix.O_EXCL
		}
		fd, err := unix.Open(p, fl, 0o644)
		must(err)
		if op.N > 0 {
			n, err := unix.Write(fd, make([]byte, op.N))
			must(err)
			if n != op.N {
				core.Fatalf("short write")
			}
		}
		must(unix.Close(fd))
	case "mkdir":
		must(unix.Mkdir(p, 0o755))
	case "symlink":
		must(unix.Symlink(Tok(op.Q), p))
	case "read":
		fd, err := unix.Open(p, unix.O_RDONLY|unix.O_CLOEXEC, 0)
		must(err)
		var b [64]byte
		_, err = unix.Read(fd, b[:])
		must(err)
		must(unix.Close(fd))
	case "trunc":
		must(unix.Truncate(p, int64(op.N)))
	case "chmod":
		m := uint32(0o644)
		if o.dir {
			m = 0o755
		}
		if op.N%2 == 1 {
			m &^= 0o044
		}
		must(unix.Chmod(p, m))
	case "touch":
		must(unix.UtimesNanoAt(unix.AT_FDCWD, p, []unix.Timespec{{Sec: 1000 + int64(op.N)}, {Sec: 2000 + int64(op.N)}}, 0))
	case "readdir":
		_, err := os.ReadDir(p)
		must(err)
	case "unlink":
		must(unix.Unlink(p))
	case "rmdir":
		must(unix.Rmdir(p))
	case "rename":
		must(unix.Rename(p, q))
	}
	r.stats["fsop"]++
	r.settleEffect(e)
	return true
}

// settleEffect updates must, may, registrations and aliases after an operation.
func (r *run) settleEffect(e effect) {
	if e.created != nil {
		e.created.ino = ino(e.created.path())
		r.byIno[e.created.ino] = e.created
		if e.created.dir {
			r.struc = true
			r.nStruct++
		}
	}
	var gone []*obj // subtrees whose earlier notifications are not guaranteed any more
	for _, o := range e.removed {
		if o.dir {
			r.struc = true
			r.nStruct++
			gone = append(gone, o)
		}
	}
	if e.moved != nil && e.moved.dir {
		r.struc = true
		r.nStruct++
		gone = append(gone, e.moved)
	}
	for _, g := range gone {
		keep := r.must[:0]
		for _, m := range r.must {
			if m.w == g || m.w.under(g) {
				continue
			}
			keep = append(keep, m)
		}
		r.must = keep
	}
	// What is guaranteed, judged with the registrations before they go stale.
	for _, n := range e.notes {
		if n.may {
			continue
		}
		r.addMust(n, e)
	}
	// Registrations and coverage.
	for _, o := range e.removed {
		for _, g := range r.regs {
			if g.o == o {
				g.stale = true
			}
		}
		r.vanish(o)
		o.cov = map[*reg]bool{}
	}
	if e.moved != nil {
		e.moved.walk(r.vanish)
		for _, g := range r.regs {
			if g.o == e.moved || g.o.under(e.moved) {
				g.stale = true
			}
		}
		e.moved.walk(func(o *obj) {
			o.cov = map[*reg]bool{}
			p := o.path()
			o.names[p] = true
			o.ever[p] = true
			r.noteDir(o)
		})
	}
	if e.created != nil && e.created.dir {
		r.noteDir(e.created)
	}
	r.notes = append(r.notes, e.notes...)
	r.count = nil
}

// vanish notes that a directory is not at its path any more.
func (r *run) vanish(o *obj) {
	if !o.dir {
		return
	}
	for p := range o.names {
		r.reused[p] = true
		for _, g := range r.regs {
			if below(g.path, p) {
				g.ghost[p] = true
			}
		}
	}
}

// racy reports whether a recursive watch may not have noticed yet that the directory at p
// is another one (known finding racy-rewatch: a Watch on it may then be lost).
func (r *run) racy(p string) bool {
	for q := range r.reused {
		if q == p || below(p, q) {
			for _, x := range r.regs {
				if x.rec && (below(p, x.path) || p == x.path) {
					return true
				}
			}
		}
	}
	return false
}

// noteDir remembers the paths under which a directory may be reported by its parent.
func (r *run) noteDir(o *obj) {
	if !o.dir {
		return
	}
	r.dirPath[o.path()] = true
	for p := range o.parent.names {
		p += "/" + o.name
		o.names[p], o.ever[p] = true, true
		r.dirPath[p] = true
	}
	if o.parent.dirKids == nil {
		o.parent.dirKids = map[string]bool{}
		r.dirs = append(r.dirs, o.parent)
	}
	o.parent.dirKids[o.name] = true
}

// noisy reports whether p may be a directory for the library, which reads directories
// itself. The path of a watch may change while notifications are under way.
func (r *run) noisy(p string) bool {
	if r.dirPath[p] {
		return true
	}
	dir, base := path.Split(p)
	dir = strings.TrimSuffix(dir, "/")
	for _, d := range r.dirs {
		if d.dirKids[base] && (d.names[dir] || d.ever[dir]) {
			return true
		}
	}
	return false
}

// counts returns how many notifications of the burst may be reported under each path. The
// path of a directory may have changed after the notification was raised.
func (r *run) counts() map[string]map[uint32]int {
	if r.count != nil {
		return r.count
	}
	r.count = map[string]map[uint32]int{}
	for _, n := range r.notes {
		seen := map[string]bool{}
		add := func(p string) {
			if seen[p] {
				return
			}
			seen[p] = true
			m := r.count[p]
			if m == nil {
				m = map[uint32]int{}
				r.count[p] = m
			}
			m[n.bit]++
		}
		for p := range n.w.names {
			if n.name != "" {
				p += "/" + n.name
			}
			add(p)
		}
		add(n.path)
	}
	return r.count
}

func (r *run) addMust(n note, e effect) {
	recAbove, self := false, false
	if n.name == "" && (n.bit == unix.IN_DELETE_SELF || n.bit == unix.IN_MOVE_SELF || n.bit == unix.IN_ATTRIB && n.w.gone) {
		// The watch of the object itself may be dropped or renamed because of the
		// notification its parent got first.
		if n.on.dir || n.bit == unix.IN_MOVE_SELF {
			self = true
			for _, g := range r.regs {
				if g.rec && (n.path == g.path || below(n.path, g.path) || e.moved == n.on && below(n.on.path(), g.path)) {
					recAbove = true
				}
			}
		}
	}
	// Generic Remove is reported for the parent's notification in any case.
	for _, g := range r.regs {
		if g.stale || recAbove && n.bit != unix.IN_DELETE_SELF {
			continue
		}
		var ev uint32
		switch {
		case n.w == g.o:
			ev = g.ev | g.recEv
		case n.name != "" && n.w.cov[g] && g.rec:
			ev = g.recEv
		default:
			continue
		}
		for k := range Kinds {
			if ev&(1<<k) != 0 && rawBits[k]&n.bit != 0 && !(recAbove && k != 1) {
				r.must = append(r.must, mustEnt{key{g.c, n.path, k}, n.w, n.name, self})
			}
		}
	}
}

func (r *run) tainted(p string) bool {
	for _, g := range r.regs {
		if g.ghost[p] {
			return true
		}
		if g.stale && (g.path == p || g.rec && below(p, g.path)) {
			return true
		}
		for o := range g.taint {
			if q := o.path(); q == p || below(p, q) {
				return true
			}
		}
	}
	return false
}

func spell(p string, rec bool) string {
	if rec {
		return p + "/..."
	}
	if strings.HasSuffix(p, "...") {
		return p + "/"
	}
	return p
}

// watch registers channel c.
func (r *run) watch(op core.Op) bool {
	o, _, _ := r.fs.lookup(op.P)
	if o == nil || o.link || op.R && !o.dir || op.E&AllKinds == 0 || op.C < 0 || op.C >= len(r.chans) {
		return false
	}
	if strings.HasSuffix(o.name, "...") && !o.dir {
		return false // cannot be named: the suffix asks for recursion
	}
	p := o.path()
	if err := notify.Watch(spell(p, op.R), r.chans[op.C], Args(op)...); err != nil {
		r.violate("Watch(%q, rec=%v, %s) failed: %v", p, op.R, evNames(op.E), err)
		return true
	}
	r.registered(op, o)
	return true
}

// registered updates the model after a successful Watch.
func (r *run) registered(op core.Op, o *obj) {
	p := o.path()
	r.stats["watch"]++
	// Watching an object at a new path changes the path under which its earlier
	// notifications are reported.
	km := r.must[:0]
	for _, m := range r.must {
		if op.R && m.self && m.k.kind != 1 && (m.k.path == p || below(m.k.path, p)) {
			continue
		}
		if m.w == o || op.R && m.w.under(o) {
			wp := m.w.path()
			if m.n != "" {
				wp += "/" + m.n
			}
			if wp != m.k.path {
				continue
			}
		}
		km = append(km, m)
	}
	r.must = km
	var g *reg
	for _, x := range r.regs {
		if x.c == op.C && x.path == p {
			g = x
		}
	}
	if g == nil {
		g = &reg{c: op.C, path: p, o: o, taint: map[*obj]bool{}, ghost: map[string]bool{}, stale: r.tainted(p)}
		r.regs = append(r.regs, g)
	}
	if r.racy(p) {
		// Known finding racy-rewatch.
		g.stale = true
	}
	if op.R {
		if !g.rec && !g.stale {
			o.walk(func(d *obj) {
				if d != o && d.dir && (r.tainted(d.path()) || r.racy(d.path())) {
					g.taint[d] = true
				}
			})
		}
		g.rec = true
		g.recEv |= op.E
	} else {
		g.ev |= op.E
	}
	if g.rec {
		g.recEv |= g.ev // a channel's event set on a path is recursive as a whole
	}
	if !r.struc {
		r.cover(g)
	}
	b := r.burstRegs[op.C][p]
	if b == nil {
		b = &breg{}
		r.burstRegs[op.C][p] = b
	}
	b.ev, b.recEv, b.rec = g.ev, g.recEv, g.rec
}

func (r *run) cover(g *reg) {
	if g.stale || !g.rec {
		return
	}
	g.o.walk(func(d *obj) {
		if d.dir && d != g.o && !g.taint[d] && (d.parent == g.o || d.parent.cov[g]) {
			d.cov[g] = true
		}
	})
}

func (r *run) stop(c int) bool {
	if c < 0 || c >= len(r.chans) {
		return false
	}
	notify.Stop(r.chans[c])
	r.stats["stop"]++
	// Whatever arrived until now is judged against the burst so far.
	r.judge(c, r.drain(c))
	keep := r.regs[:0]
	for _, g := range r.regs {
		if g.c != c {
			keep = append(keep, g)
		}
	}
	r.regs = keep
	km := r.must[:0]
	for _, m := range r.must {
		if m.k.c != c {
			km = append(km, m)
		}
	}
	r.must = km
	r.burstRegs[c] = map[string]*breg{}
	return true
}

func (r *run) drain(c int) (es []notify.EventInfo) {
	for {
		select {
		case e, ok := <-r.chans[c]:
			if !ok {
				r.violate("channel %d was closed", c)
				return
			}
			es = append(es, e)
		default:
			return
		}
	}
}

// judge checks events received on c against what may be seen and removes them from must.
func (r *run) judge(c int, es []notify.EventInfo) {
	got := map[key]int{}
	for _, e := range es {
		r.stats["event"]++
		k := kindIndex(e.Event())
		p := e.Path()
		if k < 0 {
			r.violate("channel %d: event %v (%#x) on %q is not a single kind", c, e.Event(), uint32(e.Event()), p)
			return
		}
		if !filepath.IsAbs(p) || filepath.Clean(p) != p {
			r.violate("channel %d: path %q is not clean and absolute", c, p)
			return
		}
		if s := e.Event().String() + `: "` + p + `"`; fmt.Sprint(e) != s {
			r.violate("channel %d: event %v %q prints as %q", c, e.Event(), p, fmt.Sprint(e))
			return
		}
		sys, ok := e.Sys().(*unix.InotifyEvent)
		if !ok || sys == nil {
			r.violate("channel %d: Sys() of %v %q is %T", c, e.Event(), p, e.Sys())
			return
		}
		if sys.Mask&rawBits[k] == 0 {
			r.violate("channel %d: Sys() mask %#x of %v %q does not match", c, sys.Mask, e.Event(), p)
			return
		}
		moved := sys.Mask&(unix.IN_MOVED_FROM|unix.IN_MOVED_TO) != 0
		if moved != (sys.Cookie != 0) {
			r.violate("channel %d: Sys() cookie %d with mask %#x of %v %q", c, sys.Cookie, sys.Mask, e.Event(), p)
			return
		}
		got[key{c, p, k}]++
	}
	for k, n := range got {
		raw := 0
		m := r.counts()[k.path]
		for b, x := range m {
			if rawBits[k.kind]&b != 0 {
				raw += x
			}
		}
		noise := rawBits[k.kind]&dirNoise != 0 && r.noisy(k.path)
		regs, any := 0, false
		for p, b := range r.burstRegs[c] {
			if covers(p, k.path, b.rec) {
				any = true
				if (b.ev|b.recEv)&(1<<k.kind) != 0 {
					regs++
				}
			}
		}
		switch {
		case len(r.burstRegs[c]) == 0:
			r.violate("channel %d is not registered but got %s %q (%d times)", c, KindNames[k.kind], r.rel(k.path), n)
		case !any:
			r.violate("channel %d got %s %q, but no registration of it covers the path (%s)", c, KindNames[k.kind], r.rel(k.path), r.regList(c))
		case regs == 0:
			r.violate("channel %d got %s %q, a kind it did not ask for (%s)", c, KindNames[k.kind], r.rel(k.path), r.regList(c))
		case noise:
		case raw == 0:
			r.violate("channel %d got %s %q, which did not happen", c, KindNames[k.kind], r.rel(k.path))
		case n > raw*regs:
			r.violate("channel %d got %s %q %d times for %d notifications and %d registrations (%s)", c, KindNames[k.kind], r.rel(k.path), n, raw, regs, r.regList(c))
		}
	}
	keep := r.must[:0]
	for _, m := range r.must {
		if got[m.k] == 0 {
			keep = append(keep, m)
		}
	}
	r.must = keep
}

func (r *run) rel(p string) string { return strings.TrimPrefix(p, r.base+"/") }

func evNames(e uint32) string {
	var s []string
	for i, n := range KindNames {
		if e&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, "|")
}

func (r *run) regList(c int) string {
	var s []string
	for p, b := range r.burstRegs[c] {
		x := r.rel(p) + "{" + evNames(b.ev|b.recEv) + "}"
		if b.rec {
			x += "rec"
		}
		s = append(s, x)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// sync waits for the library, then checks everything.
func (r *run) sync() error {
	if err := core.Quiesce(); err != nil {
		return err
	}
	r.stats["sync"]++
	for c := range r.chans {
		r.judge(c, r.drain(c))
	}
	if len(r.must) > 0 {
		m := r.must[0]
		r.miss("channel %d never got %s %q (watch on %q; %d missing; %s)", m.k.c, KindNames[m.k.kind], r.rel(m.k.path), r.rel(m.w.path()), len(r.must), r.regList(m.k.c))
	}
	r.must = r.must[:0]
	r.notes, r.count = nil, nil
	for c := range r.burstRegs {
		r.burstRegs[c] = map[string]*breg{}
	}
	for _, g := range r.regs {
		r.burstRegs[g.c][g.path] = &breg{g.ev, g.recEv, g.rec}
		r.cover(g)
	}
	r.struc = false
	r.reused = map[string]bool{}
	// Directories that are covered have been found at their present path.
	r.fs.root.walk(func(o *obj) {
		if len(o.names) < 2 {
			return
		}
		if o.dir && len(o.cov) > 0 && !r.staleAt(o) {
			o.names = map[string]bool{o.path(): true}
		}
	})
	if r.table {
		r.checkTable()
	}
	return nil
}

func (r *run) staleAt(o *obj) bool {
	for p := range o.names {
		if r.tainted(p) {
			return true
		}
	}
	return false
}

// checkTable compares the kernel's watch list with the registrations.
func (r *run) checkTable() {
	r.stats["table"]++
	have := map[*obj]uint32{}
	for _, w := range core.KernelWatches() {
		o := r.byIno[w.Ino]
		if o == nil && r.skipUnknown {
			continue
		}
		if o == nil {
			r.violate("kernel watch on unknown inode %d (mask %#x)", w.Ino, w.Mask)
			continue
		}
		if _, dup := have[o]; dup {
			r.violate("two kernel watches on %q", r.rel(o.path()))
		}
		have[o] = w.Mask & unix.IN_ALL_EVENTS
	}
	check := func(o *obj) {
		var lo, hi uint32
		for _, g := range r.regs {
			if !g.stale {
				if g.o == o {
					lo |= enc(g.ev | g.recEv)
					if g.rec {
						lo |= enc(kCreate)
					}
				}
				if o.cov[g] {
					lo |= enc(g.recEv | kCreate)
				}
			}
			for p := range o.ever {
				if p == g.path {
					hi |= enc(g.ev | g.recEv)
				}
				if g.rec && (p == g.path || below(p, g.path) && (o.dir || r.dirPath[p])) {
					hi |= enc(g.ev | g.recEv | kCreate)
				}
			}
		}
		if hi != 0 && len(o.ever) > 1 || o.loose && len(r.regs) > 0 {
			hi = AllMask // a watch that moved along cannot be changed by its old path
		}
		m, ok := have[o]
		if lo&^m != 0 || lo != 0 && !ok {
			if o.loose {
				r.missed = r.fail == "" || r.missed
			}
			r.violate("OS watch on %q has mask %#x, needs %#x", r.rel(o.path()), m, lo)
		}
		if m&^hi != 0 || ok && hi == 0 {
			r.violate("OS watch on %q (gone=%v) has mask %#x, allowed %#x", r.rel(o.path()), o.gone, m, hi)
		}
	}
	for _, o := range r.byIno {
		check(o)
	}
	if len(r.regs) == 0 {
		for _, o := range r.byIno {
			o.ever = map[string]bool{o.path(): true}
			if !o.gone {
				o.names = map[string]bool{o.path(): true}
			}
		}
	}
}

// AllMask are all notifications a watch can ask for.
const AllMask = unix.IN_ALL_EVENTS

const probeName = "zprobe"

// probe changes something in every directory that is to be covered.
func (r *run) probe() error {
	var dirs []string
	var rec func(o *obj, tok string)
	rec = func(o *obj, tok string) {
		if !o.dir {
			return
		}
		want := len(o.cov) > 0
		for _, g := range r.regs {
			want = want || g.o == o && !g.stale
		}
		if want {
			dirs = append(dirs, tok)
		}
		for n, k := range o.kids {
			rec(k, strings.TrimPrefix(tok+"/"+untok(n), "/"))
		}
	}
	rec(r.fs.root, "")
	sort.Strings(dirs)
	for _, d := range dirs {
		p := strings.TrimPrefix(d+"/"+probeName, "/")
		r.apply(core.Op{K: "create", P: p, N: 1})
		r.apply(core.Op{K: "write", P: p, N: 1})
		r.apply(core.Op{K: "read", P: p})
		r.apply(core.Op{K: "chmod", P: p, N: 1})
		r.apply(core.Op{K: "rename", P: p, Q: p + "2"})
		r.apply(core.Op{K: "unlink", P: p + "2"})
		r.stats["probed"]++
		if len(r.must) > 2000 {
			if err := r.sync(); err != nil || r.fail != "" {
				return err
			}
		}
	}
	return r.sync()
}

func untok(n string) string {
	for t, s := range oddNames {
		if s == n {
			return t
		}
	}
	return n
}

// step executes one operation; ok is false if it does not apply.
func (r *run) step(op core.Op) (ok bool, err error) {
	switch op.K {
	case "sync":
		return true, r.sync()
	case "probe":
		if err := r.sync(); err != nil || r.fail != "" {
			return true, err
		}
		return true, r.probe()
	case "signal":
		core.Signal()
		r.stats["signal"]++
		return true, nil
	case "yield":
		t := time.Now()
		for time.Since(t) < time.Duration(op.N)*time.Microsecond {
		}
		return true, nil
	case "watch":
		return r.watch(op), nil
	case "badwatch":
		return r.badWatch(op)
	case "stop":
		return r.stop(op.C), nil
	case "mkdirall":
		parts := strings.Split(op.P, "/")
		for i := range parts {
			r.apply(core.Op{K: "mkdir", P: strings.Join(parts[:i+1], "/")})
		}
		return true, nil
	case "removeall":
		o, par, _ := r.fs.lookup(op.P)
		if o == nil || par == nil {
			return false, nil
		}
		r.removeAll(o, op.P)
		return true, nil
	}
	return r.apply(op), nil
}

func (r *run) removeAll(o *obj, tok string) {
	if !o.dir {
		r.apply(core.Op{K: "unlink", P: tok})
		return
	}
	var names []string
	for n := range o.kids {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r.removeAll(o.kids[n], tok+"/"+untok(n))
	}
	r.apply(core.Op{K: "rmdir", P: tok})
}

// finish stops all channels and verifies that nothing is left.
func (r *run) finish() error {
	for c := range r.chans {
		r.stop(c)
	}
	if err := r.sync(); err != nil {
		return err
	}
	return nil
}

func (r *run) cleanup() {
	os.RemoveAll(r.top)
}

// execCase runs all operations of a case.
func execCase(c core.Case, table bool) core.Result {
	if c.Cfg["p1"] > 0 { // the library runs less often and finds more at once
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	}
	r := newRun(max(1, c.Cfg["nch"]), c.Cfg)
	r.table = table
	defer r.cleanup()
	res := core.Result{Verdict: core.OK, Stats: r.stats}
	hang := func(err error) core.Result {
		res.Verdict, res.Msg = core.Hang, err.Error()
		return res
	}
	for i, op := range c.Ops {
		r.opNo = i
		ok, err := r.step(op)
		if err != nil {
			return hang(err)
		}
		if !ok {
			r.stats["skipped"]++
		}
		if r.fail != "" {
			break
		}
	}
	res.Stats["struct"] = r.nStruct
	r.opNo = len(c.Ops)
	failed := r.fail
	if err := r.finish(); err != nil {
		return hang(err)
	}
	if failed == "" && r.table {
		failed = r.fail
	} else if failed == "" {
		failed = r.fail
	}
	if len(core.KernelWatches()) > 0 {
		res.Dirty = true
	}
	if failed != "" {
		res.Verdict, res.Msg, res.Dirty = core.Violation, failed, true
	}
	return res
}
