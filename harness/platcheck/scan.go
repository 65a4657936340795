//go:build !c16 && !c17

package platcheck

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vh/core"
	"vh/fake/bsdsys"
	kq "vh/plat/kqueue"
)

// C15: the backends that scan directories.

type objID struct{ dev, ino uint64 }

type object struct {
	path string
	id   objID
}

type scanEvent struct {
	path string
	e    uint32
}

type scanWatcher interface {
	watch(p string, e uint32) error
	rewatch(p string, old, e uint32) error
	unwatch(p string) error
	close() error
	sync() // waits until what was reported has been received
}

// backend is a build of a backend on its simulated kernel.
type backend struct {
	name   string
	events []uint32 // Create, Remove, Write, Rename, then the specific ones
	names  []string
	start  func(send func(scanEvent)) scanWatcher
	reset  func(fail func(call, p string) error)
	hold   func(fn func(note func(id objID, bits uint32)))
	idle   func() bool
	objs   func() []object
	others func() string // what is open besides
	wrong  func() []string
	bits   map[string]uint32 // of a change
	// kinds lists the indices of the events that a set of bits is reported as.
	kinds map[uint32][]int
	calls []string // that may be refused
}

// Indices of the generic events.
const (
	xCreate = iota
	xRemove
	xWrite
	xRename
)

type kqWatcher struct {
	w interface {
		Watch(string, kq.Event) error
		Rewatch(string, kq.Event, kq.Event) error
		Unwatch(string) error
		Close() error
	}
	c      chan kq.EventInfo
	done   chan struct{}
	synced chan bool
}

func (w *kqWatcher) sync() {
	w.c <- nil
	<-w.synced
}

func (w *kqWatcher) watch(p string, e uint32) error { return w.w.Watch(p, kq.Event(e)) }
func (w *kqWatcher) rewatch(p string, old, e uint32) error {
	return w.w.Rewatch(p, kq.Event(old), kq.Event(e))
}
func (w *kqWatcher) unwatch(p string) error { return w.w.Unwatch(p) }
func (w *kqWatcher) close() error {
	err := w.w.Close()
	close(w.c)
	<-w.done
	return err
}

var kqBackend = &backend{
	name: "kqueue",
	events: []uint32{uint32(kq.Create), uint32(kq.Remove), uint32(kq.Write), uint32(kq.Rename),
		uint32(kq.NoteDelete), uint32(kq.NoteWrite), uint32(kq.NoteExtend), uint32(kq.NoteAttrib), uint32(kq.NoteLink), uint32(kq.NoteRename)},
	names: []string{"Create", "Remove", "Write", "Rename", "NoteDelete", "NoteWrite", "NoteExtend", "NoteAttrib", "NoteLink", "NoteRename"},
	start: func(send func(scanEvent)) scanWatcher {
		c := make(chan kq.EventInfo)
		w := &kqWatcher{c: c, done: make(chan struct{}), synced: make(chan bool)}
		go func() {
			defer close(w.done)
			for e := range c {
				if e == nil {
					w.synced <- true
					continue
				}
				send(scanEvent{e.Path(), uint32(e.Event())})
			}
		}()
		w.w = kq.XNewWatcher(c)
		return w
	},
	reset: bsdsys.Reset,
	hold: func(fn func(note func(id objID, bits uint32))) {
		bsdsys.Hold(func(note func(id bsdsys.ID, b uint32)) {
			fn(func(id objID, b uint32) { note(bsdsys.ID{Dev: id.dev, Ino: id.ino}, b) })
		})
	},
	idle: bsdsys.Idle,
	objs: func() (l []object) {
		for _, v := range bsdsys.Vnodes() {
			l = append(l, object{v.Path, objID{v.ID.Dev, v.ID.Ino}})
		}
		return
	},
	others: func() string {
		n := map[string]int{}
		for _, f := range bsdsys.OpenFiles() {
			n[f]++
		}
		for _, v := range bsdsys.Vnodes() {
			if n[v.Path]--; n[v.Path] == 0 {
				delete(n, v.Path)
			}
		}
		return fmt.Sprint(n)
	},
	wrong: bsdsys.Wrong,
	bits: map[string]uint32{
		"write": bsdsys.NOTE_WRITE, "extend": bsdsys.NOTE_WRITE | bsdsys.NOTE_EXTEND, "chmod": bsdsys.NOTE_ATTRIB,
		"dir": bsdsys.NOTE_WRITE, "dirdir": bsdsys.NOTE_WRITE | bsdsys.NOTE_LINK,
		"remove": bsdsys.NOTE_DELETE, "rename": bsdsys.NOTE_RENAME, "replaced": bsdsys.NOTE_DELETE,
	},
	kinds: map[uint32][]int{
		bsdsys.NOTE_DELETE: {xRemove, 4}, bsdsys.NOTE_WRITE: {xWrite, 5}, bsdsys.NOTE_EXTEND: {6}, bsdsys.NOTE_ATTRIB: {7}, bsdsys.NOTE_LINK: {8}, bsdsys.NOTE_RENAME: {xRename, 9},
	},
	calls: []string{"open", "kevent"},
}

var scanDirs = []string{"a", "a/s", "ab", "b"} // there at the start

func genScan(b *backend) func(prop, tier string, r *rand.Rand) core.Case {
	return func(prop, tier string, r *rand.Rand) core.Case {
		c := core.Case{Cfg: map[string]int{}}
		if r.IntN(3) == 0 {
			c.Cfg["order"] = 1 // of the notifications of a removal
		}
		if r.IntN(4) == 0 {
			c.Cfg["eintr"] = 2 + r.IntN(5) // every how many waits is interrupted
		}
		if r.IntN(20) == 0 {
			c.Cfg["start"] = 1 + r.IntN(3) // the call of the start to refuse
		}
		// What is likely to exist, to choose from: the run goes by what does.
		fs := map[string]bool{".": true, "a": true, "b": true, "a/s": true, "ab": true, "a/f": false, "a/s/g": false, "ab/f": false}
		name := func() string { return []string{"f", "g", "s", "é x", "a", "ab"}[r.IntN(6)] }
		pick := func(ok func(p string, dir bool) bool) string {
			var l []string
			for p, dir := range fs {
				if ok(p, dir) {
					l = append(l, p)
				}
			}
			if len(l) == 0 {
				return "f"
			}
			sort.Strings(l)
			return l[r.IntN(len(l))]
		}
		isdir := func(p string, dir bool) bool { return dir }
		watched := map[string]bool{}
		fresh := func() string {
			d := pick(isdir)
			if r.IntN(2) == 0 {
				d = pick(func(p string, dir bool) bool { return dir && watched[p] })
			}
			if strings.Count(d, "/") > 2 {
				d = "a"
			}
			return path.Join(d, name())
		}
		known := func() string { // not the root
			if r.IntN(3) > 0 {
				return pick(func(p string, _ bool) bool { return p != "." && (watched[p] || watched[path.Dir(p)]) })
			}
			return pick(func(p string, _ bool) bool { return p != "." })
		}
		beneath := func(p, d string) bool { return p == d || strings.HasPrefix(p, d+"/") }
		set := func() (e uint32) {
			switch r.IntN(3) {
			case 0:
				return 1 + uint32(r.IntN(15))
			case 1:
				return 1 << r.IntN(len(b.events))
			}
			for e == 0 {
				e = uint32(r.IntN(1 << len(b.events)))
			}
			return
		}
		burst := 0
		if r.IntN(2) == 0 {
			burst = 2 + r.IntN(3)
		}
		for i := 10 + r.IntN(40); i > 0; i-- {
			switch x := r.IntN(20); {
			case x < 4 || len(c.Ops) < 2:
				op := core.Op{K: "watch", P: pick(isdir), E: set()}
				switch r.IntN(8) {
				case 0:
					op.P = fresh()
				case 1, 2:
					op.P = known()
				}
				if r.IntN(4) == 0 {
					op.N = 1 + r.IntN(6)
				} else if r.IntN(6) == 0 {
					op.C = 1 + r.IntN(4)
				}
				watched[op.P] = true
				c.Ops = append(c.Ops, op)
			case x < 5:
				c.Ops = append(c.Ops, core.Op{K: "unwatch", P: pick(isdir), C: r.IntN(20)})
			default:
				op := core.Op{K: []string{"create", "create", "write", "extend", "chmod", "mkdir", "rm", "rm", "rename", "rename"}[r.IntN(10)], P: known()}
				op.R = burst > 0 && r.IntN(burst) > 0
				switch op.K {
				case "create", "mkdir":
					op.P = fresh()
					if _, ok := fs[op.P]; !ok {
						fs[op.P] = op.K == "mkdir"
					}
				case "write", "extend":
					op.P = pick(func(p string, dir bool) bool { return !dir })
				case "rm":
					d := op.P
					op.P = pick(func(p string, _ bool) bool { return beneath(p, d) })
					empty := true
					for p := range fs {
						empty = empty && (p == op.P || !beneath(p, op.P))
					}
					if empty {
						delete(fs, op.P)
					}
				case "rename":
					if op.Q = fresh(); r.IntN(4) == 0 {
						op.Q = known()
					}
					if beneath(op.Q, op.P) || fs[op.Q] {
						break
					}
					moved := map[string]bool{}
					for p, dir := range fs {
						if beneath(p, op.P) {
							moved[op.Q+p[len(op.P):]] = dir
							delete(fs, p)
						}
					}
					for p, dir := range moved {
						fs[p] = dir
					}
				}
				c.Ops = append(c.Ops, op)
			}
		}
		return c
	}
}

// scanRun is the state of a case, with what is watched by the calls so far.
type scanRun struct {
	b     *backend
	base  string
	w     scanWatcher
	mu    sync.Mutex
	got   []scanEvent
	model map[string]*scanWatch // live watches
	dead  map[string]bool       // paths whose object went away
	res   *core.Result
	order int
	fault struct {
		n       int    // call to refuse
		vanish  int    // open whose file is to vanish
		path    string // which stays
		refused bool
	}
}

type scanWatch struct {
	id objID
	e  uint32
}

func (s *scanRun) fail(format string, v ...interface{}) {
	if s.res.Verdict == core.OK {
		s.res.Verdict, s.res.Dirty = core.Violation, true
		s.res.Msg = s.b.name + ": " + fmt.Sprintf(format, v...)
	}
}

func lstat(p string) (id objID, dir, ok bool) {
	fi, err := os.Lstat(p)
	if err != nil {
		return
	}
	st := fi.Sys().(*syscall.Stat_t)
	return objID{uint64(st.Dev), st.Ino}, fi.IsDir(), true
}

func (s *scanRun) rel(p string) string {
	if p == s.base {
		return "."
	}
	return strings.TrimPrefix(p, s.base+"/")
}

// quiet waits until nothing is left to do.
func (s *scanRun) quiet() bool {
	end := time.Now().Add(core.QuiesceTimeout)
	for {
		if err := core.Quiesce(); err != nil {
			s.res.Verdict, s.res.Msg, s.res.Dirty = core.Hang, err.Error(), true
			return false
		}
		if s.b.idle() {
			s.w.sync()
			return true
		}
		if time.Now().After(end) {
			s.res.Verdict, s.res.Msg, s.res.Dirty = core.Hang, fmt.Sprintf("notifications are not processed:\n%s", core.AllStacks()), true
			return false
		}
		time.Sleep(20 * time.Microsecond)
	}
}

func (s *scanRun) take() []scanEvent {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := s.got
	s.got = nil
	return g
}

type followed struct {
	id  objID
	e   uint32
	dir bool
}

// follow lists the objects that have to be registered: watched paths and the entries of watched
// directories, with the events they are followed for.
func (s *scanRun) follow() map[string]*followed {
	m := map[string]*followed{}
	add := func(p string, e uint32) {
		id, dir, ok := lstat(p)
		if !ok {
			return
		}
		if m[p] == nil {
			m[p] = &followed{id: id, dir: dir}
		}
		m[p].e |= e
	}
	for p, w := range s.model {
		add(p, w.e)
		ents, _ := os.ReadDir(p)
		for _, e := range ents {
			add(p+"/"+e.Name(), w.e)
		}
	}
	return m
}

func (s *scanRun) set(e uint32) (v uint32) {
	for i, x := range s.b.events {
		if e&(1<<i) != 0 {
			v |= x
		}
	}
	return
}

func (s *scanRun) check(when string) {
	if s.res.Verdict != core.OK {
		return
	}
	if w := s.b.wrong(); len(w) > 0 {
		s.fail("%s: %s", when, w[0])
		return
	}
	want := s.follow()
	have := map[string]objID{}
	for _, o := range s.b.objs() {
		if old, ok := have[o.path]; ok && old == o.id {
			s.fail("%s: %q is registered twice", when, s.rel(o.path))
			return
		}
		have[o.path] = o.id
		switch f := want[o.path]; {
		case f == nil:
			s.fail("%s: %q is registered, watched are %s", when, s.rel(o.path), s.watched())
			return
		case f.id != o.id:
			s.fail("%s: %q is registered, but another object than the one which is there", when, s.rel(o.path))
			return
		}
	}
	for p := range want {
		if _, ok := have[p]; !ok {
			s.fail("%s: %q is not registered, watched are %s", when, s.rel(p), s.watched())
			return
		}
	}
	s.res.Stats["compared"]++
	if o := s.b.others(); o != s.opened() {
		s.fail("%s: open besides the registered objects: %s, not %s", when, o, s.opened())
	}
}

func (s *scanRun) opened() string {
	if s.b.name == "kqueue" {
		return "map[kqueue:1 pipe:2]"
	}
	return "port 1"
}

func (s *scanRun) watched() string {
	var l []string
	for p, w := range s.model {
		l = append(l, fmt.Sprintf("%q %s", s.rel(p), s.kindNames(w.e)))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func (s *scanRun) kindNames(e uint32) string {
	var l []string
	for i, n := range s.b.names {
		if e&(1<<i) != 0 {
			l = append(l, n)
		}
	}
	return strings.Join(l, "|")
}

// changes executes some changes, whose notifications are there at once, and compares what is
// reported of them.
func (s *scanRun) changes(ops []core.Op) {
	s.take()
	before := s.follow()
	exp := map[objID]uint32{} // notified, of objects followed
	type at struct {
		path string
		id   objID
	}
	n := 0
	s.b.hold(func(note func(id objID, bits uint32)) {
		tell := func(id objID, what string) {
			note(id, s.b.bits[what])
			exp[id] |= s.b.bits[what]
		}
		for _, op := range ops {
			p, q := path.Join(s.base, op.P), path.Join(s.base, op.Q)
			id, isdir, ok := lstat(p)
			parent, pdir, pok := lstat(path.Dir(p))
			if !pok || !pdir {
				continue
			}
			up := "dir"
			if isdir {
				up = "dirdir"
			}
			switch op.K {
			case "create":
				if ok {
					continue
				}
				if err := os.WriteFile(p, nil, 0o644); err != nil {
					core.Fatalf("%v", err)
				}
				tell(parent, "dir")
			case "mkdir":
				if ok {
					continue
				}
				if err := os.Mkdir(p, 0o755); err != nil {
					core.Fatalf("%v", err)
				}
				tell(parent, "dirdir")
			case "write", "extend":
				if !ok || isdir {
					continue
				}
				os.WriteFile(p, []byte("x"), 0o644)
				tell(id, op.K)
			case "chmod":
				if !ok {
					continue
				}
				os.Chmod(p, 0o755)
				tell(id, "chmod")
			case "rm":
				if !ok || os.Remove(p) != nil {
					continue
				}
				if s.order == 0 {
					tell(parent, up)
				}
				tell(id, "remove")
				if s.order == 1 {
					tell(parent, up)
				}
			case "rename":
				to, qdir, qok := lstat(path.Dir(q))
				old, _, exists := lstat(q)
				if !ok || !qok || !qdir || p == q || isdir && s.above(p, before) {
					continue
				}
				if os.Rename(p, q) != nil {
					continue
				}
				if s.order == 1 {
					tell(id, "rename")
				}
				tell(parent, up)
				if to != parent {
					tell(to, up)
				}
				if s.order == 0 {
					tell(id, "rename")
				}
				if exists {
					tell(old, "replaced")
				}
			}
			n++
		}
	})
	if n == 0 {
		return
	}
	s.res.Stats["change"] += n
	if !s.quiet() {
		return
	}
	gone := s.b.bits["remove"] | s.b.bits["rename"] | s.b.bits["replaced"]
	// Watches of what went away, or was moved with a directory, are over.
	lost := func(p string) (over, moved bool) {
		for q, f := range before {
			if exp[f.id]&gone != 0 && p == q {
				over = true
			}
			if exp[f.id]&s.b.bits["rename"] != 0 && strings.HasPrefix(p, q+"/") {
				over, moved = true, true
			}
		}
		return
	}
	for p := range s.model {
		if over, _ := lost(p); over {
			delete(s.model, p)
			s.dead[p] = true
		}
	}
	count := map[scanEvent]int{}
	got := s.take()
	for _, e := range got {
		count[e]++
	}
	describe := func() string {
		var l []string
		for _, e := range got {
			l = append(l, fmt.Sprintf("%s %q", s.kindName(e.e), s.rel(e.path)))
		}
		return fmt.Sprintf("%v gave [%s]", ops, strings.Join(l, ", "))
	}
	lo, hi := map[scanEvent]int{}, map[scanEvent]int{}
	for p, f := range before {
		_, moved := lost(p)
		for bit, ks := range s.b.kinds {
			for _, k := range ks {
				e := scanEvent{p, s.b.events[k]}
				isw := bit == s.b.bits["write"]
				switch {
				case moved && (k == xRename || ks[0] == xRename):
					hi[e] += 2 // of the object and of the directory it was in
				case f.e&(1<<k) == 0:
				case exp[f.id]&bit != 0 && f.dir && isw: // the directory's own: entries say it
				case exp[f.id]&bit != 0:
					hi[e]++
					if !moved && !(f.dir && bit&gone == 0) {
						lo[e]++
					}
				}
			}
		}
	}
	// What was moved with a directory is reported as renamed, if that is reported of both.
	for p, f := range before {
		for q, g := range before {
			if exp[g.id]&s.b.bits["rename"] == 0 || !strings.HasPrefix(p, q+"/") || exp[f.id]&gone != 0 {
				continue
			}
			if _, moved := lost(q); moved { // its notifications may go with it
				continue
			}
			for _, k := range s.b.kinds[s.b.bits["rename"]] {
				if f.e&g.e&(1<<k) != 0 {
					lo[scanEvent{p, s.b.events[k]}] = 1
				}
			}
		}
	}
	after := s.follow()
	for p := range after {
		w := s.model[path.Dir(p)]
		if w == nil || w.e&(1<<xCreate) == 0 {
			continue
		}
		if f := before[p]; f == nil || f.id != after[p].id || exp[f.id]&gone != 0 {
			e := scanEvent{p, s.b.events[xCreate]}
			lo[e]++
			hi[e]++
		}
	}
	for e, n := range count {
		if n > hi[e] {
			s.fail("%s %q was reported %d times instead of %d; watched are %s; %s", s.kindName(e.e), s.rel(e.path), n, hi[e], s.watched(), describe())
		}
	}
	for e, n := range lo {
		if count[e] < n {
			s.fail("%s %q was not reported; watched were %s; %s", s.kindName(e.e), s.rel(e.path), s.watched(), describe())
		}
	}
	s.res.Stats["events"] += len(got)
	s.check(fmt.Sprintf("after %v", ops))
}

func (s *scanRun) kindName(e uint32) string {
	var l []string
	for i, x := range s.b.events {
		if e&x != 0 {
			l = append(l, s.b.names[i])
			e &^= x
		}
	}
	if e != 0 || len(l) == 0 {
		l = append(l, fmt.Sprintf("%#x", e))
	}
	return strings.Join(l, "|")
}

// above tells whether something beneath a directory is followed, but not the directory.
func (s *scanRun) above(p string, m map[string]*followed) bool {
	if m[p] != nil {
		return false
	}
	for q := range m {
		if strings.HasPrefix(q, p+"/") {
			return true
		}
	}
	return false
}

func runScan(b *backend) func(c core.Case) core.Result {
	return func(c core.Case) (res core.Result) {
		res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
		s := &scanRun{b: b, model: map[string]*scanWatch{}, dead: map[string]bool{}, res: &res, order: c.Cfg["order"]}
		s.base = fmt.Sprintf("%s/x%d", os.Getenv("VH_SCRATCH"), os.Getpid())
		os.RemoveAll(s.base)
		for _, d := range scanDirs {
			if err := os.MkdirAll(s.base+"/"+d, 0o755); err != nil {
				core.Fatalf("%v", err)
			}
		}
		os.WriteFile(s.base+"/a/f", nil, 0o644)
		os.WriteFile(s.base+"/a/s/g", nil, 0o644)
		os.WriteFile(s.base+"/ab/f", nil, 0o644)
		defer os.RemoveAll(s.base)
		starting := c.Cfg["start"]
		waits := 0
		b.reset(func(call, p string) error {
			if call == "wait" {
				if waits++; c.Cfg["eintr"] > 0 && waits%c.Cfg["eintr"] == 0 {
					return syscall.EINTR
				}
				return nil
			}
			if starting > 0 {
				if starting--; starting == 0 {
					s.fault.refused = true
					return syscall.EMFILE
				}
			}
			for _, x := range b.calls {
				if x != call || p == "" {
					continue
				}
				if s.fault.vanish > 0 && call == b.calls[0] && p != s.fault.path {
					if _, dir, ok := lstat(p); ok && !dir && s.model[p] == nil {
						if s.fault.vanish--; s.fault.vanish == 0 {
							os.Remove(p)
							return syscall.ENOENT
						}
					}
				}
				if s.fault.n > 0 {
					if s.fault.n--; s.fault.n == 0 {
						s.fault.refused = true
						return syscall.EMFILE
					}
				}
			}
			return nil
		})
		defer b.reset(nil)
		begun := make(chan bool)
		go func() {
			s.w = b.start(func(e scanEvent) {
				s.mu.Lock()
				s.got = append(s.got, e)
				s.mu.Unlock()
			})
			close(begun)
		}()
		select {
		case <-begun:
		case <-time.After(core.QuiesceTimeout):
			s.fail("the watcher does not start")
			return
		}
		starting = 0
		if s.fault.refused {
			res.Stats["refused"]++
			if s.w.watch(s.base, s.set(1)) == nil {
				s.fail("Watch succeeded although the start failed")
			}
			if o := b.others(); o != "map[]" && o != "port 0" {
				s.fail("after a failed start %s is open", o)
			}
			return
		}
		for i := 0; i < len(c.Ops) && res.Verdict == core.OK; i++ {
			op := c.Ops[i]
			p := path.Join(s.base, op.P)
			id, _, ok := lstat(p)
			switch op.K {
			case "watch":
				if op.E&(1<<len(b.events)-1) == 0 || op.P == "" {
					continue
				}
				op.E &= 1<<len(b.events) - 1
				w := s.model[p]
				s.fault.n, s.fault.vanish, s.fault.path, s.fault.refused = op.N, op.C, p, false
				var err error
				if w != nil {
					err = s.w.rewatch(p, s.set(w.e), s.set(op.E))
				} else {
					err = s.w.watch(p, s.set(op.E))
				}
				s.fault.n, s.fault.vanish = 0, 0
				switch {
				case err == nil && !ok:
					s.fail("Watch(%q), which does not exist, succeeded", op.P)
				case err == nil && s.fault.refused:
					s.fail("Watch(%q) succeeded although a call was refused", op.P)
				case err == nil && w != nil:
					w.e = op.E
				case err == nil:
					s.model[p] = &scanWatch{id, op.E}
					delete(s.dead, p)
				case ok && !s.fault.refused:
					s.fail("Watch(%q): %v", op.P, err)
				case s.fault.refused:
					res.Stats["refused"]++
				}
				res.Stats["watch"]++
			case "unwatch":
				if op.C > 0 && s.model[p] == nil { // one that is
					var l []string
					for q := range s.model {
						l = append(l, q)
					}
					if sort.Strings(l); len(l) > 0 {
						p = l[op.C%len(l)]
					}
				}
				err := s.w.unwatch(p)
				switch {
				case s.model[p] != nil && err != nil:
					s.fail("Unwatch(%q): %v", s.rel(p), err)
				case s.model[p] == nil && err == nil && !s.dead[p]:
					s.fail("Unwatch(%q), which is not watched, succeeded", s.rel(p))
				}
				delete(s.model, p)
				delete(s.dead, p)
			default:
				ops := []core.Op{op}
				for ops[len(ops)-1].R && i+1 < len(c.Ops) && c.Ops[i+1].E == 0 && c.Ops[i+1].K != "unwatch" {
					i++
					ops = append(ops, c.Ops[i])
				}
				s.changes(ops)
				continue
			}
			if !s.quiet() {
				return
			}
			if g := s.take(); len(g) > 0 && op.C == 0 {
				s.fail("%s of %q reported %s %q", op.K, op.P, s.kindName(g[0].e), s.rel(g[0].path))
			}
			s.check(fmt.Sprintf("after %s %q", op.K, op.P))
		}
		if res.Verdict != core.OK || !s.quiet() {
			return
		}
		if c.Index%2 == 0 {
			for p := range s.model {
				if err := s.w.unwatch(p); err != nil {
					s.fail("Unwatch(%q): %v", s.rel(p), err)
				}
				delete(s.model, p)
			}
			s.check("after Unwatch of everything")
		}
		if c.Index%3 == 0 { // it is busy
			all := s.follow()
			b.hold(func(note func(id objID, bits uint32)) {
				for _, f := range all {
					note(f.id, b.bits["write"])
				}
			})
		}
		ret := make(chan error, 1)
		go func() { ret <- s.w.close() }()
		select {
		case err := <-ret:
			if err != nil {
				s.fail("Close: %v", err)
			}
			if o := b.others(); o != "map[]" && o != "port 0" {
				s.fail("after Close %s is open", o)
			}
		case <-time.After(core.QuiesceTimeout):
			res.Verdict, res.Dirty, res.Msg = core.Hang, true, "Close does not return"
		}
		res.Nontrivial = res.Stats["events"] > 2 && res.Stats["watch"] > 1
		return
	}
}

func init() {
	add(1, core.Engine{Name: "kqueue", Gen: genScan(kqBackend), Run: runScan(kqBackend), Count: only("C15", 20000, 1000000)})
}
