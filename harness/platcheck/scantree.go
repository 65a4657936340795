//go:build !c16 && !c17

package platcheck

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"vh/core"
	"vh/fake/bsdsys"
	kq "vh/plat/kqueue"
)

// C15: registrations made through the tree, on the scan-based backend. Changes come one at a
// time; each is compared with what the live registrations have to be told.

func genScanTree(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"order": r.IntN(2)}}
	fs := map[string]bool{".": true, "a": true, "b": true, "a/s": true, "ab": true, "a/f": false, "a/s/g": false, "ab/f": false}
	name := func() string { return []string{"f", "g", "s", "é x", "a", "ab"}[r.IntN(6)] }
	pick := func(ok func(p string, dir bool) bool) string {
		var l []string
		for p, dir := range fs {
			if ok(p, dir) {
				l = append(l, p)
			}
		}
		if len(l) == 0 {
			return "f"
		}
		sort.Strings(l)
		return l[r.IntN(len(l))]
	}
	isdir := func(p string, dir bool) bool { return dir }
	fresh := func() string {
		d := pick(isdir)
		if strings.Count(d, "/") > 3 {
			d = "a"
		}
		return path.Join(d, name())
	}
	any := func() string { return pick(func(p string, _ bool) bool { return p != "." }) }
	beneath := func(p, d string) bool { return p == d || strings.HasPrefix(p, d+"/") }
	set := func() (e uint32) {
		switch r.IntN(3) {
		case 0:
			return 1 + uint32(r.IntN(15))
		case 1:
			return 1 << r.IntN(len(kqBackend.events))
		}
		for e == 0 {
			e = uint32(r.IntN(1 << len(kqBackend.events)))
		}
		return
	}
	for i := 8 + r.IntN(40); i > 0; i-- {
		switch x := r.IntN(20); {
		case x < 4 || len(c.Ops) < 2:
			op := core.Op{K: "watch", P: pick(isdir), C: r.IntN(3), E: set()}
			switch r.IntN(8) {
			case 0:
				op.P = fresh()
			case 1:
				op.P = any()
			}
			op.R = fs[op.P] && r.IntN(3) > 0
			c.Ops = append(c.Ops, op)
		case x < 5:
			c.Ops = append(c.Ops, core.Op{K: "stop", C: r.IntN(3)})
		default:
			op := core.Op{K: []string{"create", "create", "write", "extend", "chmod", "mkdir", "mkdir", "rm", "rm", "rename", "rename"}[r.IntN(11)], P: any()}
			switch op.K {
			case "create", "mkdir":
				op.P = fresh()
				if _, ok := fs[op.P]; !ok {
					fs[op.P] = op.K == "mkdir"
				}
			case "write", "extend":
				op.P = pick(func(p string, dir bool) bool { return !dir })
			case "rm":
				d := op.P
				op.P = pick(func(p string, _ bool) bool { return beneath(p, d) })
				empty := true
				for p := range fs {
					empty = empty && (p == op.P || !beneath(p, op.P))
				}
				if empty {
					delete(fs, op.P)
				}
			case "rename":
				if op.Q = fresh(); r.IntN(4) == 0 {
					op.Q = any()
				}
				if beneath(op.Q, op.P) || fs[op.Q] {
					break
				}
				moved := map[string]bool{}
				for p, dir := range fs {
					if beneath(p, op.P) {
						moved[op.Q+p[len(op.P):]] = dir
						delete(fs, p)
					}
				}
				for p, dir := range moved {
					fs[p] = dir
				}
			}
			c.Ops = append(c.Ops, op)
		}
	}
	return c
}

// treeReg is what one channel asked for at one path.
type treeReg struct {
	e     uint32
	rec   bool
	stale bool // its path went away, or was replaced, since
}

type scanTree struct {
	base  string
	tree  kq.XTree
	chans [3]chan kq.EventInfo
	regs  [3]map[string]*treeReg
	order int
	res   *core.Result
	log   []string
}

func (s *scanTree) fail(format string, v ...interface{}) {
	if s.res.Verdict == core.OK {
		s.res.Verdict, s.res.Dirty = core.Violation, true
		s.res.Msg = "kqueue tree: " + fmt.Sprintf(format, v...) + "; " + strings.Join(s.log, ", ")
	}
}

func (s *scanTree) rel(p string) string {
	return strings.TrimPrefix(strings.TrimPrefix(p, s.base), "/")
}

func (s *scanTree) quiet() bool {
	end := time.Now().Add(core.QuiesceTimeout)
	for {
		err := core.Quiesce()
		if err == nil && bsdsys.Idle() {
			return true
		}
		if err == nil && time.Now().After(end) {
			err = fmt.Errorf("notifications are not processed:\n%s", core.AllStacks())
		}
		if err != nil {
			s.res.Verdict, s.res.Msg, s.res.Dirty = core.Hang, err.Error(), true
			return false
		}
		time.Sleep(20 * time.Microsecond)
	}
}

// covers tells whether a registration at p is for events about q.
func (g *treeReg) covers(p, q string) bool {
	return p == q || path.Dir(q) == p || g.rec && strings.HasPrefix(q, p+"/")
}

// held lists the objects that live registrations need to have registered with the kernel.
func (s *scanTree) held() map[string]objID {
	m := map[string]objID{}
	add := func(p string) bool {
		id, dir, ok := lstat(p)
		if ok {
			m[p] = id
		}
		return ok && dir
	}
	var walk func(p string, rec bool)
	walk = func(p string, rec bool) {
		if !add(p) {
			return
		}
		ents, _ := os.ReadDir(p)
		for _, e := range ents {
			if q := p + "/" + e.Name(); rec {
				walk(q, true)
			} else {
				add(q)
			}
		}
	}
	for _, regs := range s.regs {
		for p, g := range regs {
			if !g.stale {
				walk(p, g.rec)
			}
		}
	}
	return m
}

// check compares the registered objects. A registration whose path went away may keep some.
func (s *scanTree) check(when string) {
	if s.res.Verdict != core.OK {
		return
	}
	have := map[string]bool{}
	stale := false
	for _, regs := range s.regs {
		for _, g := range regs {
			stale = stale || g.stale
		}
	}
	want := s.held()
	for _, v := range bsdsys.Vnodes() {
		id, ok := want[v.Path]
		if ok && id == (objID{v.ID.Dev, v.ID.Ino}) {
			have[v.Path] = true
		}
		if !ok && !stale {
			s.fail("%s: %q is registered", when, s.rel(v.Path))
			return
		}
	}
	for p := range want {
		if !have[p] {
			s.fail("%s: %q is not registered", when, s.rel(p))
			return
		}
	}
	if w := bsdsys.Wrong(); len(w) > 0 {
		s.fail("%s: %s", when, w[0])
	}
	s.res.Stats["compared"]++
}

type told struct {
	c    int
	path string
	kind int
}

// change executes one change and compares what the channels are told.
func (s *scanTree) change(op core.Op) {
	p, q := path.Join(s.base, op.P), path.Join(s.base, op.Q)
	id, isdir, ok := lstat(p)
	parent, pdir, pok := lstat(path.Dir(p))
	if !pok || !pdir {
		return
	}
	up := "dir"
	if isdir {
		up = "dirdir"
	}
	must := map[string]uint32{} // bits of events that happened, by path
	may := map[string]uint32{}
	created := ""
	bits := kqBackend.bits
	var inner []string // what is beneath a moved directory
	gone := ""
	done := false
	bsdsys.Hold(func(note func(id bsdsys.ID, b uint32)) {
		tell := func(id objID, what string) { note(bsdsys.ID{Dev: id.dev, Ino: id.ino}, bits[what]) }
		switch op.K {
		case "create", "mkdir":
			if ok {
				return
			}
			var err error
			what := "dir"
			if op.K == "mkdir" {
				err, what = os.Mkdir(p, 0o755), "dirdir"
			} else {
				err = os.WriteFile(p, nil, 0o644)
			}
			if err != nil {
				core.Fatalf("%v", err)
			}
			tell(parent, what)
			created = p
		case "write", "extend":
			if !ok || isdir {
				return
			}
			os.WriteFile(p, []byte("x"), 0o644)
			tell(id, op.K)
			must[p] |= bits[op.K]
		case "chmod":
			if !ok {
				return
			}
			os.Chmod(p, 0o755)
			tell(id, "chmod")
			if isdir {
				may[p] |= bits["chmod"]
			} else {
				must[p] |= bits["chmod"]
			}
		case "rm":
			if !ok || os.Remove(p) != nil {
				return
			}
			if s.order == 0 {
				tell(parent, up)
			}
			tell(id, "remove")
			if s.order == 1 {
				tell(parent, up)
			}
			must[p] |= bits["remove"]
			gone = p
		case "rename":
			to, qdir, qok := lstat(path.Dir(q))
			old, _, exists := lstat(q)
			if !ok || !qok || !qdir || p == q {
				return
			}
			if isdir {
				var walk func(d string)
				walk = func(d string) {
					ents, _ := os.ReadDir(d)
					for _, e := range ents {
						inner = append(inner, d+"/"+e.Name())
						walk(d + "/" + e.Name())
					}
				}
				walk(p)
			}
			// A directory which is not followed itself takes what is watched beneath along
			// without a word.
			for _, regs := range s.regs {
				for w := range regs {
					if strings.HasPrefix(w, p+"/") && s.held()[p] != id {
						return
					}
				}
			}
			if os.Rename(p, q) != nil {
				inner = nil
				return
			}
			if s.order == 1 {
				tell(id, "rename")
			}
			tell(parent, up)
			if to != parent {
				tell(to, up)
			}
			if s.order == 0 {
				tell(id, "rename")
			}
			must[p] |= bits["rename"]
			if exists {
				tell(old, "replaced")
				must[q] |= bits["replaced"]
			}
			gone, created = p, q
		}
		done = true
	})
	if !done {
		return
	}
	s.log = append(s.log, strings.TrimSpace(op.K+" "+op.P+" "+op.Q))
	s.res.Stats["change"]++
	if !s.quiet() {
		return
	}
	lo, hi := map[told]int{}, map[told]int{}
	each := func(p string, b uint32, lower bool) {
		for bit, ks := range kqBackend.kinds {
			if b&bit == 0 {
				continue
			}
			for _, k := range ks {
				for c, regs := range s.regs {
					for w, g := range regs {
						if g.e&(1<<k) == 0 || !g.covers(w, p) {
							continue
						}
						hi[told{c, p, k}]++
						// The other event of a removed directory may come when the tree has
						// forgotten the path.
						if isdir && w == p && kqBackend.names[k] == "NoteDelete" {
							continue
						}
						if lower && !g.stale {
							lo[told{c, p, k}]++
						}
					}
				}
			}
		}
	}
	for p, b := range must {
		each(p, b, true)
	}
	for p, b := range may {
		each(p, b, false)
	}
	for _, i := range inner { // moved with their directory: of either
		each(i, bits["rename"], false)
		each(i, bits["rename"], false)
	}
	if created != "" {
		for c, regs := range s.regs {
			for w, g := range regs {
				if g.e&(1<<xCreate) == 0 || !g.covers(w, created) {
					continue
				}
				t := told{c, created, xCreate}
				hi[t]++
				if w != created && !g.stale {
					lo[t]++
				}
			}
		}
	}
	got := map[told]int{}
	for c, ch := range s.chans {
		for len(ch) > 0 {
			e := <-ch
			k := -1
			for i, x := range kqBackend.events {
				if uint32(e.Event()) == x {
					k = i
				}
			}
			if k < 0 {
				s.fail("channel %d got event %#x of %q", c, uint32(e.Event()), s.rel(e.Path()))
				return
			}
			got[told{c, e.Path(), k}]++
			s.res.Stats["events"]++
		}
	}
	for t, n := range got {
		if n > hi[t] {
			s.fail("channel %d was told %s %q %d times instead of %d", t.c, kqBackend.names[t.kind], s.rel(t.path), n, hi[t])
			return
		}
	}
	for t, n := range lo {
		if got[t] < n {
			s.fail("channel %d was told %s %q %d times instead of %d", t.c, kqBackend.names[t.kind], s.rel(t.path), got[t], n)
			return
		}
	}
	// Registrations at and beneath what went away are for nothing now.
	lose := func(p string) {
		for _, regs := range s.regs {
			for w, g := range regs {
				if w == p || strings.HasPrefix(w, p+"/") {
					g.stale = true
				}
			}
		}
	}
	if gone != "" {
		lose(gone)
	}
	if created != "" {
		lose(created)
	}
	s.check("after " + s.log[len(s.log)-1])
}

func runScanTree(c core.Case) (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	s := &scanTree{base: fmt.Sprintf("%s/x%d", os.Getenv("VH_SCRATCH"), os.Getpid()), order: c.Cfg["order"], res: &res}
	os.RemoveAll(s.base)
	for _, d := range scanDirs {
		if err := os.MkdirAll(s.base+"/"+d, 0o755); err != nil {
			core.Fatalf("%v", err)
		}
	}
	os.WriteFile(s.base+"/a/f", nil, 0o644)
	os.WriteFile(s.base+"/a/s/g", nil, 0o644)
	os.WriteFile(s.base+"/ab/f", nil, 0o644)
	defer os.RemoveAll(s.base)
	bsdsys.Reset(nil)
	defer bsdsys.Reset(nil)
	s.tree = kq.XNewTree()
	for i := range s.chans {
		s.chans[i], s.regs[i] = make(chan kq.EventInfo, 4096), map[string]*treeReg{}
	}
	for _, op := range c.Ops {
		if res.Verdict != core.OK {
			return
		}
		op.C %= len(s.chans)
		p := path.Join(s.base, op.P)
		switch op.K {
		case "watch":
			_, dir, ok := lstat(p)
			if op.E &= 1<<len(kqBackend.events) - 1; op.E == 0 || op.R && !dir {
				continue
			}
			// A path which went away while it was registered is not registered again.
			skip := false
			for _, regs := range s.regs {
				for w, g := range regs {
					skip = skip || g.stale && (w == p || strings.HasPrefix(w, p+"/") || strings.HasPrefix(p, w+"/"))
				}
			}
			if skip {
				continue
			}
			var e kq.Event
			var names []string
			for i, x := range kqBackend.events {
				if op.E&(1<<i) != 0 {
					e |= kq.Event(x)
					names = append(names, kqBackend.names[i])
				}
			}
			arg := p
			if op.R {
				arg += "/..."
			}
			s.log = append(s.log, fmt.Sprintf("Watch(%q, c%d, %s)", s.rel(arg), op.C, strings.Join(names, "|")))
			err := s.tree.Watch(arg, s.chans[op.C], e)
			switch {
			case err == nil && !ok:
				s.fail("Watch succeeded")
			case err != nil && ok:
				s.fail("Watch: %v", err)
			}
			if ok {
				g := s.regs[op.C][p]
				if g == nil {
					g = &treeReg{}
					s.regs[op.C][p] = g
				}
				g.e, g.rec = g.e|op.E, g.rec || op.R
			}
			res.Stats["watch"]++
		case "stop":
			s.log = append(s.log, fmt.Sprintf("Stop(c%d)", op.C))
			s.tree.Stop(s.chans[op.C])
			s.regs[op.C] = map[string]*treeReg{}
		default:
			s.change(op)
			continue
		}
		if !s.quiet() {
			return
		}
		for i, ch := range s.chans {
			if len(ch) > 0 {
				e := <-ch
				s.fail("channel %d got %v of %q", i, e.Event(), s.rel(e.Path()))
			}
		}
		s.check("after " + s.log[len(s.log)-1])
	}
	for i, ch := range s.chans {
		s.tree.Stop(ch)
		s.regs[i] = map[string]*treeReg{}
	}
	if s.quiet() {
		s.log = append(s.log, "Stop of all")
		s.check("at the end")
	}
	s.tree.Close()
	res.Nontrivial = res.Stats["events"] > 2 && res.Stats["watch"] > 1
	return
}

func init() {
	add(5, core.Engine{Name: "kqueue-tree", Gen: genScanTree, Run: runScanTree, Count: only("C15", 10000, 400000)})
}
