package e2e

// C07: Watch calls that fail.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"

	"vh/core"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

// Bits no backend of this platform supports. IN_ONLYDIR and IN_DONT_FOLLOW are left out:
// they are the library's internal flags (BUG #71).
var badBits = []uint32{0x2000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x04000000, 0x20000000, 0x40000000, 0x80000000}

const nobody = 65534

// asNobody runs fn without the privilege to read everything.
func asNobody(fn func()) {
	if os.Geteuid() != 0 {
		fn()
		return
	}
	must(syscall.Setresuid(-1, nobody, -1))
	fn()
	must(syscall.Setresuid(-1, 0, -1))
	unix.Prctl(unix.PR_SET_DUMPABLE, 1, 0, 0, 0)
}

// withoutFDs runs fn while no descriptor can be opened.
func withoutFDs(fn func()) {
	var old unix.Rlimit
	must(unix.Getrlimit(unix.RLIMIT_NOFILE, &old))
	lim := unix.Rlimit{Cur: 0, Max: old.Max}
	must(unix.Setrlimit(unix.RLIMIT_NOFILE, &lim))
	fn()
	must(unix.Setrlimit(unix.RLIMIT_NOFILE, &old))
}

// snapshot is the kernel's watch list by inode, without watches that objects took along
// when they were renamed and those at paths where something else was registered.
func (r *run) snapshot() []string {
	var s []string
	for _, w := range core.KernelWatches() {
		if o := r.byIno[w.Ino]; o != nil && (len(o.ever) > 1 || o.gone || r.tainted(o.path())) {
			continue
		}
		s = append(s, fmt.Sprintf("%x/%x/%d:%x", w.Dev, w.Ino, w.FD, w.Mask&unix.IN_ALL_EVENTS))
	}
	sort.Strings(s)
	return s
}

// badWatch makes a Watch call that is likely to fail. If it fails, nothing may have
// changed; if it does not, it must be in effect.
func (r *run) badWatch(op core.Op) (bool, error) {
	if op.C < 0 || op.C >= len(r.chans) || op.E&AllKinds == 0 {
		return false, nil
	}
	if err := r.sync(); err != nil || r.fail != "" {
		return true, err
	}
	o, par, name := r.fs.lookup(op.P)
	ev := Events(op.E)
	p := ""
	var target *obj // what it means if it succeeds
	mustFail := false
	wrap := func(fn func()) { fn() }
	if o != nil {
		if o.link || strings.HasSuffix(o.name, "...") && !o.dir {
			return false, nil
		}
		p, target = o.path(), o
	}
	side := r.base + ".side"
	switch op.S {
	case "missing":
		if o != nil || par == nil {
			return false, nil
		}
		p, mustFail = par.path()+"/"+name, true
	case "below": // beneath something that does not exist, or beneath a file
		if o != nil && o.dir || par == nil {
			return false, nil
		}
		p, target, mustFail = par.path()+"/"+name+"/x/y", nil, true
	case "dangling", "cycle":
		must(os.MkdirAll(side, 0o755))
		p, target, mustFail = side+"/l", nil, true
		to := "nowhere"
		if op.S == "cycle" {
			to = "../" + strings.TrimPrefix(side, r.base[:strings.LastIndex(r.base, "/")+1]) + "/l/x"
		}
		must(unix.Symlink(to, p))
		defer os.RemoveAll(side)
	case "recfile":
		if o == nil || o.dir {
			return false, nil
		}
		op.R = true
	case "bits":
		if o == nil || op.R && !o.dir || op.N < 0 {
			return false, nil
		}
		ev = append(ev, notify.Event(badBits[op.N%len(badBits)]))
		if op.N >= len(badBits) { // the bad one alone or first
			ev[0], ev[len(ev)-1] = ev[len(ev)-1], ev[0]
			ev = ev[:1+(op.N/len(badBits))%len(ev)]
		}
		mustFail = true
	case "unread":
		u, _, _ := r.fs.lookup(op.Q)
		if o == nil || u == nil || u.link || op.R && !o.dir || u.parent == nil || os.Geteuid() != 0 {
			return false, nil
		}
		if !r.apply(core.Op{K: "chmod", P: op.Q}) {
			return false, nil
		}
		e, _ := r.fs.attrib(op.Q)
		must(unix.Chmod(u.path(), 0))
		r.settleEffect(e)
		if err := r.sync(); err != nil || r.fail != "" {
			return true, err
		}
		wrap = asNobody
	case "nofile":
		if o == nil || op.R && !o.dir {
			return false, nil
		}
		wrap = withoutFDs
	default:
		return false, nil
	}
	before := r.snapshot()
	var err error
	wrap(func() { err = notify.Watch(spell(p, op.R), r.chans[op.C], ev...) })
	r.stats["badwatch"]++
	if e := core.Quiesce(); e != nil {
		return true, e
	}
	if err != nil {
		r.stats["rejected"]++
		r.stats["rejected-"+op.S]++
		if after := r.snapshot(); strings.Join(before, " ") != strings.Join(after, " ") {
			r.violate("Watch(%q, rec=%v, %v) [%s] failed (%v), but the OS watches changed:\n %v\n %v", r.rel(p), op.R, ev, op.S, err, before, after)
		}
	} else if mustFail {
		r.violate("Watch(%q, rec=%v, %v) [%s] did not fail", r.rel(p), op.R, ev, op.S)
	} else {
		r.stats["accepted"]++
		r.registered(core.Op{C: op.C, E: op.E, R: op.R}, target)
	}
	if op.S == "unread" {
		r.apply(core.Op{K: "chmod", P: op.Q})
	}
	return true, r.sync()
}

var badKinds = []string{"missing", "below", "dangling", "cycle", "recfile", "bits", "bits", "unread", "unread", "nofile"}

// badOp generates a failing Watch call.
func (g *gen) badOp() {
	r := g.r
	op := core.Op{K: "badwatch", S: badKinds[r.IntN(len(badKinds))], C: r.IntN(g.p.nch), E: g.events(), R: r.IntN(2) == 0}
	any := func() *obj { return g.pick(func(o *obj) bool { return o.parent != nil && !o.link }) }
	var o *obj
	if len(g.watched) > 0 && r.IntN(3) > 0 {
		o, _, _ = g.fs.lookup(g.watched[r.IntN(len(g.watched))])
	}
	if o == nil || o.link || o.parent == nil {
		o = any()
	}
	if o == nil {
		return
	}
	switch op.S {
	case "missing":
		op.P = g.newPath()
		if o.dir && r.IntN(2) == 0 && o.kids["e"] == nil {
			op.P = g.tok(o) + "/e"
		}
	case "below":
		op.P = g.newPath()
		if !o.dir {
			op.P = g.tok(o)
		}
	case "recfile":
		if o = g.pick(isFile); o == nil {
			return
		}
		op.P = g.tok(o)
	case "unread":
		op.P, op.Q = g.tok(o), g.tok(o)
		if o.dir && r.IntN(2) == 0 {
			op.R = true
			var sub []*obj
			o.walk(func(d *obj) {
				if d.dir {
					sub = append(sub, d)
				}
			})
			op.Q = g.tok(sub[r.IntN(len(sub))])
		}
		op.R = op.R && o.dir
	case "bits":
		op.P, op.N = g.tok(o), r.IntN(4*len(badBits))
		op.R = op.R && o.dir
	default:
		op.P = g.tok(o)
		op.R = op.R && o.dir
	}
	if op.P != "" {
		g.ops = append(g.ops, op)
	}
}
