package e2e

// C06: two equivalent histories of Watch and Stop calls on two copies of a tree.

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"

	"vh/core"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

type regKey struct {
	c   int
	p   string
	rec bool
}

// genPairs makes: tree operations, history A (S="a"), history B (S="b"), common changes.
func genPairs(prop, tier string, r *rand.Rand) core.Case {
	g := &gen{r: r, fs: NewFS(""), p: profile{oddPct: 10, deep: 5, evmode: r.IntN(3)}}
	g.do(core.Op{K: "mkdir", P: "r"})
	for i := 2 + r.IntN(7); i > 0; i-- {
		if x := g.newPath(); x != "" {
			g.do(core.Op{K: "mkdir", P: x})
		}
	}
	for i := r.IntN(5); i > 0; i-- {
		if x := g.newPath(); x != "" {
			g.do(core.Op{K: "create", P: x, N: 1})
		}
	}
	nch := 2 + r.IntN(4) // channels with registrations at the end; two more come and go
	randReg := func() (regKey, bool) {
		o := g.pick(func(o *obj) bool {
			return !o.link && (o.dir || r.IntN(3) == 0) && depth(o) >= 1 && (o.dir || !strings.HasSuffix(o.name, "..."))
		})
		if o == nil {
			return regKey{}, false
		}
		return regKey{p: g.tok(o), rec: o.dir && r.IntN(2) == 0}, true
	}
	final := map[regKey]uint32{}
	var order []regKey
	for i := 1 + r.IntN(7); i > 0; i-- {
		k, ok := randReg()
		if !ok {
			continue
		}
		k.c = r.IntN(nch)
		if _, dup := final[k]; !dup {
			order = append(order, k)
		}
		final[k] |= g.events()
	}
	base := len(g.ops)
	history := func(tag string, messy bool) {
		w := func(k regKey, e uint32) core.Op {
			return core.Op{K: "watch", S: tag, C: k.c, P: k.p, R: k.rec, E: e}
		}
		perChan := map[int][]core.Op{}
		for _, k := range order {
			e := final[k]
			parts := []uint32{e}
			for n := r.IntN(4); messy && n > 0; n-- { // split, overlapping
				x := uint32(r.IntN(1<<16)) & e
				if x != 0 {
					parts = append(parts, x)
				}
			}
			if len(parts) > 1 && r.IntN(2) == 0 {
				// the parts alone make up the whole
				var u uint32
				for _, x := range parts[1:] {
					u |= x
				}
				if u != e {
					parts = append(parts, e&^u)
				}
				parts = parts[1:]
			}
			for _, x := range parts {
				perChan[k.c] = append(perChan[k.c], w(k, x))
			}
		}
		var seqs [][]core.Op
		cs := []int{}
		for c := range perChan {
			cs = append(cs, c)
		}
		sort.Ints(cs)
		for _, c := range cs {
			ops := perChan[c]
			if messy {
				r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
			}
			var pre []core.Op
			if messy && r.IntN(3) == 0 { // something else before, then Stop
				for n := 1 + r.IntN(3); n > 0; n-- {
					if k, ok := randReg(); ok {
						k.c = c
						pre = append(pre, w(k, g.events()))
					}
				}
				pre = append(pre, core.Op{K: "stop", S: tag, C: c})
			}
			seqs = append(seqs, append(pre, ops...))
		}
		if messy {
			for c := nch; c < nch+2; c++ {
				var s []core.Op
				for n := r.IntN(4); n > 0; n-- {
					if k, ok := randReg(); ok {
						k.c = c
						s = append(s, w(k, g.events()))
					}
				}
				s = append(s, core.Op{K: "stop", S: tag, C: c})
				seqs = append(seqs, s)
			}
		}
		for len(seqs) > 0 {
			i := 0
			if messy {
				i = r.IntN(len(seqs))
			}
			if len(seqs[i]) == 0 {
				seqs = append(seqs[:i], seqs[i+1:]...)
				continue
			}
			g.ops = append(g.ops, seqs[i][0])
			seqs[i] = seqs[i][1:]
			if messy && r.IntN(12) == 0 && len(order) > 0 {
				// nothing asked for
				k := order[r.IntN(len(order))]
				g.ops = append(g.ops, core.Op{K: "nop", S: tag, C: r.IntN(nch), P: k.p, R: k.rec})
			}
		}
	}
	history("a", r.IntN(2) == 0)
	history("b", true)
	_ = base
	g.ops = append(g.ops, core.Op{K: "compare"})
	g.p.nch = nch
	for i := 4 + r.IntN(12); i > 0; i-- {
		switch r.IntN(8) {
		case 0, 1:
			n := len(g.ops)
			g.strucOp()
			for i := n; i < len(g.ops); i++ { // no yields, no stage
				if g.ops[i].K == "yield" {
					g.ops = append(g.ops[:i], g.ops[i+1:]...)
					i--
				}
			}
		case 2:
			g.ops = append(g.ops, core.Op{K: "stop", C: r.IntN(nch)}, core.Op{K: "compare"})
		case 3:
			if k, ok := randReg(); ok {
				g.ops = append(g.ops, core.Op{K: "watch", C: r.IntN(nch + 2), P: k.p, R: k.rec, E: g.events()}, core.Op{K: "compare"})
			}
		default:
			g.fileOp()
		}
	}
	g.ops = append(g.ops, core.Op{K: "compare"})
	cfg := map[string]int{"nch": nch + 2}
	deepBase(r, cfg)
	return core.Case{Ops: g.ops, Cfg: cfg}
}

func runPairs(c core.Case) (res core.Result) {
	res.Verdict = core.OK
	nch := max(1, c.Cfg["nch"])
	a, b := newRun(nch, c.Cfg), newRun(nch, c.Cfg)
	sides := []*run{a, b}
	defer a.cleanup()
	defer b.cleanup()
	// A directory that disappears leaves registrations behind whose state is not determined;
	// such cases end when a registered path goes (see C05).
	res.Stats = map[string]int{}
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Msg, res.Dirty = core.Violation, fmt.Sprintf(format, v...), true
		}
	}
	hang := func(err error) {
		res.Verdict, res.Msg = core.Hang, err.Error()
	}
	live := map[int]map[string]regKey{}
	protect := func(p string) bool { // p or something below is registered
		for _, m := range live {
			for _, k := range m {
				if k.p == p || strings.HasPrefix(k.p, p+"/") {
					return true
				}
			}
		}
		return false
	}
	compared := 0
	type dk struct {
		c    int
		path string
		kind int
	}
	// skip are notifications about a directory itself, which compete with what the library
	// does because of those its parent gets.
	var skip uint32
	deliveries := func() {
		if err := core.Quiesce(); err != nil {
			hang(err)
			return
		}
		var got [2]map[dk]int
		for i, s := range sides {
			got[i] = map[dk]int{}
			for ch := range s.chans {
				for _, e := range s.drain(ch) {
					k := kindIndex(e.Event())
					p := e.Path()
					if k >= 0 && skip&rawBits[k] != 0 {
						continue
					}
					if k >= 0 && rawBits[k]&dirNoise != 0 && s.noisy(p) {
						continue
					}
					if !strings.HasPrefix(p, s.base) {
						fail("event outside: %q", p)
					}
					got[i][dk{ch, p[len(s.base):], k}]++
					res.Stats["event"]++
				}
			}
		}
		for i := range got {
			for k, n := range got[i] {
				if got[1-i][k] != n {
					name := "?"
					if k.kind >= 0 {
						name = KindNames[k.kind]
					}
					fail("after op %d: channel %d got %s %q %d times after history %c, %d times after the other", a.opNo, k.c, name, k.path, n, 'A'+i, got[1-i][k])
					return
				}
			}
		}
	}
	tables := func() {
		var tab [2]map[string]uint32
		for i := range tab {
			tab[i] = map[string]uint32{}
		}
		for _, w := range core.KernelWatches() {
			found := false
			for i, s := range sides {
				if o := s.byIno[w.Ino]; o != nil {
					found = true
					p := strings.TrimPrefix(o.path(), s.base)
					if o.gone {
						p += " (gone)"
					}
					tab[i][p] = w.Mask & unix.IN_ALL_EVENTS
				}
			}
			if !found {
				fail("after op %d: kernel watch on unknown inode", a.opNo)
			}
		}
		compared++
		for i := range tab {
			for p, m := range tab[i] {
				if x, ok := tab[1-i][p]; !ok || x != m {
					fail("after op %d: OS watch on %q is %#x after history %c, %#x (present=%v) after the other", a.opNo, p, m, 'A'+i, x, ok)
					return
				}
			}
		}
		res.Stats["oswatches"] += len(tab[0])
	}
	inHistory := true
	var regs [2]map[regKey]uint32
	for i := range regs {
		regs[i] = map[regKey]uint32{}
	}
	for i, op := range c.Ops {
		a.opNo = i
		ss := sides
		switch op.S {
		case "a":
			ss = sides[:1]
		case "b":
			ss = sides[1:]
		}
		switch op.K {
		case "watch", "nop":
			for i, s := range sides {
				if op.S == "a" && i == 1 || op.S == "b" && i == 0 {
					continue
				}
				o, _, _ := s.fs.lookup(op.P)
				if o == nil || o.link || op.R && !o.dir || op.C < 0 || op.C >= nch {
					continue
				}
				var ev []notify.Event
				if op.K == "watch" {
					if op.E&AllKinds == 0 {
						continue
					}
					ev = Args(op)
					regs[i][regKey{op.C, op.P, op.R}] |= op.E & AllKinds
				}
				if err := notify.Watch(spell(o.path(), op.R), s.chans[op.C], ev...); err != nil {
					fail("Watch(%q) failed: %v", op.P, err)
				}
				res.Stats["watch"]++
			}
			if live[op.C] == nil {
				live[op.C] = map[string]regKey{}
			}
			live[op.C][op.P] = regKey{p: op.P}
		case "stop":
			if op.C < 0 || op.C >= nch {
				continue
			}
			for i, s := range sides {
				if op.S == "a" && i == 1 || op.S == "b" && i == 0 {
					continue
				}
				notify.Stop(s.chans[op.C])
				res.Stats["stop"]++
				for k := range regs[i] {
					if k.c == op.C {
						delete(regs[i], k)
					}
				}
			}
			if op.S == "" {
				delete(live, op.C)
			}
		case "compare":
			if inHistory {
				inHistory = false
				if !reflect.DeepEqual(regs[0], regs[1]) {
					res.Stats["inequivalent"]++ // after shrinking
					for _, s := range sides {
						for _, ch := range s.chans {
							notify.Stop(ch)
						}
					}
					return res
				}
				res.Stats["equivalent"]++
			}
			deliveries()
			tables()
		default:
			switch op.K {
			case "unlink", "rmdir", "removeall", "rename":
				if protect(op.P) || op.Q != "" && protect(op.Q) {
					continue
				}
			}
			for _, op := range expand(a, op) {
				o, _, _ := a.fs.lookup(op.P)
				if o != nil && o.dir {
					switch op.K {
					case "rename":
						skip = unix.IN_MOVE_SELF
					case "rmdir":
						skip = unix.IN_DELETE_SELF
					}
				}
				ok := false
				for _, s := range ss {
					ok = s.apply(op)
					s.must, s.notes, s.count = nil, nil, nil
				}
				if ok {
					res.Stats["fsop"]++
				}
				deliveries()
				skip = 0
			}
		}
		if res.Verdict != core.OK {
			break
		}
	}
	for _, s := range sides {
		for _, ch := range s.chans {
			notify.Stop(ch)
		}
	}
	if res.Verdict == core.OK {
		deliveries()
		if n := len(core.KernelWatches()); n > 0 {
			fail("%d OS watches are left when all channels are stopped", n)
		}
	}
	res.Nontrivial = res.Stats["watch"] > 3 && compared > 0 && res.Stats["event"] > 0
	return res
}

// expand gives the single steps of an operation.
func expand(r *run, op core.Op) (ops []core.Op) {
	switch op.K {
	case "mkdirall":
		parts := strings.Split(op.P, "/")
		for i := range parts {
			ops = append(ops, core.Op{K: "mkdir", P: strings.Join(parts[:i+1], "/")})
		}
	case "removeall":
		var rec func(o *obj, tok string)
		rec = func(o *obj, tok string) {
			for _, k := range sortedKids(o) {
				rec(k, tok+"/"+untok(k.name))
			}
			if o.dir {
				ops = append(ops, core.Op{K: "rmdir", P: tok})
			} else {
				ops = append(ops, core.Op{K: "unlink", P: tok})
			}
		}
		if o, par, _ := r.fs.lookup(op.P); o != nil && par != nil {
			rec(o, op.P)
		}
	default:
		ops = append(ops, op)
	}
	return
}
