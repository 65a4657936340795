package e2e

import (
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"

	"vh/core"
)

// profile steers the generator.
type profile struct {
	nch                                              int
	ops                                              int
	watch, stop, file, struc, sync, probe, yield, rd int // weights
	recPct                                           int
	initDirs, initFiles                              int
	oddPct                                           int
	deep                                             int
	evmode                                           int // 0 mixed, 1 generic only, 2 few
	endProbe                                         bool
	crowds                                           bool // now and then many channels
	bad                                              int
}

var names = []string{"a", "b", "ab", "a.b", "c", "d", "a-", "e"}
var oddToks = func() (t []string) {
	for k := range oddNames {
		t = append(t, k)
	}
	sort.Strings(t)
	return
}()

type gen struct {
	r   *rand.Rand
	fs  *FS
	p   profile
	ops []core.Op
	// live registrations, for choosing related paths
	watched []string
}

func (g *gen) tok(o *obj) string {
	var parts []string
	for ; o.parent != nil; o = o.parent {
		parts = append([]string{untok(o.name)}, parts...)
	}
	return strings.Join(parts, "/")
}

func (g *gen) all(fn func(o *obj) bool) (os []*obj) {
	g.fs.root.walk(func(o *obj) {
		if fn(o) {
			os = append(os, o)
		}
	})
	return
}

func (g *gen) pick(fn func(o *obj) bool) *obj {
	os := g.all(fn)
	if len(os) == 0 {
		return nil
	}
	return os[g.r.IntN(len(os))]
}

func depth(o *obj) (n int) {
	for ; o.parent != nil; o = o.parent {
		n++
	}
	return
}

func (g *gen) name() string {
	if g.r.IntN(100) < g.p.oddPct {
		return oddToks[g.r.IntN(len(oddToks))]
	}
	return names[g.r.IntN(len(names))]
}

func isDir(o *obj) bool  { return o.dir }
func isFile(o *obj) bool { return !o.dir && !o.link }

// newPath is a path that may be created.
func (g *gen) newPath() string {
	for i := 0; i < 10; i++ {
		d := g.pick(func(o *obj) bool { return o.dir && o.parent != nil && depth(o) < g.p.deep })
		if d == nil {
			return ""
		}
		n := g.name()
		if d.kids[Tok(n)] == nil {
			return g.tok(d) + "/" + n
		}
	}
	return ""
}

func (g *gen) do(op core.Op) bool {
	ok := true
	switch op.K {
	case "create":
		_, ok = g.fs.create(op.P, op.N)
	case "mkdir":
		_, ok = g.fs.mkdir(op.P)
	case "symlink":
		_, ok = g.fs.symlink(op.P)
	case "unlink":
		_, ok = g.fs.remove(op.P, false)
	case "rmdir":
		_, ok = g.fs.remove(op.P, true)
	case "rename":
		_, ok = g.fs.rename(op.P, op.Q)
	case "write":
		_, ok = g.fs.write(op.P, op.N)
	case "trunc":
		_, ok = g.fs.trunc(op.P, op.N)
	case "mkdirall":
		parts := strings.Split(op.P, "/")
		for i := range parts {
			g.fs.mkdir(strings.Join(parts[:i+1], "/"))
		}
	case "removeall":
		o, par, _ := g.fs.lookup(op.P)
		if o == nil || par == nil {
			return false
		}
		g.fs.drop(o)
	}
	if ok {
		g.ops = append(g.ops, op)
	}
	return ok
}

func (g *gen) events() uint32 {
	r := g.r
	switch g.p.evmode {
	case 1:
		return uint32(1 + r.IntN(15))
	case 2:
		return []uint32{1, 2, 4, 8, 3, 15, 9, 5}[r.IntN(8)]
	}
	switch r.IntN(8) {
	case 0:
		return 15
	case 1:
		return 1 << r.IntN(4)
	case 2:
		return uint32(1 + r.IntN(15))
	case 3:
		return 1 << (4 + r.IntN(12))
	case 4:
		return uint32(r.IntN(1<<16) | 1<<r.IntN(16))
	case 5:
		return uint32(r.IntN(1<<16)&r.IntN(1<<16) | 1<<r.IntN(16))
	case 6:
		return AllKinds
	default:
		// a generic kind together with one of its own parts
		k := r.IntN(4)
		e := uint32(1 << k)
		for j := 4; j < 16; j++ {
			if rawBits[j]&rawBits[k] != 0 && r.IntN(2) == 0 {
				e |= 1 << j
			}
		}
		return e
	}
}

func (g *gen) watchOp() {
	rec := g.r.IntN(100) < g.p.recPct
	var o *obj
	// Prefer paths related to earlier registrations.
	if len(g.watched) > 0 && g.r.IntN(3) == 0 {
		o, _, _ = g.fs.lookup(g.watched[g.r.IntN(len(g.watched))])
		if o != nil {
			switch g.r.IntN(4) {
			case 0:
				if o.parent != nil && o.parent.parent != nil {
					o = o.parent
				}
			case 1:
				for _, k := range sortedKids(o) {
					if g.r.IntN(2) == 0 {
						o = k
						break
					}
				}
			}
		}
	}
	if o == nil {
		o = g.pick(func(o *obj) bool { return (o.dir || !o.link && g.r.IntN(2) == 0) && depth(o) >= 1 })
		if g.r.IntN(12) == 0 {
			o = g.fs.root
		}
	}
	if o == nil || o.link {
		return
	}
	if !o.dir {
		rec = false
	}
	t := g.tok(o)
	g.watched = append(g.watched, t)
	g.do(core.Op{K: "watch", C: g.r.IntN(g.p.nch), P: t, R: rec, E: g.events()})
}

func sortedKids(o *obj) (ks []*obj) {
	ns := []string{}
	for n := range o.kids {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		ks = append(ks, o.kids[n])
	}
	return
}

func (g *gen) fileOp() {
	r := g.r
	f := g.pick(isFile)
	if f == nil || r.IntN(5) == 0 {
		if p := g.newPath(); p != "" {
			g.do(core.Op{K: "create", P: p, N: r.IntN(3)})
		}
		return
	}
	t := g.tok(f)
	if r.IntN(25) == 0 { // comes and goes
		if p := g.newPath(); p != "" {
			for n := 2 + r.IntN(3); n > 0; n-- {
				g.do(core.Op{K: "create", P: p})
				g.do(core.Op{K: "unlink", P: p})
			}
			return
		}
	}
	switch r.IntN(10) {
	case 0, 1, 2:
		g.do(core.Op{K: "write", P: t, N: 1 + r.IntN(5)})
	case 3:
		g.do(core.Op{K: "read", P: t})
	case 4:
		g.do(core.Op{K: "trunc", P: t, N: r.IntN(4)})
	case 5:
		if d := g.pick(func(o *obj) bool { return o.parent != nil && !o.link }); d != nil {
			g.do(core.Op{K: "chmod", P: g.tok(d), N: r.IntN(2)})
		}
	case 6:
		if d := g.pick(func(o *obj) bool { return o.parent != nil && !o.link }); d != nil {
			g.do(core.Op{K: "touch", P: g.tok(d), N: r.IntN(9)})
		}
	case 7:
		g.do(core.Op{K: "unlink", P: t})
	case 8:
		q := g.newPath()
		if r.IntN(3) == 0 {
			if x := g.pick(isFile); x != nil {
				q = g.tok(x)
			}
		}
		if q != "" {
			g.do(core.Op{K: "rename", P: t, Q: q})
		}
	case 9:
		if r.IntN(2) == 0 {
			if p := g.newPath(); p != "" {
				g.do(core.Op{K: "symlink", P: p, Q: names[r.IntN(len(names))]})
			}
		} else if l := g.pick(func(o *obj) bool { return o.link }); l != nil {
			g.do(core.Op{K: "unlink", P: g.tok(l)})
		}
	}
}

func (g *gen) strucOp() {
	r := g.r
	deepdir := func() *obj { return g.pick(func(o *obj) bool { return o.dir && depth(o) >= 2 }) }
	switch r.IntN(9) {
	case 0, 1:
		if p := g.newPath(); p != "" {
			g.do(core.Op{K: "mkdir", P: p})
		}
	case 2:
		if p := g.newPath(); p != "" {
			for n := r.IntN(3); n >= 0; n-- {
				p += "/" + g.name()
			}
			g.do(core.Op{K: "mkdirall", P: p})
		}
	case 3:
		if d := deepdir(); d != nil {
			g.do(core.Op{K: "removeall", P: g.tok(d)})
		}
	case 4:
		if d := g.pick(func(o *obj) bool { return o.dir && depth(o) >= 2 && len(o.kids) == 0 }); d != nil {
			g.do(core.Op{K: "rmdir", P: g.tok(d)})
		}
	case 5, 6:
		d := deepdir()
		q := g.newPath()
		if r.IntN(6) == 0 {
			if x := g.pick(func(o *obj) bool { return o.dir && depth(o) >= 2 && len(o.kids) == 0 }); x != nil {
				q = g.tok(x)
			}
		}
		if d != nil && q != "" {
			g.do(core.Op{K: "rename", P: g.tok(d), Q: q})
		}
	case 7: // remove and create again
		if d := deepdir(); d != nil {
			t := g.tok(d)
			kids := []string{}
			d.walk(func(o *obj) {
				if o.dir && len(kids) < 4 {
					kids = append(kids, g.tok(o))
				}
			})
			if r.IntN(4) == 0 {
				if q := g.newPath(); q != "" && !strings.HasPrefix(q, t+"/") {
					g.do(core.Op{K: "rename", P: t, Q: q})
				}
			} else {
				g.do(core.Op{K: "removeall", P: t})
			}
			if r.IntN(3) == 0 {
				g.do(core.Op{K: "yield", N: r.IntN(400)})
			}
			for _, k := range kids {
				g.do(core.Op{K: "mkdir", P: k})
			}
		}
	case 8: // build in the stage and move in
		n := g.name()
		if s, _, _ := g.fs.lookup("s"); s != nil && s.kids[Tok(n)] == nil {
			p := "s/" + n
			for k := r.IntN(3); k >= 0; k-- {
				g.do(core.Op{K: "mkdirall", P: p + "/" + g.name() + "/" + g.name()})
			}
			if q := g.newPath(); q != "" && !strings.HasPrefix(q, p+"/") {
				g.do(core.Op{K: "rename", P: p, Q: q})
			}
		}
	}
}

// scaleOp makes a directory with many entries or a deep one, in place or to be moved in.
func (g *gen) scaleOp() {
	r := g.r
	p, q := g.newPath(), ""
	if p == "" {
		return
	}
	if n := "s/big"; r.IntN(2) == 0 && g.fs.root.kids["s"] != nil && g.fs.root.kids["s"].kids["big"] == nil {
		p, q = n, p
	}
	g.do(core.Op{K: "mkdir", P: p})
	if n := 8 << r.IntN(6); r.IntN(2) == 0 {
		t := p
		for i := 0; i < n; i++ {
			t += "/" + names[r.IntN(3)]
		}
		g.do(core.Op{K: "mkdirall", P: t})
	} else {
		for i := 0; i < 3*n; i++ {
			t := p + "/n" + strconv.Itoa(i)
			if r.IntN(4) == 0 {
				g.do(core.Op{K: "create", P: t})
			} else {
				g.do(core.Op{K: "mkdir", P: t})
			}
		}
	}
	if q != "" {
		g.do(core.Op{K: "rename", P: p, Q: q})
	}
}

func (g *gen) readdirOp() {
	if d := g.pick(isDir); d != nil {
		g.do(core.Op{K: "readdir", P: g.tok(d)})
	}
}

// history fills g.ops.
func history(r *rand.Rand, p profile) core.Case {
	crowd := 0
	if p.crowds && r.IntN(40) == 0 {
		crowd = []int{10, 20, 40, 70}[r.IntN(4)]
		p.nch = crowd
	}
	g := &gen{r: r, fs: NewFS(""), p: p}
	g.do(core.Op{K: "mkdir", P: "r"})
	g.do(core.Op{K: "mkdir", P: "s"})
	for i := 0; i < p.initDirs; i++ {
		if x := g.newPath(); x != "" {
			g.do(core.Op{K: "mkdir", P: x})
		}
	}
	for i := 0; i < p.initFiles; i++ {
		if x := g.newPath(); x != "" {
			g.do(core.Op{K: "create", P: x, N: 1})
		}
	}
	for i := 0; i < 1+r.IntN(3); i++ {
		g.watchOp()
	}
	// Many channels, a few paths.
	for few := len(g.watched); crowd > 0 && few > 0; crowd-- {
		t := g.watched[r.IntN(few)]
		if o, _, _ := g.fs.lookup(t); o != nil {
			g.do(core.Op{K: "watch", C: crowd - 1, P: t, R: o.dir && r.IntN(2) == 0, E: g.events()})
			p.ops++
		}
	}
	w := []int{p.watch, p.stop, p.file, p.struc, p.sync, p.probe, p.yield, p.rd, p.bad}
	tot := 0
	for _, x := range w {
		tot += x
	}
	tries, scale := 0, -1
	if r.IntN(30) == 0 {
		scale = r.IntN(p.ops)
	}
	for len(g.ops) < p.ops {
		if scale >= 0 && len(g.ops) >= scale {
			n := len(g.ops)
			g.scaleOp()
			p.ops += len(g.ops) - n
			scale = -1
			continue
		}
		x, i := r.IntN(tot), 0
		for x >= w[i] {
			x -= w[i]
			i++
		}
		switch i {
		case 0:
			g.watchOp()
		case 1:
			g.do(core.Op{K: "stop", C: r.IntN(p.nch)})
		case 2:
			g.fileOp()
		case 3:
			g.strucOp()
		case 4:
			g.do(core.Op{K: "sync"})
		case 5:
			g.do(core.Op{K: "probe"})
		case 6:
			if r.IntN(3) == 0 {
				g.do(core.Op{K: "signal"})
				break
			}
			g.do(core.Op{K: "yield", N: r.IntN(300)})
		case 7:
			g.readdirOp()
		case 8:
			g.badOp()
		}
		if tries++; tries > 10*p.ops {
			break
		}
	}
	if p.endProbe {
		g.do(core.Op{K: "probe"})
	}
	g.do(core.Op{K: "sync"})
	cfg := map[string]int{"nch": p.nch}
	if r.IntN(4) == 0 {
		cfg["p1"] = 1
	}
	deepBase(r, cfg)
	return core.Case{Ops: g.ops, Cfg: cfg}
}

// Simplify proposes cases with fewer events and plainer names.
func Simplify(c core.Case) []core.Case {
	var out []core.Case
	if c.Cfg["p1"] > 0 {
		x := c.Clone()
		x.Cfg["p1"] = 0
		out = append(out, x)
	}
	if c.Cfg["deep"] > 0 {
		x := c.Clone()
		x.Cfg["deep"] = 0
		out = append(out, x)
	}
	for i, op := range c.Ops {
		if op.K == "watch" {
			for b := 0; b < 16; b++ {
				if op.E&(1<<b) != 0 && op.E != 1<<b {
					x := c.Clone()
					x.Ops[i].E &^= 1 << b
					out = append(out, x)
				}
			}
			if op.R {
				x := c.Clone()
				x.Ops[i].R = false
				out = append(out, x)
			}
		}
	}
	return out
}

// deepBase puts some cases beneath many directories or ones with long names.
func deepBase(r *rand.Rand, cfg map[string]int) {
	if r.IntN(25) != 0 {
		return
	}
	cfg["deep"], cfg["len"] = 1+r.IntN(400), 1+r.IntN(3)
	if r.IntN(2) == 0 {
		cfg["deep"], cfg["len"] = 1+r.IntN(20), 1+r.IntN(250)
	}
}
