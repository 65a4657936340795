package e2e

// C10: what the library reports against a raw inotify instance of the harness on the same
// paths.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	"vh/core"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

var rawOps = []string{"create", "create", "write", "write", "read", "trunc", "chmod", "chown", "utimes", "mkdir", "mkdir", "rmdir", "unlink",
	"unlink", "rename", "rename", "rename", "exchange", "link", "symlink", "mkfifo", "readdir", "setxattr", "fallocate", "tmpfile",
	"open", "open", "hwrite", "hwrite", "hread", "htrunc", "hclose", "hclose", "mmap", "sendfile", "noop"}

func genRaw(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"nch": 1 + r.IntN(4)}}
	g := &gen{r: r, fs: NewFS(""), p: profile{oddPct: 12, deep: 3}}
	add := func(op core.Op) { c.Ops = append(c.Ops, op) }
	// Some cases let several changes happen before they look.
	batch := 0
	if r.IntN(3) == 0 {
		batch = 2 + r.IntN(8)
		c.Cfg["p1"] = r.IntN(2)
	}
	tops := []string{"a", "b", "c"}
	// The model only helps to choose paths that exist.
	for _, t := range tops {
		add(core.Op{K: "mkdir", P: t})
		g.fs.mkdir(t)
	}
	fresh := func() string {
		for i := 0; i < 5; i++ {
			d := g.pick(func(o *obj) bool { return o.dir && o.parent != nil && depth(o) < 3 })
			n := g.name()
			if d.kids[Tok(n)] == nil {
				return g.tok(d) + "/" + n
			}
		}
		return tops[0] + "/q"
	}
	exist := func(fn func(*obj) bool) string {
		o := g.pick(func(o *obj) bool { return depth(o) >= 2 && fn(o) })
		if o == nil || r.IntN(12) == 0 {
			return fresh()
		}
		return g.tok(o)
	}
	anyo := func(*obj) bool { return true }
	empty := func(o *obj) bool { return o.dir && len(o.kids) == 0 }
	fsop := func() {
		op := core.Op{K: rawOps[r.IntN(len(rawOps))], N: r.IntN(4)}
		switch op.K {
		case "create", "mkfifo":
			op.P = fresh()
			g.fs.create(op.P, 1)
		case "mkdir":
			op.P = fresh()
			g.fs.mkdir(op.P)
		case "symlink":
			op.P = fresh()
			g.fs.symlink(op.P)
		case "rmdir":
			op.P = exist(empty)
			g.fs.remove(op.P, true)
		case "unlink":
			op.P = exist(func(o *obj) bool { return !o.dir })
			g.fs.remove(op.P, false)
		case "rename", "exchange":
			op.P, op.Q = exist(anyo), fresh()
			if r.IntN(3) == 0 || op.K == "exchange" {
				op.Q = exist(func(o *obj) bool { return !o.dir || len(o.kids) == 0 })
			}
			if op.K == "rename" {
				g.fs.rename(op.P, op.Q)
			}
		case "link":
			op.P, op.Q = exist(isFile), fresh()
			g.fs.create(op.Q, 1)
		case "tmpfile":
			op.P, op.Q = exist(isDir), fresh()
			if r.IntN(2) == 0 {
				op.P = tops[r.IntN(len(tops))]
			}
			g.fs.create(op.Q, 1)
		case "readdir":
			op.P = exist(isDir)
			if r.IntN(2) == 0 {
				op.P = tops[r.IntN(len(tops))]
			}
		case "open":
			op.P = exist(isFile)
			if r.IntN(4) == 0 {
				op.P, op.N = fresh(), 3
				g.fs.create(op.P, 0)
			}
		case "sendfile":
			op.P, op.Q = exist(isFile), exist(isFile)
		case "chmod", "chown", "utimes", "setxattr":
			op.P = exist(anyo)
			if r.IntN(4) == 0 {
				op.P = tops[r.IntN(len(tops))]
			}
		default:
			op.P = exist(isFile)
		}
		op.R = batch > 0 && r.IntN(batch) > 0
		add(op)
	}
	for i := 2 + r.IntN(8); i > 0; i-- {
		p := fresh()
		if r.IntN(3) == 0 {
			add(core.Op{K: "mkdir", P: p})
			g.fs.mkdir(p)
		} else {
			add(core.Op{K: "create", P: p, N: 1 + r.IntN(3)})
			g.fs.create(p, 1)
		}
	}
	watch := func() {
		p := tops[r.IntN(len(tops))]
		if r.IntN(2) == 0 {
			p = exist(anyo)
		}
		e := g.events()
		if r.IntN(3) == 0 {
			e |= AllKinds
		}
		add(core.Op{K: "watch", P: p, C: r.IntN(c.Cfg["nch"]), E: e})
	}
	for i := 2 + r.IntN(4); i > 0; i-- {
		watch()
	}
	for n := 15 + r.IntN(30); n > 0; n-- {
		switch x := r.IntN(30); {
		case x == 0:
			add(core.Op{K: "stop", C: r.IntN(c.Cfg["nch"])})
		case x < 4:
			watch()
		case x < 8 && batch > 0: // the same again and again
			p, kind := fresh(), []string{"create", "mkdir", "symlink", "mkfifo"}[r.IntN(4)]
			back := "unlink"
			if kind == "mkdir" {
				back = "rmdir"
			}
			for k := 1 + r.IntN(6); k > 0; k-- {
				add(core.Op{K: kind, P: p, R: true})
				add(core.Op{K: back, P: p, R: true})
			}
		case x == 4 && r.IntN(60) == 0:
			add(core.Op{K: "burst", P: tops[r.IntN(len(tops))], N: 8 << r.IntN(10), S: []string{"x", "name", strings.Repeat("L", 200)}[r.IntN(3)]})
		default:
			fsop()
		}
	}
	return c
}

type rawWatch struct {
	path string
	ino  uint64
	dead bool // gone or moved: not to be watched again before all registrations are gone
	regs map[int]uint32
}

func runRaw(c core.Case) (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	base := fmt.Sprintf("%s/x%d-%d", os.Getenv("VH_SCRATCH"), os.Getpid(), caseNo.Add(1))
	must(os.Mkdir(base, 0o755))
	defer os.RemoveAll(base)
	fd, err := unix.InotifyInit1(unix.IN_NONBLOCK | unix.IN_CLOEXEC)
	must(err)
	core.OwnFDs[fd] = true
	defer func() {
		delete(core.OwnFDs, fd)
		unix.Close(fd)
	}()
	nch := max(1, c.Cfg["nch"])
	var chs []chan notify.EventInfo
	for i := 0; i < nch; i++ {
		chs = append(chs, make(chan notify.EventInfo, 1<<15))
	}
	defer func() {
		for _, ch := range chs {
			notify.Stop(ch)
		}
	}()
	byWd := map[int32]*rawWatch{}
	byPath := map[string]*rawWatch{}
	abs := func(t string) string {
		parts := strings.Split(t, "/")
		for i := range parts {
			parts[i] = Tok(parts[i])
		}
		return base + "/" + strings.Join(parts, "/")
	}
	opNo := 0
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Dirty = core.Violation, true
			res.Msg = fmt.Sprintf("after op %d: ", opNo) + fmt.Sprintf(format, v...)
		}
	}
	type ev struct {
		c            int
		kind         int
		path         string
		mask, cookie uint32
	}
	buf := make([]byte, 1<<16)
	// What the kernel said since the last comparison: the most that may be reported of each
	// event, and the least: the library may have read nothing so far, so that equal
	// notifications in a row became one.
	want, least := map[ev]int{}, map[ev]int{}
	last := ""
	collect := func() {
		for {
			n, err := unix.Read(fd, buf)
			if err != nil || n <= 0 {
				return
			}
			for b := buf[:n]; len(b) >= unix.SizeofInotifyEvent; {
				wd := int32(binary.NativeEndian.Uint32(b))
				mask := binary.NativeEndian.Uint32(b[4:])
				cookie := binary.NativeEndian.Uint32(b[8:])
				l := int(binary.NativeEndian.Uint32(b[12:]))
				name := string(bytes.TrimRight(b[16:16+l], "\x00"))
				b = b[16+l:]
				w := byWd[wd]
				if mask&unix.IN_Q_OVERFLOW != 0 {
					core.Fatalf("queue overflow")
				}
				if w == nil {
					continue
				}
				res.Stats["raw"]++
				if mask&unix.IN_IGNORED != 0 {
					delete(byWd, wd)
					w.dead = true
					continue
				}
				if mask&unix.IN_MOVE_SELF != 0 {
					w.dead = true
				}
				p := w.path
				if name != "" {
					p += "/" + name
				}
				id, seen := fmt.Sprint(wd, mask, name), false
				for c, e := range w.regs {
					for k := range Kinds {
						if e&(1<<k) != 0 && rawBits[k]&mask != 0 {
							seen = true
							want[ev{c, k, p, mask, cookie}]++
							if id != last {
								least[ev{c, k, p, mask, cookie}]++
							}
						}
					}
				}
				if seen {
					last = id
				}
			}
		}
	}
	compare := func() bool {
		if err := core.Quiesce(); err != nil {
			res.Verdict, res.Msg = core.Hang, err.Error()
			return false
		}
		collect()
		got := map[ev]int{}
		for c, ch := range chs {
			for len(ch) > 0 {
				e := <-ch
				sys, _ := e.Sys().(*unix.InotifyEvent)
				k := kindIndex(e.Event())
				if sys == nil || k < 0 {
					fail("channel %d got %v with Sys() %v", c, e, e.Sys())
					return false
				}
				got[ev{c, k, e.Path(), sys.Mask, sys.Cookie}]++
				res.Stats["event"]++
			}
		}
		desc := func(e ev) string {
			return fmt.Sprintf("channel %d: %s %q mask %#x cookie %d", e.c, KindNames[e.kind], strings.TrimPrefix(e.path, base+"/"), e.mask, e.cookie)
		}
		var bad []string
		for e, n := range want {
			if g := got[e]; (g > n || g < least[e]) && !(e.mask&dirNoise != 0 && g > 0) {
				bad = append(bad, fmt.Sprintf("%s: kernel %d, reported %d", desc(e), n, g))
			}
		}
		for e, n := range got {
			if want[e] == 0 {
				bad = append(bad, fmt.Sprintf("%s: kernel 0, reported %d", desc(e), n))
			}
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			fail("%s", strings.Join(bad, "\n"))
			return false
		}
		clear(want)
		clear(least)
		last = ""
		return true
	}
	drop := func() bool {
		if err := core.Quiesce(); err != nil {
			res.Verdict, res.Msg = core.Hang, err.Error()
			return false
		}
		for n, err := 1, error(nil); n > 0 && err == nil; n, err = unix.Read(fd, buf) {
		}
		for _, ch := range chs {
			for len(ch) > 0 {
				<-ch
			}
		}
		return true
	}
	handles := []int{}
	defer func() {
		for _, h := range handles {
			unix.Close(h)
		}
	}()
	handle := func(n int) int {
		if len(handles) == 0 {
			return -1
		}
		return handles[n%len(handles)]
	}
	flags := 0
	procs := 0
	all := func() {
		if procs > 0 {
			runtime.GOMAXPROCS(procs)
			procs = 0
		}
	}
	defer all()
	for i, op := range c.Ops {
		opNo = i
		p, q := abs(op.P), abs(op.Q)
		var err error
		switch op.K {
		case "watch":
			if op.C < 0 || op.C >= nch || op.E&AllKinds == 0 {
				continue
			}
			var st unix.Stat_t
			if unix.Lstat(p, &st) != nil || st.Mode&unix.S_IFMT == unix.S_IFLNK || strings.HasSuffix(p, "...") && st.Mode&unix.S_IFMT != unix.S_IFDIR {
				continue
			}
			parent := p[:strings.LastIndexByte(p, '/')]
			ok := true
			for x, w := range byPath {
				if w.ino == st.Ino != (x == p) {
					ok = false // another object, or another name
				}
				if x == parent || strings.HasPrefix(x, p+"/") && !strings.Contains(x[len(p)+1:], "/") || w.dead && x == p {
					ok = false
				}
			}
			if !ok {
				continue
			}
			wd, err := unix.InotifyAddWatch(fd, p, unix.IN_ALL_EVENTS)
			must(err)
			w := byWd[int32(wd)]
			if w != nil && w.path != p {
				continue // the same object by another name
			}
			if w == nil {
				if byPath[p] != nil {
					core.Fatalf("two objects at %q", p)
				}
				w = &rawWatch{path: p, ino: st.Ino, regs: map[int]uint32{}}
				byWd[int32(wd)], byPath[p] = w, w
			}
			if err := notify.Watch(spell(p, false), chs[op.C], Args(op)...); err != nil {
				fail("Watch(%q): %v", p, err)
				break
			}
			if w.regs[op.C] != 0 && w.regs[op.C]|op.E != w.regs[op.C] {
				res.Stats["extended"]++
			}
			w.regs[op.C] |= op.E & AllKinds
			res.Stats["watch"]++
		case "stop":
			if op.C < 0 || op.C >= nch {
				continue
			}
			notify.Stop(chs[op.C])
			again := false
			for x, w := range byPath {
				var st unix.Stat_t // unlinked but still open: not yet reported
				w.dead = w.dead || unix.Lstat(x, &st) != nil || st.Ino != w.ino
				again = again || w.dead && len(w.regs) > 0
			}
			for wd, w := range byWd {
				delete(w.regs, op.C)
				if len(w.regs) == 0 {
					unix.InotifyRmWatch(fd, uint32(wd))
					delete(byWd, wd)
				}
			}
			for p, w := range byPath {
				delete(w.regs, op.C)
				if len(w.regs) == 0 {
					delete(byPath, p)
				}
			}
			if again {
				// The library may now watch what is at the path instead: start over.
				for _, ch := range chs {
					notify.Stop(ch)
				}
				for wd := range byWd {
					unix.InotifyRmWatch(fd, uint32(wd))
				}
				clear(byWd)
				clear(byPath)
				if !drop() {
					return
				}
			}
			res.Stats["stop"]++
		case "create":
			var h int
			h, err = unix.Open(p, unix.O_CREAT|unix.O_EXCL|unix.O_WRONLY|unix.O_CLOEXEC, 0o644)
			if err == nil {
				if op.N > 0 {
					unix.Write(h, make([]byte, op.N))
				}
				unix.Close(h)
			}
		case "write":
			var h int
			fl := unix.O_WRONLY | unix.O_CLOEXEC | unix.O_NONBLOCK
			if op.N == 3 {
				fl |= unix.O_TRUNC
			}
			if h, err = unix.Open(p, fl, 0); err == nil {
				if op.N < 3 { // equal notifications in a row may be merged
					unix.Write(h, make([]byte, op.N))
				}
				unix.Close(h)
			}
		case "read":
			var h int
			if h, err = unix.Open(p, unix.O_RDONLY|unix.O_CLOEXEC|unix.O_NONBLOCK, 0); err == nil {
				unix.Read(h, buf)
				unix.Close(h)
			}
		case "open":
			var h int
			fl := []int{unix.O_RDONLY, unix.O_WRONLY, unix.O_RDWR, unix.O_RDWR | unix.O_CREAT}[op.N%4]
			if h, err = unix.Open(p, fl|unix.O_CLOEXEC|unix.O_NONBLOCK, 0o644); err == nil {
				handles = append(handles, h)
			}
		case "hwrite":
			_, err = unix.Write(handle(op.N), []byte("x"))
		case "hread":
			_, err = unix.Pread(handle(op.N), buf[:10], 0)
		case "htrunc":
			err = unix.Ftruncate(handle(op.N), int64(op.N))
		case "hclose":
			if h := handle(op.N); h >= 0 {
				k := op.N % len(handles)
				handles = append(handles[:k], handles[k+1:]...)
				unix.Close(h)
			}
		case "trunc":
			err = unix.Truncate(p, int64(op.N))
		case "chmod":
			err = unix.Chmod(p, uint32(0o700|op.N))
		case "chown":
			err = unix.Chown(p, 0, op.N)
		case "utimes":
			err = unix.UtimesNanoAt(unix.AT_FDCWD, p, []unix.Timespec{{Sec: 1000}, {Sec: int64(op.N)}}, unix.AT_SYMLINK_NOFOLLOW)
		case "setxattr":
			err = unix.Setxattr(p, "user.x", []byte("v"), 0)
		case "fallocate":
			var h int
			if h, err = unix.Open(p, unix.O_WRONLY|unix.O_CLOEXEC|unix.O_NONBLOCK, 0); err == nil {
				unix.Fallocate(h, 0, 0, 5)
				unix.Close(h)
			}
		case "burst":
			err = burst(p, op.S, min(op.N, 6000))
		case "mkdir":
			err = unix.Mkdir(p, 0o755)
		case "rmdir":
			err = unix.Rmdir(p)
		case "unlink":
			err = unix.Unlink(p)
		case "rename":
			err = unix.Rename(p, q)
		case "exchange":
			err = renameExchange(p, q)
		case "link":
			err = unix.Link(p, q)
		case "symlink":
			err = unix.Symlink("x", p)
		case "mkfifo":
			err = unix.Mkfifo(p, 0o644)
		case "readdir":
			_, err = os.ReadDir(p)
		case "tmpfile":
			var h int
			if h, err = unix.Open(p, unix.O_TMPFILE|unix.O_RDWR|unix.O_CLOEXEC, 0o644); err == nil {
				unix.Write(h, []byte("x"))
				err = unix.Linkat(unix.AT_FDCWD, fmt.Sprintf("/proc/self/fd/%d", h), unix.AT_FDCWD, q, unix.AT_SYMLINK_FOLLOW)
				unix.Close(h)
			}
		case "mmap":
			var h int
			if h, err = unix.Open(p, unix.O_RDWR|unix.O_CLOEXEC, 0); err == nil {
				var st unix.Stat_t
				if unix.Fstat(h, &st); st.Size > 0 {
					if m, e := unix.Mmap(h, 0, int(st.Size), unix.PROT_READ|unix.PROT_WRITE, unix.MAP_SHARED); e == nil {
						m[0]++
						unix.Munmap(m)
					}
				}
				unix.Close(h)
			}
		case "sendfile":
			var h, k int
			if h, err = unix.Open(p, unix.O_RDONLY|unix.O_CLOEXEC|unix.O_NONBLOCK, 0); err == nil {
				if k, err = unix.Open(q, unix.O_WRONLY|unix.O_CLOEXEC|unix.O_NONBLOCK, 0); err == nil {
					unix.Sendfile(k, h, nil, 10)
					unix.Close(k)
				}
				unix.Close(h)
			}
		}
		if res.Verdict != core.OK {
			return
		}
		if err == nil && op.K != "watch" && op.K != "stop" {
			flags++
			res.Stats["ok-"+op.K]++
		}
		if op.R && i+1 < len(c.Ops) && op.K != "watch" && op.K != "stop" {
			if k := c.Ops[i+1].K; k != "watch" && k != "stop" && k != "burst" {
				collect()
				if procs == 0 && c.Cfg["p1"] == 1 {
					procs = runtime.GOMAXPROCS(1) // the library reads less often
				}
				res.Stats["unsynced"]++
				continue
			}
		}
		all()
		if !compare() {
			return
		}
	}
	res.Nontrivial = res.Stats["event"] > 3 && flags > 5
	return
}

// burst makes 2n changes in a directory while the library hardly runs.
func burst(dir, name string, n int) error {
	var ps []*byte
	for i := 0; i < n; i++ {
		p, err := unix.BytePtrFromString(fmt.Sprintf("%s/%s%d", dir, name, i))
		must(err)
		ps = append(ps, p)
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	at := unix.AT_FDCWD
	for _, p := range ps {
		if _, _, e := unix.RawSyscall(unix.SYS_MKDIRAT, uintptr(at), uintptr(unsafe.Pointer(p)), 0o755); e != 0 {
			return e
		}
		if _, _, e := unix.RawSyscall(unix.SYS_UNLINKAT, uintptr(at), uintptr(unsafe.Pointer(p)), unix.AT_REMOVEDIR); e != 0 {
			return e
		}
	}
	return nil
}
