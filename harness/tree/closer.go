package tree

// C14: what is left after Close of a watcher, and whether it starts again.

import (
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vh/core"
	"vh/e2e"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

var closeDirs = []string{"d0", "d1", "d0/s", "d1/a b", "d0/s/t"}
var closeNames = []string{"d0/f", "d0/g", "d1/f", "d1/g", "d0/s/f", "f", "é"}

func genClose(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"mode": r.IntN(3)}}
	any := func() string {
		if r.IntN(3) == 0 {
			return closeNames[r.IntN(len(closeNames))]
		}
		return closeDirs[r.IntN(len(closeDirs))]
	}
	add := func(op core.Op) { c.Ops = append(c.Ops, op) }
	n := 1 + r.IntN(3) // generations
	for g := 0; g < n; g++ {
		if r.IntN(4) == 0 { // a start that fails
			add(core.Op{K: "limit", P: any(), N: r.IntN(6), E: events(r)})
		}
		if r.IntN(4) == 0 {
			add(core.Op{K: "par", N: 2 + r.IntN(4), E: events(r)})
		}
		if r.IntN(5) != 0 {
			add(core.Op{K: "watch", P: closeDirs[r.IntN(2)], E: events(r) | 15})
		}
		for i := r.IntN(25); i > 0; i-- {
			switch x := r.IntN(20); {
			case x < 4:
				add(core.Op{K: "watch", P: any(), E: events(r)})
			case x < 5:
				add(core.Op{K: "rewatch", P: any(), E: events(r)})
			case x < 6:
				add(core.Op{K: "unwatch", P: any()})
			case x < 7:
				add(core.Op{K: "bad", P: any(), N: r.IntN(3), E: events(r)})
			case x < 8:
				add(core.Op{K: "limit", P: any(), N: r.IntN(6), E: events(r)})
			case x < 9:
				add(core.Op{K: "sync"})
			case x == 19 && r.IntN(20) == 0:
				add(core.Op{K: "flood", P: closeDirs[r.IntN(2)], N: []int{1 << r.IntN(12), 7000, 20000}[r.IntN(3)], S: []string{"f", "nm", strings.Repeat("L", 240)}[r.IntN(3)]})
			case x == 19 && r.IntN(60) == 0:
				add(core.Op{K: "many", P: "many", N: []int{70, 300, 1100, 4200}[r.IntN(4)], E: events(r) | 3})
			case x == 19 && r.IntN(60) == 0:
				add(core.Op{K: "churn", P: closeDirs[r.IntN(len(closeDirs))], N: []int{300, 1100, 33000, 66000}[r.IntN(4)], E: events(r) | 3})
			case x == 19 && r.IntN(100) == 0:
				add(core.Op{K: "idle", P: closeDirs[r.IntN(2)], N: []int{100, 1100, 2200, 5300}[r.IntN(4)]})
			case x < 10:
				add(core.Op{K: "probe", P: closeDirs[r.IntN(len(closeDirs))]})
			case x == 18 && r.IntN(3) == 0:
				add(core.Op{K: "signal"})
			case x < 12:
				add(core.Op{K: "bg", P: closeDirs[r.IntN(len(closeDirs))], N: 1 + r.IntN(300)})
			default:
				add(core.Op{K: "fs", S: []string{"create", "write", "write", "rm", "rmdir", "mkdir", "mv"}[r.IntN(7)], P: any(), Q: closeNames[r.IntN(len(closeNames))], N: r.IntN(50)})
			}
		}
		if r.IntN(3) == 0 {
			add(core.Op{K: "bg", P: closeDirs[r.IntN(len(closeDirs))], N: 50 + r.IntN(1000)})
		}
		add(core.Op{K: "close", N: r.IntN(3)})
		if r.IntN(3) == 0 {
			add(core.Op{K: "close"})
		}
		if r.IntN(4) == 0 { // must fail, or not matter
			add(core.Op{K: "unwatch", P: any()})
		}
		if r.IntN(3) == 0 {
			add(core.Op{K: "fs", S: "create", P: any()})
		}
	}
	if r.IntN(2) == 0 {
		d := closeDirs[r.IntN(2)]
		add(core.Op{K: "watch", P: d, E: events(r) | 15})
		add(core.Op{K: "probe", P: d})
	}
	return c
}

type closeWatch struct {
	path string
	e    uint32
}

type closeRun struct {
	base    string
	w       notify.VerifWatcher
	c       chan notify.EventInfo
	mode    int
	model   map[uint64]closeWatch
	paths   map[string]bool // watched since the last start
	bg      sync.WaitGroup
	quit    chan struct{}
	ping    chan struct{}
	done    chan struct{}
	mu      sync.Mutex
	got     []notify.EventInfo
	fds     string
	gor     int
	started bool
	seq     int
	stats   map[string]int
	res     *core.Result
}

func (r *closeRun) fail(format string, v ...interface{}) {
	if r.res.Verdict == core.OK {
		r.res.Verdict, r.res.Dirty = core.Violation, true
		r.res.Msg = fmt.Sprintf(format, v...)
	}
}

// openFDs names the open descriptors.
func openFDs() string {
	var s []string
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		core.Fatalf("%v", err)
	}
	for _, e := range ents {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue // the descriptor of the listing
		}
		s = append(s, e.Name()+"="+l)
	}
	return strings.Join(s, " ")
}

func (r *closeRun) consume() {
	r.quit, r.done = make(chan struct{}), make(chan struct{})
	go func() {
		defer close(r.done)
		for n := 0; ; n++ {
			select {
			case e := <-r.c:
				r.mu.Lock()
				r.got = append(r.got, e)
				r.mu.Unlock()
			case <-r.ping: // everything received before has been noted
			case <-r.quit:
				return
			}
			if r.mode == 1 && n%16 == 3 {
				time.Sleep(200 * time.Microsecond)
			}
		}
	}()
}

func (r *closeRun) stopConsumer() {
	if r.quit != nil {
		close(r.quit)
		<-r.done
		r.quit = nil
	}
}

// events takes what has arrived.
func (r *closeRun) events() []notify.EventInfo {
	if r.mode == 2 {
		var es []notify.EventInfo
		for len(r.c) > 0 {
			es = append(es, <-r.c)
		}
		return es
	}
	if r.quit != nil {
		r.ping <- struct{}{}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	es := r.got
	r.got = nil
	return es
}

func (r *closeRun) quiesce() bool {
	r.bg.Wait()
	if err := core.Quiesce(); err != nil {
		r.res.Verdict, r.res.Msg = core.Hang, err.Error()
		return false
	}
	return true
}

func ino(p string) (uint64, bool) {
	var st unix.Stat_t
	if unix.Lstat(p, &st) != nil {
		return 0, false
	}
	return st.Ino, true
}

func (r *closeRun) forget(p string) {
	filepath.WalkDir(p, func(q string, _ fs.DirEntry, err error) error {
		if i, ok := ino(q); ok {
			delete(r.model, i)
		}
		return nil
	})
}

func (r *closeRun) check() {
	if !r.quiesce() {
		return
	}
	have := map[uint64]uint32{}
	for _, k := range core.KernelWatches() {
		have[k.Ino] = k.Mask
	}
	for i, m := range r.model {
		k, ok := have[i]
		if want := e2e.KernelMask(m.e); !ok || k&unix.IN_ALL_EVENTS != want {
			r.fail("%q was watched with events %#x, the kernel has mask %#x (watched: %v), want %#x", m.path, toEv(m.e), k, ok, want)
			return
		}
		delete(have, i)
	}
	if len(have) != 0 {
		r.fail("the kernel watches %d objects too many", len(have))
	}
}

// clean checks that the process is as before the watcher was used.
func (r *closeRun) clean(when string) {
	for d := time.Now().Add(10 * time.Second); ; {
		n, _, _ := core.LibGoroutines()
		fds := openFDs()
		if n <= r.gor && fds == r.fds {
			return
		}
		if time.Now().After(d) {
			if n > r.gor {
				r.fail("%s: %d goroutines left\n%s", when, n-r.gor, core.AllStacks())
			} else {
				r.fail("%s: descriptors %s, before the watcher was used %s", when, fds, r.fds)
			}
			return
		}
		// The finished goroutines take a moment to vanish; descriptors do not.
		if n <= r.gor && when == "after Close" {
			if f := openFDs(); f != r.fds {
				r.fail("%s: descriptors %s, before the watcher was used %s", when, f, r.fds)
				return
			}
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func (r *closeRun) closeWatcher(twice int) {
	if twice == 1 {
		runtime.Gosched()
	}
	if twice == 2 && !r.quiesce() {
		return
	}
	ret := make(chan error, 1)
	var at int64
	go func() {
		err := r.w.Close()
		if r.mode == 2 {
			atomic.StoreInt64(&at, int64(len(r.c)))
		}
		ret <- err
	}()
	var err error
	select {
	case err = <-ret:
	case <-time.After(core.QuiesceTimeout):
		r.res.Verdict, r.res.Msg = core.Hang, "Close did not return\n"+string(core.AllStacks())
		return
	}
	if err != nil {
		r.fail("Close: %v", err)
		return
	}
	r.stopConsumer()
	r.model, r.paths = map[uint64]closeWatch{}, map[string]bool{}
	// Changes after Close.
	for i, d := range closeDirs {
		os.WriteFile(fmt.Sprintf("%s/%s/after%d", r.base, d, i), nil, 0o644)
		os.Remove(fmt.Sprintf("%s/%s/after%d", r.base, d, i))
	}
	if r.mode != 2 {
		for i := 0; i < 3; i++ {
			select {
			case e := <-r.c:
				r.fail("event %v sent after Close", e)
				return
			default:
				runtime.Gosched()
			}
		}
	}
	r.bg.Wait()
	r.clean("after Close")
	if r.res.Verdict != core.OK {
		return
	}
	if r.mode == 2 {
		if n := int64(len(r.c)); n != at {
			r.fail("%d events sent after Close returned", n-at)
		}
	} else {
		select {
		case e := <-r.c:
			r.fail("event %v sent after Close", e)
		default:
		}
	}
	r.events()
	if r.mode != 2 {
		r.consume()
	}
	if r.started {
		r.stats["close"]++
	}
	r.started = false
}

func runClose(c core.Case) (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	r := &closeRun{mode: c.Cfg["mode"], model: map[uint64]closeWatch{}, paths: map[string]bool{}, stats: res.Stats, res: &res}
	r.base = fmt.Sprintf("%s/c%d", os.Getenv("VH_SCRATCH"), os.Getpid())
	mk := func(p string) {
		if err := os.Mkdir(p, 0o755); err != nil && !os.IsExist(err) {
			core.Fatalf("%v", err)
		}
	}
	mk(r.base)
	defer os.RemoveAll(r.base)
	for _, d := range closeDirs {
		mk(r.base + "/" + d)
	}
	for _, f := range closeNames[:3] {
		os.WriteFile(r.base+"/"+f, nil, 0o644)
	}
	// The runtime opens descriptors of its own on first use.
	if a, b, err := os.Pipe(); err == nil {
		a.Close()
		b.Close()
	}
	r.gor, _, _ = core.LibGoroutines()
	r.fds = openFDs()
	n := 0
	if r.mode == 2 {
		n = 1 << 17
	}
	r.c, r.ping = make(chan notify.EventInfo, n), make(chan struct{})
	r.w = notify.VerifNewWatcher(r.c)
	if r.mode != 2 {
		r.consume()
	}
	defer r.stopConsumer()
	for _, op := range c.Ops {
		p := r.base + "/" + op.P
		e := notify.Event(toEv(op.E))
		if e == 0 && (op.K == "par" || op.K == "watch" || op.K == "rewatch" || op.K == "limit" || op.K == "bad") {
			continue
		}
		switch op.K {
		case "watch", "rewatch", "limit":
			i, ok := ino(p)
			var err error
			call := func() { err = r.w.Watch(p, e) }
			if op.K == "rewatch" {
				m, known := r.model[i]
				if !ok || !known || m.path != p {
					continue
				}
				call = func() { err = r.w.Rewatch(p, notify.Event(toEv(m.e)), e) }
			}
			if op.K == "limit" {
				if !ok {
					continue
				}
				r.bg.Wait()
				before := r.started
				fds := openFDs()
				withFDs(op.N, call)
				if err != nil {
					res.Stats["refused"]++
					if !before {
						r.clean("after a Watch that failed")
					} else if openFDs() != fds {
						r.fail("a Watch that failed changed the descriptors from %s to %s", fds, openFDs())
					} else {
						r.fail("a Watch on a running watcher needs descriptors: %v", err)
					}
				}
			} else {
				call()
			}
			switch {
			case err == nil && !ok:
				r.fail("%s of %q, which does not exist, succeeded", op.K, op.P)
			case err == nil:
				r.model[i] = closeWatch{p, op.E & e2e.AllKinds}
				r.paths[p] = true
				r.started = true
				res.Stats["watch"]++
			case ok && op.K != "limit":
				r.fail("%s of %q: %v", op.K, op.P, err)
			case op.K != "limit":
				r.started = true // the watcher has descriptors now
			}
		case "par": // calls at the same time
			if e == 0 {
				continue
			}
			var calls sync.WaitGroup
			errs := make([]error, len(closeDirs))
			barrier := make(chan struct{})
			for j, d := range closeDirs[:min(max(op.N, 0), len(closeDirs))] {
				calls.Add(1)
				go func(d string) {
					defer calls.Done()
					<-barrier
					errs[j] = r.w.Watch(d, e)
				}(r.base + "/" + d)
			}
			close(barrier)
			calls.Wait()
			for j, d := range closeDirs[:min(max(op.N, 0), len(closeDirs))] {
				d = r.base + "/" + d
				switch i, ok := ino(d); {
				case ok != (errs[j] == nil):
					r.fail("Watch of %q (exists: %v), called at the same time as others: %v", d, ok, errs[j])
				case ok:
					r.model[i] = closeWatch{d, op.E & e2e.AllKinds}
					r.paths[d] = true
					res.Stats["watch"]++
				}
			}
			r.started = true
		case "bad":
			var err error
			switch op.N {
			case 0:
				err, r.started = r.w.Watch(p+"/no/such", e), true
			case 1:
				err = r.w.Watch(p, e|0x40000000)
			case 2:
				err = r.w.Unwatch(p + "/no/such")
			}
			if err == nil && op.N < 2 {
				r.fail("Watch (bad %d) of %q succeeded", op.N, op.P)
			}
		case "unwatch":
			found := false
			for i, m := range r.model {
				if m.path == p {
					found = true
					delete(r.model, i)
				}
			}
			err := r.w.Unwatch(p)
			if err != nil && found {
				r.fail("Unwatch(%q): %v", op.P, err)
			}
			if err == nil && !r.paths[p] {
				r.fail("Unwatch(%q), which was never watched in this life of the watcher, succeeded", op.P)
			}
		case "sync":
			r.check()
		case "probe":
			r.probe(op.P)
		case "flood":
			r.flood(op)
		case "many":
			r.many(op, e)
		case "churn":
			r.churn(op, e)
		case "idle":
			if !r.quiesce() {
				return
			}
			time.Sleep(time.Duration(min(op.N, 10000)) * time.Millisecond)
			r.probe(op.P)
			res.Stats["idle"]++
		case "signal":
			core.Signal()
			r.stats["signal"]++
		case "bg":
			r.seq++
			pre := fmt.Sprintf("%s/bg%d.", p, r.seq)
			if _, ok := ino(p); !ok {
				continue
			}
			r.bg.Add(1)
			go func(n int) {
				defer r.bg.Done()
				for i := 0; i < n; i++ {
					f := fmt.Sprint(pre, i%7)
					os.WriteFile(f, []byte("x"), 0o644)
					os.Remove(f)
				}
			}(min(op.N, 2000))
		case "fs":
			r.fsop(op, p)
		case "close":
			r.closeWatcher(op.N)
		}
		if res.Verdict != core.OK {
			return
		}
	}
	r.check()
	if res.Verdict == core.OK {
		r.closeWatcher(0)
	}
	res.Nontrivial = res.Stats["close"] > 0 && res.Stats["watch"] > 0
	return
}

func (r *closeRun) fsop(op core.Op, p string) {
	dir := false
	if st, err := os.Lstat(p); err == nil {
		dir = st.IsDir()
	}
	switch op.S {
	case "create", "write":
		if dir {
			return
		}
		f, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			return
		}
		for i := 0; i < max(1, min(op.N, 100)) && op.S == "write"; i++ {
			f.Write([]byte("x"))
		}
		f.Close()
	case "rm":
		if !dir {
			r.forget(p)
			os.Remove(p)
		}
	case "rmdir":
		if dir {
			r.bg.Wait()
			r.forget(p)
			os.RemoveAll(p)
		}
	case "mkdir":
		os.Mkdir(p, 0o755)
	case "mv":
		q := r.base + "/" + op.Q
		if st, err := os.Lstat(q); dir || p == q || err == nil && st.IsDir() {
			return
		}
		if _, ok := ino(p); !ok {
			return
		}
		if _, ok := ino(filepath.Dir(q)); ok {
			r.forget(q)
			os.Rename(p, q)
		}
	}
}

// probe creates and removes a file and compares what is reported with the watch.
func (r *closeRun) probe(d string) {
	p := r.base + "/" + d
	i, ok := ino(p)
	if st, err := os.Lstat(p); err != nil || !st.IsDir() || !ok || !r.quiesce() {
		return
	}
	r.events()
	r.seq++
	f := fmt.Sprintf("%s/probe%d", p, r.seq)
	if err := os.WriteFile(f, nil, 0o644); err != nil {
		core.Fatalf("%v", err)
	}
	os.Remove(f)
	if !r.quiesce() {
		return
	}
	var c, rm, other int
	es := r.events()
	for _, e := range es {
		switch {
		case filepath.Base(e.Path()) != filepath.Base(f):
			other++
		case e.Event() == notify.Create:
			c++
		case e.Event() == notify.Remove:
			rm++
		}
	}
	e := r.model[i].e
	if c != int(e&1) || rm != int(e>>1&1) {
		r.fail("%q is watched with %#x; the creation and removal of a file in it gave %d Create and %d Remove events: %v", d, toEv(e), c, rm, es)
	}
	r.stats["probe"]++
}

// many watches many directories.
func (r *closeRun) many(op core.Op, e notify.Event) {
	os.Mkdir(r.base+"/"+op.P, 0o755)
	n := min(op.N, 5000)
	for k := 0; k < n; k++ {
		d := fmt.Sprintf("%s/%s/%d", r.base, op.P, k)
		if err := os.Mkdir(d, 0o755); err != nil && !os.IsExist(err) {
			core.Fatalf("%v", err)
		}
		if err := r.w.Watch(d, e); err != nil {
			r.fail("Watch of directory %d of %d: %v", k, n, err)
			return
		}
		i, _ := ino(d)
		r.model[i] = closeWatch{d, op.E & e2e.AllKinds}
		r.paths[d] = true
	}
	r.started = true
	for _, k := range []int{0, 1, n / 3, n / 2, n - 2, n - 1} {
		r.probe(fmt.Sprint(op.P, "/", k))
	}
	r.stats["many"] += n
}

// churn watches and unwatches a directory many times.
func (r *closeRun) churn(op core.Op, e notify.Event) {
	p := r.base + "/" + op.P
	i, ok := ino(p)
	if !ok {
		return
	}
	for j, m := range r.model {
		if m.path == p || j == i {
			return
		}
	}
	n := min(op.N, 70000)
	for k := 0; k < n; k++ {
		if err := r.w.Watch(p, e); err != nil {
			r.fail("Watch %d of %q, unwatched as often: %v", k, op.P, err)
			return
		}
		if err := r.w.Unwatch(p); err != nil {
			r.fail("Unwatch %d of %q, watched before: %v", k, op.P, err)
			return
		}
	}
	if err := r.w.Watch(p, e); err != nil {
		r.fail("Watch of %q after %d others: %v", op.P, n, err)
		return
	}
	r.started = true
	r.model[i] = closeWatch{p, op.E & e2e.AllKinds}
	r.paths[p] = true
	r.stats["churn"] += n
	r.probe(op.P)
}

// queueMax is the number of notifications the kernel keeps.
var queueMax = func() (n int) {
	b, _ := os.ReadFile("/proc/sys/fs/inotify/max_queued_events")
	fmt.Sscan(string(b), &n)
	return n
}()

// pending gives the number of bytes of notifications that wait in the kernel.
func pending() func() int {
	var fds []int
	for _, s := range strings.Fields(openFDs()) {
		var fd int
		if strings.HasSuffix(s, "=anon_inode:inotify") {
			fmt.Sscan(s, &fd)
			fds = append(fds, fd)
		}
	}
	return func() (n int) {
		for _, fd := range fds {
			if k, err := unix.IoctlGetInt(fd, unix.TIOCINQ); err == nil {
				n += k
			}
		}
		return n
	}
}

// flood makes many changes while nobody reads the events.
func (r *closeRun) flood(op core.Op) {
	d := r.base + "/" + op.P
	i, ok := ino(d)
	if st, err := os.Lstat(d); err != nil || !st.IsDir() || !ok || !r.quiesce() {
		return
	}
	r.events()
	// The kernel keeps 16384 notifications, the first ones.
	n, sure := min(op.N, 20000), 8000
	if queueMax != 16384 {
		n = min(n, queueMax/2-200)
		sure = max(n, 0)
	}
	if r.mode == 2 {
		n = min(n, 7500)
	}
	r.mu.Lock() // the consumer waits for this
	for k := 0; k < n; k++ {
		p := fmt.Sprintf("%s/%s%d", d, op.S, k)
		if err := os.Mkdir(p, 0o755); err != nil {
			core.Fatalf("%v", err)
		}
		if err := os.Remove(p); err != nil {
			core.Fatalf("%v", err)
		}
	}
	late := 0
	if r.mode != 2 && n > sure {
		// What is changed as soon as there is room again has its place behind
		// the note of the overflow.
		rec := 16 + (len(op.S)+2+15)/16*16
		pending := pending()
		for pending() > 15000*rec {
			select {
			case e := <-r.c:
				r.got = append(r.got, e)
				continue
			case <-time.After(5 * time.Second):
			}
			break
		}
		if pending() <= 15000*rec {
			late = 30
		}
	}
	for k := 0; k < late; k++ {
		p := fmt.Sprintf("%s/late%d", d, k)
		if err := os.Mkdir(p, 0o755); err != nil {
			core.Fatalf("%v", err)
		}
		if err := os.Remove(p); err != nil {
			core.Fatalf("%v", err)
		}
	}
	r.mu.Unlock()
	if !r.quiesce() {
		return
	}
	c, rm := map[string]int{}, map[string]int{}
	es := r.events()
	for _, e := range es {
		switch e.Event() {
		case notify.Create:
			c[e.Path()]++
		case notify.Remove:
			rm[e.Path()]++
		}
	}
	e := r.model[i].e
	for k := 0; k < n; k++ {
		p := fmt.Sprintf("%s/%s%d", d, op.S, k)
		if k >= sure && c[p] <= int(e&1) && rm[p] <= int(e>>1&1) {
			continue
		}
		if c[p] != int(e&1) || rm[p] != int(e>>1&1) {
			r.fail("%q is watched with %#x; the %dth creation and removal in a row of %d gave %d Create and %d Remove events", op.P, toEv(e), k+1, n, c[p], rm[p])
			return
		}
	}
	for k := 0; k < late; k++ {
		p := fmt.Sprintf("%s/late%d", d, k)
		if c[p] != int(e&1) || rm[p] != int(e>>1&1) {
			r.fail("%q is watched with %#x; the %dth creation and removal in a row after %d, the first of which had been read, gave %d Create and %d Remove events", op.P, toEv(e), k+1, n, c[p], rm[p])
			return
		}
	}
	r.stats["flood"] += n
	if n > sure {
		if n*int(e&1+e>>1&1) > 16400 {
			r.stats["overflow"]++
			if late > 0 {
				r.stats["late"]++
			}
		}
		r.probe(op.P)
	}
}

// withFDs runs fn while only n descriptors can be opened.
func withFDs(n int, fn func()) {
	open := map[int]bool{}
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		core.Fatalf("%v", err)
	}
	for _, e := range ents {
		if _, err := os.Readlink("/proc/self/fd/" + e.Name()); err != nil {
			continue
		}
		var k int
		fmt.Sscan(e.Name(), &k)
		open[k] = true
	}
	lim := 0
	for ; ; lim++ {
		if !open[lim] {
			if n == 0 {
				break
			}
			n--
		}
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		core.Fatalf("%v", err)
	}
	l := unix.Rlimit{Cur: uint64(lim), Max: old.Max}
	if err := unix.Setrlimit(unix.RLIMIT_NOFILE, &l); err != nil {
		core.Fatalf("%v", err)
	}
	fn()
	l.Cur = old.Cur
	if err := unix.Setrlimit(unix.RLIMIT_NOFILE, &l); err != nil {
		core.Fatalf("%v", err)
	}
}
