package e2e

// C09: spellings of paths through forests of directories, files and symlinks.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"vh/core"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

// Paths and link targets are texts with {B} for the root of the forest.

var pathNames = []string{"a", "b", "c", "d", "l", "m", "n", "x y", "e...", "..f", "...", "g.h"}

func genPaths(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{}}
	add := func(op core.Op) { c.Ops = append(c.Ops, op) }
	name := func() string {
		if r.IntN(4) > 0 {
			return pathNames[r.IntN(7)]
		}
		return pathNames[r.IntN(len(pathNames))]
	}
	// Directories, all with known texts, so that most spellings lead somewhere.
	dirs := []string{""}
	var files, links []string
	used := map[string]bool{}
	fresh := func() (string, bool) {
		p := dirs[r.IntN(len(dirs))] + "/" + name()
		if used[p] || strings.Count(p, "/") > 6 {
			return p, false
		}
		used[p] = true
		return p, true
	}
	for i := 2 + r.IntN(8); i > 0; i-- {
		if p, ok := fresh(); ok {
			add(core.Op{K: "mkdir", P: "{B}" + p})
			dirs = append(dirs, p)
		}
	}
	for i := r.IntN(4); i > 0; i-- {
		if p, ok := fresh(); ok {
			add(core.Op{K: "create", P: "{B}" + p})
			files = append(files, p)
		}
	}
	some := func() string {
		switch x := r.IntN(10); {
		case x < 4 && len(links) > 0:
			return links[r.IntN(len(links))]
		case x < 6 && len(files) > 0:
			return files[r.IntN(len(files))]
		}
		return dirs[r.IntN(len(dirs))]
	}
	// decorate changes the spelling without changing the meaning, mostly.
	decorate := func(p string) string {
		parts := strings.Split(p, "/")
		var out []string
		for i, s := range parts {
			out = append(out, s)
			if i == len(parts)-1 {
				break
			}
			switch r.IntN(14) {
			case 0:
				out = append(out, ".")
			case 1:
				out = append(out, "")
			case 2:
				out = append(out, name(), "..")
			case 3:
				if i > 0 && s != ".." && s != "." && s != "" {
					out = append(out, "..", s)
				}
			}
		}
		return strings.Join(out, "/")
	}
	target := func(link string) string {
		t := some()
		switch r.IntN(12) {
		case 0:
			return name() // anything
		case 1:
			return strings.Repeat("../", r.IntN(4)) + name()
		case 2:
			return []string{".", "..", "./", "../", "/", "../.."}[r.IntN(6)]
		case 3, 4, 5:
			if t == "" {
				return "{B}" + decorate(t)
			}
			return "{B}" + decorate(t)
		}
		// relative to the directory of the link
		rel, err := filepath.Rel("/B"+filepath.Dir(link), "/B"+t)
		if err != nil {
			return t
		}
		if r.IntN(4) == 0 && len(dirs) > 1 {
			// through a link
			if len(links) > 0 {
				if l := links[r.IntN(len(links))]; filepath.Dir(l) == filepath.Dir(link) {
					return decorate(filepath.Base(l) + "/" + name())
				}
			}
		}
		return decorate(rel)
	}
	nl := r.IntN(8)
	if r.IntN(12) == 0 { // a chain
		for i, n := 0, 1+r.IntN(42); i < n; i++ { // the OS follows 40
			p := fmt.Sprintf("/k%d", i)
			t := fmt.Sprintf("k%d", i-1)
			if i == 0 {
				t = "." + some()
			} else if r.IntN(3) == 0 {
				t = "{B}/" + t
			}
			add(core.Op{K: "symlink", P: "{B}" + p, Q: t})
			links = append(links, p)
		}
		if n := len(links); n > 1 {
			links = append(links[:1:1], links[n-1])
		}
	}
	if r.IntN(15) == 0 { // depth
		p := ""
		pre := ""
		if r.IntN(3) == 0 {
			pre = strings.Repeat("w", r.IntN(250))
		}
		for n := 20 + r.IntN(300); n > 0 && len(p) < 2500; n-- {
			p += "/" + pre + pathNames[r.IntN(5)]
		}
		add(core.Op{K: "mkdirall", P: "{B}" + p})
		dirs = append(dirs, p, p)
	}
	for ; nl > 0; nl-- {
		if p, ok := fresh(); ok {
			add(core.Op{K: "symlink", P: "{B}" + p, Q: target(p)})
			links = append(links, p)
		}
	}
	root := r.IntN(30) == 0
	if root {
		c.Cfg["root"] = 1
	}
	var ws []core.Op
	for i := 4 + r.IntN(12); i > 0; i-- {
		// What a name means changes, and earlier spellings are tried again.
		if r.IntN(5) == 0 {
			if p := some(); p != "" {
				add(core.Op{K: "away", P: "{B}" + p})
				switch x := r.IntN(8); {
				case x < 5:
					add(core.Op{K: "symlink", P: "{B}" + p, Q: target(p)})
				case x == 5:
					add(core.Op{K: "mkdir", P: "{B}" + p})
				case x == 6:
					add(core.Op{K: "create", P: "{B}" + p})
				}
			}
			if len(ws) > 0 && r.IntN(2) == 0 {
				add(ws[len(ws)-1])
			}
		}
		if len(ws) > 0 && r.IntN(4) == 0 {
			add(ws[r.IntN(len(ws))])
			continue
		}
		p := some()
		for n := max(0, r.IntN(5)-2); n > 0; n-- { // go on from there
			q := some()
			if k := strings.Split(q, "/"); len(k) > 1 {
				p += "/" + k[len(k)-1]
			}
		}
		if r.IntN(14) == 0 {
			p += "/" + name()
		}
		p = decorate(p)
		if r.IntN(10) == 0 {
			p += "/.."
		}
		if r.IntN(8) == 0 {
			p += []string{"/", "//", "/.", "/./"}[r.IntN(4)]
		}
		op := core.Op{K: "watch", R: r.IntN(3) == 0}
		switch {
		case root || r.IntN(2) == 0:
			op.P = "{B}" + p
			if r.IntN(10) == 0 {
				op.P = "/" + op.P
			}
		default:
			op.S = "{B}" + dirs[r.IntN(len(dirs))] // the current directory
			rel, err := filepath.Rel("/B"+strings.TrimPrefix(op.S, "{B}"), "/B"+p)
			if err != nil {
				continue
			}
			op.P = decorate(rel)
			if r.IntN(4) == 0 {
				op.P = "./" + op.P
			}
			if r.IntN(8) == 0 {
				op.P += "/"
			}
		}
		add(op)
		ws = append(ws, op)
	}
	return c
}

func runPaths(c core.Case) core.Result {
	if c.Cfg["root"] == 1 {
		return inRoot(c)
	}
	base := fmt.Sprintf("%s/p%d-%d", os.Getenv("VH_SCRATCH"), os.Getpid(), caseNo.Add(1))
	must(os.Mkdir(base, 0o755))
	base, err := filepath.EvalSymlinks(base)
	must(err)
	defer os.RemoveAll(base)
	return pathCase(c, base)
}

// inRoot runs the case in a process of its own whose root directory is the forest, in a
// user namespace.
func inRoot(c core.Case) (res core.Result) {
	base := fmt.Sprintf("%s/p%d-%d", os.Getenv("VH_SCRATCH"), os.Getpid(), caseNo.Add(1))
	must(os.Mkdir(base, 0o755))
	defer os.RemoveAll(base)
	self, err := os.Executable()
	must(err)
	b, _ := json.Marshal(c)
	cmd := exec.Command(self, "rootworker", base)
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
	if err := cmd.Start(); err != nil {
		return core.Result{Verdict: core.OK, Stats: map[string]int{"no-user-namespace": 1}}
	}
	t := time.AfterFunc(80*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	err = cmd.Wait()
	if strings.Contains(errb.String(), "NO-CHROOT") {
		return core.Result{Verdict: core.OK, Stats: map[string]int{"no-chroot": 1}}
	}
	defer func() {
		if res.Stats != nil {
			res.Stats["chroot-cases"]++
			res.Stats["chroot-vialink"] += res.Stats["vialink"]
		}
	}()
	if e := json.Unmarshal(out.Bytes(), &res); e != nil {
		res.Verdict, res.Msg = core.Error, fmt.Sprintf("rootworker: %v: %s", err, errb.String())
		if strings.Contains(errb.String(), "panic:") || strings.Contains(errb.String(), "fatal error:") {
			res.Verdict = core.Crash
		}
	}
	return res
}

// RootWorker is the entry point of the process started by inRoot.
func RootWorker(base string) {
	// The current directory stays outside, for /proc/self.
	if err := os.Chdir("/proc/self"); err == nil {
		err = syscall.Chroot(base)
		if err != nil {
			fmt.Fprintln(os.Stderr, "NO-CHROOT", err)
			os.Exit(4)
		}
	}
	core.ProcSelf = "."
	var c core.Case
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		core.Fatalf("%v", err)
	}
	var res core.Result
	if c.Engine == "probe" {
		res = rootProbe(c)
	} else {
		res = pathCase(c, "")
	}
	json.NewEncoder(os.Stdout).Encode(res)
	os.Exit(0)
}

// pathCase builds the forest below base and tries the spellings.
func pathCase(c core.Case, base string) (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	text := func(s string) string { return strings.ReplaceAll(s, "{B}", base) }
	fail := func(i int, format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Dirty = core.Violation, true
			res.Msg = fmt.Sprintf("op %d: ", i) + fmt.Sprintf(format, v...)
		}
	}
	ch := make(chan notify.EventInfo, 4096)
	if base != "" {
		defer os.Chdir("/")
	}
	viaLink := 0
	for i, op := range c.Ops {
		p := text(op.P)
		switch op.K {
		case "mkdir":
			os.Mkdir(p, 0o755)
		case "mkdirall":
			os.MkdirAll(p, 0o755)
		case "away":
			os.Rename(p, fmt.Sprintf("%s/old%d", base, i))
		case "create":
			if f, err := os.OpenFile(p, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644); err == nil {
				f.Close()
			}
		case "symlink":
			if t := text(op.Q); t != "" {
				os.Symlink(t, p)
			}
		case "watch":
			if op.S != "" {
				if os.Chdir(text(op.S)) != nil {
					continue
				}
			} else if base != "" {
				os.Chdir("/")
			}
			if p == "" {
				continue
			}
			if r := pathWatch(op, p, base, ch, &viaLink, res.Stats); r != "" {
				if strings.HasPrefix(r, "HANG") {
					res.Verdict, res.Msg = core.Hang, r
					return
				}
				fail(i, "Watch(%q, rec=%v) in %q: %s", p, op.R, text(op.S), r)
				return
			}
		}
	}
	res.Nontrivial = viaLink > 0 && res.Stats["accepted"] > 0
	return
}

// trailing reports whether resolving p runs into a link to "file/", which the OS refuses.
func trailing(p string) bool {
	cur := ""
	seen := 0
	var walk func(string) bool
	walk = func(p string) bool {
		for _, s := range strings.Split(p, "/") {
			if s == "" || s == "." {
				continue
			}
			if s == ".." {
				cur = cur[:max(0, strings.LastIndex(cur, "/"))]
				continue
			}
			q := cur + "/" + s
			t, err := os.Readlink(q)
			if err != nil {
				cur = q
				continue
			}
			if seen++; seen > 200 {
				return true
			}
			if strings.HasSuffix(t, "/") && strings.Trim(t, "./") != "" {
				if fi, err := os.Stat(q + "/."); err != nil || !fi.IsDir() {
					return true
				}
			}
			if strings.HasPrefix(t, "/") {
				cur = ""
			}
			if walk(t) {
				return true
			}
		}
		return false
	}
	return walk(p)
}

func pathWatch(op core.Op, p, base string, ch chan notify.EventInfo, viaLink *int, stats map[string]int) string {
	abs, err := filepath.Abs(p)
	if err != nil {
		return ""
	}
	if !op.R && strings.HasSuffix(p, "...") {
		p += "/" // would ask for recursion
	}
	var st unix.Stat_t
	serr := unix.Stat(abs, &st)
	in := abs == base || strings.HasPrefix(abs, base+"/")
	var real string
	if serr == nil {
		if real, err = filepath.EvalSymlinks(abs); err != nil {
			return "" // cannot say where it is
		}
		in = real == base || strings.HasPrefix(real, base+"/")
		if base == "" && real == "/" {
			return "" // known finding watch-root
		}
	}
	if serr == nil && !in {
		return "" // outside of the forest
	}
	if serr == unix.ELOOP {
		if _, err := filepath.EvalSymlinks(abs); err == nil {
			stats["unspecified"]++ // more links than the OS follows, but no cycle
			return ""
		}
	}
	if serr != nil && trailing(abs) {
		stats["unspecified"]++
		return ""
	}
	isDir := st.Mode&unix.S_IFMT == unix.S_IFDIR
	wp := p
	if op.R {
		wp = p + "/..."
		if strings.HasSuffix(p, "/") {
			wp = p + "..."
		}
	}
	done := make(chan error, 1)
	go func() { done <- notify.Watch(wp, ch, notify.Create, notify.Write, notify.Remove) }()
	select {
	case err = <-done:
	case <-time.After(core.QuiesceTimeout):
		return "HANG: Watch did not return\n" + string(core.AllStacks())
	}
	defer func() {
		notify.Stop(ch)
		drainAll(ch)
	}()
	stats["watch"]++
	if serr != nil {
		stats["rejected"]++
		if err == nil {
			return fmt.Sprintf("accepted, but the OS says: %v", serr)
		}
		return ""
	}
	if op.R && !isDir {
		return ""
	}
	if err != nil {
		return fmt.Sprintf("failed: %v, but the OS resolves it to %q", err, real)
	}
	stats["accepted"]++
	if real != abs {
		*viaLink++
		stats["vialink"]++
	}
	// The right object is watched.
	ws := core.KernelWatches()
	found := false
	for _, w := range ws {
		found = found || w.Ino == st.Ino
	}
	if !found {
		return fmt.Sprintf("inode %d (%q) is not watched: %v", st.Ino, real, ws)
	}
	if !op.R && len(ws) != 1 {
		return fmt.Sprintf("%d objects are watched: %v", len(ws), ws)
	}
	// Events carry its real path.
	var want []string
	if isDir {
		f := filepath.Join(real, "zz")
		must(os.WriteFile(f, nil, 0o644))
		must(os.Remove(f))
		want = append(want, f)
		ents, err := os.ReadDir(real)
		must(err)
		for _, e := range ents {
			if e.IsDir() {
				f := filepath.Join(real, e.Name(), "zz")
				must(os.WriteFile(f, nil, 0o644))
				must(os.Remove(f))
				if op.R {
					want = append(want, f)
				}
				break
			}
		}
	} else {
		f, err := os.OpenFile(real, os.O_WRONLY|os.O_APPEND, 0)
		must(err)
		f.Write([]byte("x"))
		f.Close()
		want = append(want, real)
	}
	if err := core.Quiesce(); err != nil {
		return "HANG: " + err.Error()
	}
	got := map[string]bool{}
	for len(ch) > 0 {
		e := <-ch
		if k := e.Event(); isDir && k != notify.Create && k != notify.Remove {
			return fmt.Sprintf("unexpected event %v", e)
		}
		got[e.Path()] = true
	}
	for _, w := range want {
		if !got[w] {
			return fmt.Sprintf("no event for %q, got %v", w, got)
		}
		delete(got, w)
	}
	if len(got) > 0 {
		return fmt.Sprintf("unexpected events for %v", got)
	}
	notify.Stop(ch)
	if ws := core.KernelWatches(); len(ws) > 0 {
		return fmt.Sprintf("after Stop: %v are watched", ws)
	}
	return ""
}

// rootProbe: Watch("/") never delivers anything (known finding watch-root).
func rootProbe(c core.Case) (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	must(os.Mkdir("/d", 0o755))
	ch := make(chan notify.EventInfo, 100)
	if err := notify.Watch("/", ch, notify.Create); err != nil {
		res.Known = append(res.Known, "watch-root")
		return
	}
	must(os.WriteFile("/f", nil, 0o644))
	if err := core.Quiesce(); err != nil {
		res.Verdict, res.Msg = core.Hang, err.Error()
		return
	}
	if len(ch) == 0 {
		res.Known = append(res.Known, "watch-root")
	}
	notify.Stop(ch)
	return
}
