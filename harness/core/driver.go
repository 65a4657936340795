package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type worker struct {
	cmd    *exec.Cmd
	in     *os.File
	out    *bufio.Reader
	outf   *os.File
	stderr *tailBuf
}

// tailBuf keeps the beginning and the end of what is written to it.
type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if r := 16<<10 - len(t.head); r > 0 {
		if r > len(p) {
			r = len(p)
		}
		t.head = append(t.head, p[:r]...)
		p = p[r:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 16<<10 {
		t.tail = append([]byte(nil), t.tail[len(t.tail)-16<<10:]...)
	}
	return n, nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	var b strings.Builder
	for _, l := range strings.SplitAfter(string(t.head)+string(t.tail), "\n") {
		if !strings.HasPrefix(l, "SCHED ") && !sched.MatchString(l) {
			b.WriteString(l)
		}
	}
	return b.String()
}

// sched matches what GODEBUG=schedtrace adds to a crash report.
var sched = regexp.MustCompile(`^  [PMG]\d+: `)

type Driver struct {
	Engines []Engine
	Prop    string
	Tier    string
	Seed    uint64
	Verif   string
	Scratch string
	Known   []Finding
	env     []string
	caseTO  time.Duration
}

// Finding is one line of the known-findings file.
type Finding struct{ Prop, Key, Text string }

// LoadFindings reads known_findings.txt: lines "finding: property=<id> key=<key> <text>".
func LoadFindings(path, prop string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var fs []Finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var f Finding
		fields := strings.Fields(l)
		for i, w := range fields[1:] {
			if strings.HasPrefix(w, "property=") {
				f.Prop = w[len("property="):]
			} else if strings.HasPrefix(w, "key=") {
				f.Key = w[len("key="):]
			} else {
				f.Text = strings.Join(fields[1+i:], " ")
				break
			}
		}
		if f.Prop == prop {
			fs = append(fs, f)
		}
	}
	return fs
}

func (d *Driver) spawn(extra ...string) *worker {
	r, w, err := os.Pipe()
	if err != nil {
		fail("pipe: %v", err)
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		fail("pipe: %v", err)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker")
	cmd.Env = append(append(append([]string{}, os.Environ()...), d.env...), extra...)
	cmd.Stdin = r
	tb := &tailBuf{}
	cmd.Stderr = tb
	cmd.Stdout = tb
	cmd.ExtraFiles = []*os.File{w2}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	err = cmd.Start()
	runtime.UnlockOSThread()
	if err != nil {
		fail("starting worker: %v", err)
	}
	r.Close()
	w2.Close()
	return &worker{cmd: cmd, in: w, out: bufio.NewReaderSize(r2, 1<<20), outf: r2, stderr: tb}
}

func (w *worker) stop() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
	w.outf.Close()
}

// run executes one case in the worker; on worker death or timeout the worker is gone.
func (w *worker) run(c Case, to time.Duration) (res Result, alive bool) {
	b, _ := json.Marshal(c)
	b = append(b, '\n')
	w.outf.SetReadDeadline(time.Now().Add(to))
	_, werr := w.in.Write(b)
	var line []byte
	var err error
	if werr == nil {
		line, err = w.out.ReadBytes('\n')
	} else {
		err = werr
	}
	if err == nil {
		if e := json.Unmarshal(line, &res); e != nil {
			return Result{Verdict: Error, Msg: "bad result: " + e.Error()}, false
		}
		if res.Dirty || res.Verdict == Hang {
			w.stop()
			return res, false
		}
		return res, true
	}
	if os.IsTimeout(err) {
		// Ask for the stacks, then end the worker.
		w.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(300 * time.Millisecond)
		w.cmd.Process.Kill()
		w.cmd.Wait()
		w.outf.Close()
		w.in.Close()
		return Result{Index: c.Index, Verdict: Hang, Msg: "case did not finish in " + to.String() + "\n" + w.stderr.String()}, false
	}
	w.in.Close()
	werr = w.cmd.Wait()
	w.outf.Close()
	txt := w.stderr.String()
	res = Result{Index: c.Index, Msg: fmt.Sprintf("worker died: %v\n%s", werr, txt)}
	switch {
	case strings.Contains(txt, "HARNESS-ERROR"):
		res.Verdict = Error
	case strings.Contains(txt, "panic:"), strings.Contains(txt, "fatal error:"), strings.Contains(txt, "WARNING: DATA RACE"), strings.Contains(txt, "SIGSEGV"):
		res.Verdict = Crash
		if strings.Contains(txt, "out of memory") || strings.Contains(txt, "cannot allocate") || strings.Contains(txt, "failed to create new OS thread") {
			res.Verdict = Error
		}
	default:
		res.Verdict = Error
	}
	return res, false
}

func fail(format string, v ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", v...)
	os.Exit(2)
}

func bad(v string) bool { return v == Violation || v == Hang || v == Crash }

// once runs a case in a fresh process.
func (d *Driver) once(c Case, long bool) Result {
	to := d.caseTO
	q := "20"
	if long {
		to, q = 3*to, "60"
	}
	w := d.spawn("VH_QUIESCE_S=" + q)
	r, alive := w.run(c, to)
	if alive {
		w.stop()
	}
	return r
}

// reproduce re-runs a case until it fails again.
func (d *Driver) reproduce(c Case, tries int, long bool) (Result, int, bool) {
	for i := 1; i <= tries; i++ {
		r := d.once(c, long)
		if bad(r.Verdict) {
			return r, i, true
		}
		if r.Verdict == Error {
			return r, i, false
		}
	}
	return Result{}, tries, false
}

func (d *Driver) engine(name string) *Engine {
	for i := range d.Engines {
		if d.Engines[i].Name == name {
			return &d.Engines[i]
		}
	}
	fail("no engine %q", name)
	return nil
}

// shrink removes operations while the case still fails.
func (d *Driver) shrink(c Case, res Result, tries int) (Case, Result, int) {
	budget := 400
	deadline := time.Now().Add(100 * time.Second)
	if res.Verdict == Hang {
		budget, deadline = 12, time.Now().Add(150*time.Second)
	}
	n := 0
	test := func(x Case) (Result, bool) {
		if n >= budget || time.Now().After(deadline) {
			return Result{}, false
		}
		n++
		r, _, ok := d.reproduce(x, tries, false)
		return r, ok
	}
	eng := d.engine(c.Engine)
	for changed := true; changed; {
		changed = false
		for size := (len(c.Ops) + 1) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(c.Ops); {
				x := c.Clone()
				x.Ops = append(append([]Op{}, c.Ops[:i]...), c.Ops[i+size:]...)
				if r, ok := test(x); ok {
					c, res, changed = x, r, true
				} else {
					i += size
				}
			}
		}
		if eng.Simplify != nil {
			for _, x := range eng.Simplify(c) {
				if r, ok := test(x); ok {
					c, res, changed = x, r, true
					break
				}
			}
		}
		if n >= budget || time.Now().After(deadline) {
			break
		}
	}
	return c, res, n
}

type Replay struct {
	Case    Case   `json:"case"`
	Verdict string `json:"verdict"`
	Msg     string `json:"msg"`
	Seed    uint64 `json:"seed"`
	Tier    string `json:"tier"`
}

func (d *Driver) writeReplay(c Case, r Result) string {
	dir := filepath.Join(d.Verif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", d.Prop, c.Hash()))
	b, _ := json.MarshalIndent(Replay{c, r.Verdict, r.Msg, d.Seed, d.Tier}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        uint64                 `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

// Main is the entry point of a check binary.
func Main(engines []Engine, assumptions map[string][]string) {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		WorkerMain(engines)
		return
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	verif := fs.String("verif", "/verif", "directory of the checks")
	replay := fs.String("replay", "", "replay file")
	only := fs.Int("case", -1, "run a single generated case and print it")
	num := fs.Int("n", 0, "override the number of cases")
	workers := fs.Int("workers", 0, "number of workers")
	doShrink := fs.Bool("shrink", false, "with -replay: shrink the case")
	show := fs.Bool("show", false, "print all failing cases without shrinking")
	engine := fs.String("engine", "", "run only this engine")
	fs.Parse(os.Args[1:])
	if *engine != "" {
		var es []Engine
		for _, e := range engines {
			if e.Name == *engine {
				es = append(es, e)
			}
		}
		engines = es
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(n)
		}
	}
	start := time.Now()
	scratch, err := os.MkdirTemp(scratchParent(), "vh-")
	if err != nil {
		fail("scratch: %v", err)
	}
	os.Chmod(scratch, 0o755)
	cleanup := func() {
		filepath.Walk(scratch, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0o755)
			}
			return nil
		})
		os.RemoveAll(scratch)
	}
	exit := func(code int) {
		cleanup()
		os.Exit(code)
	}
	d := &Driver{Engines: engines, Prop: *prop, Tier: *tier, Seed: seed, Verif: *verif, Scratch: scratch,
		env: []string{"VH_SCRATCH=" + scratch, "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all",
			// Keeps the runtime's monitor thread awake: with it asleep, a process in which one
			// goroutine sits in a raw blocking system call was seen to leave runnable goroutines
			// and expired timers alone for 60 seconds.
			"GODEBUG=schedtrace=2000000000"},
		caseTO: 90 * time.Second}

	if *replay != "" {
		var rp Replay
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(2)
		}
		tries := 20
		r, n, ok := d.reproduce(rp.Case, tries, false)
		if ok && *doShrink {
			c, r2, _ := d.shrink(rp.Case, r, 6)
			b, _ := json.Marshal(c.Ops)
			fmt.Printf("%s\n%s\n", b, r2.Msg)
			exit(1)
		}
		if ok {
			fmt.Printf("reproduced on try %d: %s: %s\nVIOLATION property=%s replay=%s\n", n, r.Verdict, r.Msg, rp.Case.Prop, *replay)
			exit(1)
		}
		if r.Verdict == Error {
			fmt.Println("error:", r.Msg)
			exit(2)
		}
		fmt.Printf("not reproduced in %d tries\n", tries)
		exit(0)
	}

	if *only >= 0 {
		for _, e := range engines {
			if n := e.Count(*prop, *tier); n > 0 && (*only < n || *only < *num) {
				c := gen(e, *prop, *tier, seed, *only)
				b, _ := json.Marshal(c)
				fmt.Println(string(b))
				r := d.once(c, false)
				b, _ = json.MarshalIndent(r, "", " ")
				fmt.Println(string(b))
				fmt.Println(r.Msg)
				break
			} else {
				*only -= n
			}
		}
		exit(0)
	}

	d.Known = LoadFindings(filepath.Join(*verif, "known_findings.txt"), *prop)
	type job struct {
		eng Engine
		i   int
	}
	var jobs []job
	base := 0
	for _, e := range engines {
		n := e.Count(*prop, *tier)
		if *num > 0 && n > 0 {
			n = *num
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{e, i})
		}
		base += n
	}
	if len(jobs) == 0 {
		fail("no engine for property %q", *prop)
	}
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU() - 1
		if nw < 2 {
			nw = 2
		}
		if nw > 7 {
			nw = 7
		}
	}
	var (
		mu        sync.Mutex
		next      int
		ran       int
		stop      bool
		failures  []Case
		failRes   []Result
		errs      []string
		stats     = map[string]int{}
		seen      = map[uint64]bool{}
		nontriv   int
		samples   []interface{}
		knownSeen = map[string]bool{}
		engCount  = map[string]int{}
	)
	wall := 420 * time.Second
	if *tier == "thorough" {
		wall = 100 * time.Minute
	}
	capped := false
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			served := 0
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				if time.Since(start) > wall {
					capped = true
				}
				if stop || next >= len(jobs) || capped {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				c := gen(j.eng, *prop, *tier, seed, j.i)
				if w != nil && served > 500 {
					w.stop()
					w, served = nil, 0
				}
				if w == nil {
					w = d.spawn()
				}
				served++
				t0 := time.Now()
				r, alive := w.run(c, d.caseTO)
				if t := time.Since(t0); t > 5*time.Second && os.Getenv("VH_DEBUG") != "" {
					b, _ := json.Marshal(c)
					fmt.Printf("slow case %d: %v %s %s\n%s\n", c.Index, t, r.Verdict, r.Msg, b)
				}
				if !alive {
					w, served = nil, 0
				}
				mu.Lock()
				ran++
				engCount[c.Engine]++
				for k, v := range r.Stats {
					stats[k] += v
				}
				for _, k := range r.Known {
					knownSeen[k] = true
				}
				if r.Nontrivial {
					if h := c.Hash(); !seen[h] {
						seen[h] = true
						nontriv++
						if len(samples) < 3 && (nontriv%7 == 1) && len(c.Ops) < 60 {
							samples = append(samples, c)
						}
					}
				}
				if bad(r.Verdict) {
					failures = append(failures, c)
					failRes = append(failRes, r)
					if *show {
						b, _ := json.Marshal(c)
						fmt.Printf("FAIL %d %s %s\n%s\n", c.Index, r.Verdict, r.Msg, b)
					}
					if len(failures) >= 3 && !*show {
						stop = true
					}
				} else if r.Verdict == Error {
					errs = append(errs, fmt.Sprintf("case %d: %s", c.Index, r.Msg))
					if len(errs) > 3 {
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	rules := []string{}
	for _, e := range engines {
		if e.Count(*prop, *tier) > 0 {
			rules = append(rules, e.Rule(*prop))
		}
	}
	if len(samples) == 0 {
		for i := 0; i < len(jobs) && len(samples) < 1; i++ {
			samples = append(samples, gen(jobs[i].eng, *prop, *tier, seed, jobs[i].i))
		}
	}
	cov := map[string]interface{}{
		"evaluations":         ran,
		"distinct_nontrivial": nontriv,
		"rule":                strings.Join(rules, " | "),
		"samples":             samples,
		"classes":             stats,
		"planned":             len(jobs),
		"by_engine":           engCount,
	}
	if capped {
		cov["stopped_early"] = "time cap reached before all planned cases ran"
	}
	ev := evidence{Property: *prop, Tier: *tier, Seed: seed, Level: "exploration", Coverage: cov, Assumptions: assumptions[*prop]}
	code := 0
	var unrepro []string
	if len(failures) > 0 && !*show {
		done := false
		for i, c := range failures {
			long := failRes[i].Verdict == Hang
			tries := 12
			if long {
				tries = 2
			}
			r, n, ok := d.reproduce(c, tries, long)
			if !ok {
				fmt.Printf("note: case %d failed once (%s) but not in %d further runs: %s\n", c.Index, failRes[i].Verdict, n, firstLines(failRes[i].Msg, 6))
				unrepro = append(unrepro, fmt.Sprintf("case %d: %s", c.Index, failRes[i].Msg))
				continue
			}
			p := d.writeReplay(c, r)
			st := 1
			if n > 1 {
				st = 4
			}
			sc, sr, k := d.shrink(c, r, st)
			sp := d.writeReplay(sc, sr)
			if sp != p {
				os.Remove(p)
			}
			b, _ := json.Marshal(sc)
			fmt.Printf("failure (%s), %d ops after %d shrinking runs, reproduced on try %d:\n%s\ncase: %s\n", sr.Verdict, len(sc.Ops), k, n, firstLines(sr.Msg, 60), b)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, sp)
			ev.Violations++
			code = 1
			done = true
			break
		}
		if !done && len(failures) >= 2 && failRes[0].Verdict != Hang {
			// Several independent observations of a failure that depends on the schedule.
			p := d.writeReplay(failures[0], failRes[0])
			fmt.Printf("failure (%s) that depends on the schedule, seen in %d cases:\n%s\n", failRes[0].Verdict, len(failures), firstLines(failRes[0].Msg, 40))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			ev.Violations++
			code = 1
		}
	}
	if *show && len(failures) > 0 {
		fmt.Printf("%d failures of %d\n", len(failures), ran)
	}
	for _, f := range d.Known {
		if knownSeen[f.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.Text)
		}
	}
	var unlisted []string
	for k := range knownSeen {
		ok := false
		for _, f := range d.Known {
			ok = ok || f.Key == k
		}
		if !ok {
			unlisted = append(unlisted, k)
		}
	}
	sort.Strings(unlisted)
	if len(unlisted) > 0 && code == 0 {
		c := Case{Prop: *prop, Engine: "probe", Ops: []Op{{K: unlisted[0]}}}
		p := d.writeReplay(c, Result{Verdict: Violation, Msg: "finding not listed: " + strings.Join(unlisted, ",")})
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		ev.Violations++
		code = 1
	}
	if len(unrepro) > 0 {
		cov["unreproduced"] = unrepro
	}
	if code == 0 && len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR:", firstLines(e, 80))
		}
		code = 2
	}
	ev.WallS = float64(int(time.Since(start).Seconds()*100)) / 100
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	b = append(b, '\n')
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR: evidence:", err)
		code = 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", *prop, *tier, seed, ran, nontriv, ev.Violations, time.Since(start).Seconds())
	exit(code)
}

func gen(e Engine, prop, tier string, seed uint64, i int) Case {
	c := e.Gen(prop, tier, NewRand(seed, prop+"/"+e.Name, i))
	c.Prop, c.Engine, c.Index = prop, e.Name, i
	return c
}

func firstLines(s string, n int) string {
	l := bytes.SplitN([]byte(s), []byte("\n"), n+1)
	if len(l) > n {
		l = l[:n]
	}
	return string(bytes.Join(l, []byte("\n")))
}

func scratchParent() string {
	var st syscall.Statfs_t
	if syscall.Statfs("/dev/shm", &st) == nil && st.Type == 0x01021994 && st.Bavail*uint64(st.Bsize) > 256<<20 {
		if f, err := os.CreateTemp("/dev/shm", "vh-probe-"); err == nil {
			f.Close()
			os.Remove(f.Name())
			return "/dev/shm"
		}
	}
	return os.TempDir()
}
