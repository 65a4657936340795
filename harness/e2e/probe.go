package e2e

// Fixed cases that show the known findings.

import (
	"fmt"
	"math/rand/v2"
	"os"

	"vh/core"

	"github.com/rjeczalik/notify"
)

var probes = map[string][]string{
	"C01": {"racy-rewatch", "watch-root", "hard-links"},
	"C03": {"stale-watchpoint"},
}

func genProbe(prop, tier string, r *rand.Rand) core.Case { return core.Case{} }

func runProbe(c core.Case) core.Result {
	ps := probes[c.Prop]
	switch ps[c.Index%len(ps)] {
	case "watch-root":
		return inRoot(c)
	case "stale-watchpoint":
		return staleProbe()
	case "hard-links":
		return linksProbe()
	default:
		return racyProbe()
	}
}

// racyProbe: below a recursive watch a directory is removed and created again, and watched
// before the library noticed; what happens in it at once is lost.
func racyProbe() (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	base := fmt.Sprintf("%s/q%d-%d", os.Getenv("VH_SCRATCH"), os.Getpid(), caseNo.Add(1))
	must(os.MkdirAll(base+"/d", 0o755))
	defer os.RemoveAll(base)
	must(os.WriteFile(base+"/f", nil, 0o644))
	c0, c1 := make(chan notify.EventInfo, 1000), make(chan notify.EventInfo, 1000)
	defer notify.Stop(c0)
	must(notify.Watch(base+"/...", c0, notify.Create, notify.Remove, notify.Write))
	for i := 0; i < 2000; i++ {
		if err := core.Quiesce(); err != nil {
			res.Verdict, res.Msg = core.Hang, err.Error()
			return
		}
		for k := 0; k < 300; k++ { // keeps the library busy
			must(os.Truncate(base+"/f", int64(k)))
		}
		must(os.Remove(base + "/d"))
		must(os.Mkdir(base+"/d", 0o755))
		if err := notify.Watch(base+"/d", c1, notify.Create); err != nil {
			break
		}
		must(os.Mkdir(base+"/d/x", 0o755))
		if err := core.Quiesce(); err != nil {
			res.Verdict, res.Msg = core.Hang, err.Error()
			return
		}
		n := drainAll(c1)
		notify.Stop(c1)
		must(os.Remove(base + "/d/x"))
		drainAll(c0)
		res.Stats["racy-tries"]++
		if n == 0 {
			res.Known = append(res.Known, "racy-rewatch")
			return
		}
	}
	return
}

// staleProbe: a watched directory is removed and created again while nothing watches its
// parent; a recursive Watch above it that needs no further events of it does not watch it.
func staleProbe() (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	base := fmt.Sprintf("%s/q%d-%d", os.Getenv("VH_SCRATCH"), os.Getpid(), caseNo.Add(1))
	must(os.MkdirAll(base+"/a/b", 0o755))
	defer os.RemoveAll(base)
	c0, c1 := make(chan notify.EventInfo, 10), make(chan notify.EventInfo, 10)
	defer notify.Stop(c0)
	defer notify.Stop(c1)
	must(notify.Watch(base+"/a/b/...", c1, notify.All))
	must(os.Remove(base + "/a/b"))
	must(os.Mkdir(base+"/a/b", 0o755))
	for _, f := range []func() error{core.Quiesce, func() error {
		if err := notify.Watch(base+"/...", c0, notify.Create); err != nil {
			return err
		}
		return os.Mkdir(base+"/a/b/x", 0o755)
	}, core.Quiesce} {
		if err := f(); err != nil {
			res.Verdict, res.Msg = core.Violation, err.Error()
			return
		}
	}
	if drainAll(c0) == 0 {
		res.Known = append(res.Known, "stale-watchpoint")
	}
	return
}

// linksProbe: of two names of one file which are both watched only the one watched last is
// reported.
func linksProbe() (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	base := fmt.Sprintf("%s/q%d-%d", os.Getenv("VH_SCRATCH"), os.Getpid(), caseNo.Add(1))
	must(os.MkdirAll(base, 0o755))
	defer os.RemoveAll(base)
	must(os.WriteFile(base+"/f", nil, 0o644))
	must(os.Link(base+"/f", base+"/g"))
	c0, c1 := make(chan notify.EventInfo, 10), make(chan notify.EventInfo, 10)
	defer notify.Stop(c0)
	defer notify.Stop(c1)
	must(notify.Watch(base+"/f", c0, notify.Write))
	must(notify.Watch(base+"/g", c1, notify.Write))
	must(os.Truncate(base+"/f", 1))
	must(os.WriteFile(base+"/f", []byte("x"), 0o644))
	if err := core.Quiesce(); err != nil {
		res.Verdict, res.Msg = core.Hang, err.Error()
		return
	}
	if drainAll(c0) == 0 {
		res.Known = append(res.Known, "hard-links")
	}
	return
}
