//go:build !c15 && !c17

package platcheck

import (
	"fmt"
	"math/rand/v2"
	"path"
	"sort"
	"strings"
	"time"

	"vh/core"
	notify "vh/plat/fsevents"
)

// The macOS backend on a simulated FSEvents library: the harness is the dispatch queue.

var fseEvents = []notify.Event{
	notify.FSEventsCreated, notify.FSEventsRemoved, notify.FSEventsModified, notify.FSEventsRenamed,
	notify.FSEventsInodeMetaMod, notify.FSEventsFinderInfoMod, notify.FSEventsChangeOwner, notify.FSEventsXattrMod,
	notify.FSEventsIsFile, notify.FSEventsIsDir, notify.FSEventsIsSymlink,
	notify.FSEventsMustScanSubDirs, notify.FSEventsUserDropped, notify.FSEventsKernelDropped,
	notify.FSEventsEventIdsWrapped, notify.FSEventsHistoryDone, notify.FSEventsRootChanged,
	notify.FSEventsMount, notify.FSEventsUnmount,
}

const (
	fseFailure = uint32(notify.FSEventsMustScanSubDirs | notify.FSEventsUserDropped | notify.FSEventsKernelDropped)
	fseWrite   = uint32(notify.FSEventsModified | notify.FSEventsInodeMetaMod)
)

var fsePaths = []string{"/r", "/r/a", "/r/a/b", "/r/ab", "/r/a b", "/r/a/é", "/q", "/r/a/b/c"}

func randFlags(r *rand.Rand) uint32 {
	var f uint32
	switch r.IntN(8) {
	case 0: // anything the documentation names
		for _, e := range fseEvents {
			if r.IntN(5) == 0 && e != notify.FSEventsHistoryDone { // the marker comes alone
				f |= uint32(e)
			}
		}
	case 1:
		f = uint32(fseEvents[r.IntN(len(fseEvents))])
	default: // what coalescing yields
		for _, e := range fseEvents[:8] {
			if r.IntN(3) == 0 {
				f |= uint32(e)
			}
		}
		f |= uint32(fseEvents[8+r.IntN(3)])
	}
	return f
}

func randSet(r *rand.Rand) uint32 {
	if r.IntN(2) == 0 {
		return 1<<8 | 1<<9 | uint32(r.IntN(1<<19)) // Create, Remove and others
	}
	return randFlags(r)
}

func genFSE(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{}}
	if r.IntN(8) == 0 {
		c.Cfg["fault"] = 1 + r.IntN(5)
	}
	few := r.IntN(2) == 0
	p := func() string {
		if few {
			return fsePaths[r.IntN(3)]
		}
		return fsePaths[r.IntN(len(fsePaths))]
	}
	leaf := func() string {
		if few {
			return []string{"/r", "/r/a", "/r/a/b", "/r/a/f"}[r.IntN(4)]
		}
		return path.Join(p(), []string{"", "f", "b", "a/b", "é", "f.x"}[r.IntN(6)])
	}
	for i := 1 + r.IntN(2); i > 0; i-- {
		c.Ops = append(c.Ops, core.Op{K: "watch", P: p(), R: r.IntN(2) == 0, E: randSet(r)})
	}
	if r.IntN(4) > 0 {
		c.Ops = append(c.Ops, core.Op{K: "event", P: "/r", E: uint32(notify.FSEventsHistoryDone)}, core.Op{K: "send"})
	}
	for i := 4 + r.IntN(40); i > 0; i-- {
		switch x := r.IntN(40); {
		case x == 0:
			c.Ops = append(c.Ops, core.Op{K: "unwatch", P: p(), R: r.IntN(2) == 0})
		case x < 3:
			c.Ops = append(c.Ops, core.Op{K: "watch", P: p(), R: r.IntN(2) == 0, E: randSet(r)})
		case x < 6:
			c.Ops = append(c.Ops, core.Op{K: "rewatch", P: p(), R: r.IntN(2) == 0, N: r.IntN(6), E: randSet(r)})
		case x == 6:
			c.Ops = append(c.Ops, core.Op{K: "move", P: p(), Q: p(), E: randSet(r)})
		case x < 12:
			c.Ops = append(c.Ops, core.Op{K: "send"})
		case x == 12 && r.IntN(4) == 0:
			c.Ops = append(c.Ops, core.Op{K: "event", P: "/r", E: uint32(notify.FSEventsHistoryDone)})
		case x == 13:
			c.Ops = append(c.Ops, core.Op{K: "late"})
		default:
			c.Ops = append(c.Ops, core.Op{K: "event", P: leaf(), E: randFlags(r)})
		}
	}
	return c
}

// What is known of an entry from the flags announced for it.
const (
	unknown = iota
	created
	removed
	fuzzy // nothing
)

type fseWatch struct {
	info    uintptr
	events  uint32
	rec     bool
	flushed bool
	state   map[string]int
}

// apply gives the flags that must and the flags that may be reported for an announced set.
func (w *fseWatch) apply(base, rel string, set uint32) (lo, hi uint32) {
	const both = uint32(notify.FSEventsCreated | notify.FSEventsRemoved)
	if set&uint32(notify.FSEventsHistoryDone) != 0 {
		w.flushed = true
		return 0, 0
	}
	if !w.flushed {
		return 0, 0
	}
	if rel == "" && base != "" || !w.rec && strings.Contains(rel, "/") {
		return 0, 0
	}
	if set&uint32(notify.FSEventsEventIdsWrapped) != 0 {
		if set&both != 0 {
			w.state[rel] = fuzzy
		}
		return 0, 0
	}
	lo, hi = set, set
	// A notice of dropped events for those who did not ask for it may go as a whole.
	optional := set&fseFailure != 0 && w.events&fseFailure == 0
	gone := false
	st := w.state[rel]
	switch {
	case set&both == 0:
	case optional:
		st = fuzzy
		lo &^= both
	case st == created:
		hi &^= uint32(notify.FSEventsCreated)
		if gone = set&uint32(notify.FSEventsRemoved) != 0; gone {
			st = removed
		}
	case st == removed:
		hi &^= uint32(notify.FSEventsRemoved)
		if set&uint32(notify.FSEventsCreated) != 0 {
			st = created
		}
	case set&both == both:
		// Removed and created or the other way round.
		if st == fuzzy {
			lo &^= both
		}
		lo &^= fseWrite
		st = fuzzy
	default:
		rm := set&uint32(notify.FSEventsRemoved) != 0
		if st == fuzzy {
			lo &^= both
			if rm { // it may be the removal reported before
				lo &^= fseWrite
			}
		} else {
			gone = rm
		}
		if st = created; rm {
			st = removed
		}
	}
	w.state[rel] = st
	if gone {
		hi &^= fseWrite
	}
	if optional {
		lo = 0
	}
	lo &= hi
	return lo & w.events, hi & w.events
}

func runFSE(c core.Case) (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	ncall := 0
	notify.XReset(func(call, p string) bool {
		ncall++
		return ncall == c.Cfg["fault"]
	})
	out := make(chan notify.EventInfo, 1<<16)
	w := notify.XNewWatcher(out)
	m := map[string]*fseWatch{}
	var history []string
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Dirty = core.Violation, true
			res.Msg = "macos: " + fmt.Sprintf(format, v...)
		}
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	running := func() map[string]notify.XStream {
		ss := map[string]notify.XStream{}
		for _, s := range notify.XStreams() {
			if _, ok := ss[s.Path]; ok {
				fail("two streams run for %q", s.Path)
			}
			ss[s.Path] = s
		}
		return ss
	}
	streams := func(what string) {
		ss := running()
		for p := range m {
			if _, ok := ss[p]; !ok {
				fail("after %s no stream runs for the watched %q", what, p)
			}
		}
		for p := range ss {
			if m[p] == nil {
				fail("after %s a stream runs for %q which is not watched", what, p)
			}
		}
		if len(out) > 0 {
			fail("%s reported %v", what, <-out)
		}
	}
	var batch []notify.FSEvent
	id := uint64(1000)
	send := func() {
		if len(batch) == 0 {
			return
		}
		var ps []string
		for p := range m {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			mw := m[p]
			// The library announces what happened beneath the path of the stream; other paths
			// are announced when it coalesces or when directories are linked.
			ev := append([]notify.FSEvent(nil), batch...)
			type bound struct {
				fse    notify.FSEvent
				lo, hi uint32
			}
			var want []bound
			for _, e := range ev {
				base, rel := "", ""
				if e.Path != p {
					base = e.Path
					if strings.HasPrefix(e.Path, p+"/") {
						rel = e.Path[len(p)+1:]
					}
				}
				lo, hi := mw.apply(base, rel, e.Flags)
				want = append(want, bound{e, lo, hi})
			}
			notify.XDeliver(mw.info, ev)
			describe := func() string {
				return fmt.Sprintf("watch %q events %v recursive %v; flags %s", p, notify.Event(mw.events), mw.rec, strings.Join(history, ", "))
			}
			i, seen := 0, uint32(0)
			done := func() {
				if miss := want[i].lo &^ seen; miss != 0 {
					fail("flags %v of %q were not reported; %s", notify.Event(miss), want[i].fse.Path, describe())
				}
				i, seen = i+1, 0
			}
			for len(out) > 0 {
				ei := <-out
				res.Stats["delivered"]++
				fse, ok := ei.Sys().(*notify.FSEvent)
				if !ok {
					fail("Sys() is a %T", ei.Sys())
					return
				}
				if ei.Path() != fse.Path {
					fail("Path() is %q, Sys() has %q", ei.Path(), fse.Path)
				}
				for i < len(want) && want[i].fse.ID != fse.ID {
					done()
				}
				if i == len(want) {
					fail("an event of %+v was reported out of order or for an announcement that was not made; %s", *fse, describe())
					return
				}
				if *fse != want[i].fse {
					fail("Sys() is %+v, announced was %+v", *fse, want[i].fse)
				}
				e := uint32(ei.Event())
				switch {
				case e&(e-1) != 0 || e == 0:
					fail("event %#x of %q is not a single flag; %s", e, fse.Path, describe())
				case seen&e != 0:
					fail("flag %v of %q was reported twice; %s", ei.Event(), fse.Path, describe())
				case e&^want[i].hi != 0:
					fail("flag %v of %q must not be reported; %s", ei.Event(), fse.Path, describe())
				}
				seen |= e
			}
			for i < len(want) {
				done()
			}
		}
		batch = nil
	}
	old := []uintptr{}
	guard := func(f func() error) error {
		ch := make(chan error, 1)
		var pan interface{}
		go func() {
			defer func() {
				if pan = recover(); pan != nil {
					ch <- nil
				}
			}()
			ch <- f()
		}()
		select {
		case err := <-ch:
			if pan != nil {
				panic(pan)
			}
			return err
		case <-time.After(core.QuiesceTimeout):
			res.Verdict, res.Msg, res.Dirty = core.Hang, fmt.Sprintf("macos: a call does not return:\n%s", core.AllStacks()), true
			return nil
		}
	}
	// started is the expectation after a watch call that was made for an unwatched path.
	started := func(what, p string, err error, faulty bool, rec bool, e uint32) {
		if err != nil && !faulty {
			fail("%s: %v", what, err)
		}
		if err == nil && faulty {
			fail("%s succeeded although the library refused the stream", what)
		}
		if err == nil {
			m[p] = &fseWatch{info: running()[p].Info, events: e, rec: rec, state: map[string]int{}}
			res.Stats["watches"]++
		}
	}
	for _, op := range c.Ops {
		if res.Verdict != core.OK {
			return res
		}
		if op.K != "event" {
			send()
		}
		mw := m[op.P]
		ev := notify.Event(op.E)
		calls := ncall
		faulty := func() bool { f := c.Cfg["fault"]; return calls < f && f <= ncall }
		switch op.K {
		case "watch":
			what := fmt.Sprintf("Watch(%q, recursive=%v, %v)", op.P, op.R, ev)
			err := guard(func() error {
				if op.R {
					return w.RecursiveWatch(op.P, ev)
				}
				return w.Watch(op.P, ev)
			})
			history = append(history, what)
			if mw != nil {
				if err == nil {
					fail("%s of a watched path succeeded", what)
				}
			} else {
				started(what, op.P, err, faulty(), op.R, op.E)
			}
			streams(what)
		case "unwatch":
			what := fmt.Sprintf("Unwatch(%q)", op.P)
			err := guard(func() error {
				if op.R {
					return w.RecursiveUnwatch(op.P)
				}
				return w.Unwatch(op.P)
			})
			history = append(history, what)
			if (err != nil) != (mw == nil) {
				fail("%s: %v, watched %v", what, err, mw != nil)
			}
			if mw != nil {
				old = append(old, mw.info)
				delete(m, op.P)
			}
			streams(what)
		case "rewatch":
			oldev := notify.Event(op.E ^ 1<<8)
			if mw != nil && op.N > 0 {
				oldev = notify.Event(mw.events)
			}
			what := fmt.Sprintf("Rewatch(%q, recursive=%v, %v -> %v)", op.P, op.R, oldev, ev)
			err := guard(func() error {
				if op.R {
					return w.RecursiveRewatch(op.P, op.P, oldev, ev)
				}
				return w.Rewatch(op.P, oldev, ev)
			})
			history = append(history, what)
			switch {
			case mw == nil || uint32(oldev) != mw.events:
				if err == nil {
					fail("%s succeeded although the watch is not there or another", what)
				}
			case err != nil:
				fail("%s: %v", what, err)
			default:
				mw.events, mw.rec = op.E, op.R
			}
			streams(what)
		case "move":
			if op.P == op.Q {
				continue
			}
			oldev := ev
			if mw != nil {
				oldev = notify.Event(mw.events)
			}
			what := fmt.Sprintf("RecursiveRewatch(%q -> %q, %v -> %v)", op.P, op.Q, oldev, ev)
			err := guard(func() error { return w.RecursiveRewatch(op.P, op.Q, oldev, ev) })
			history = append(history, what)
			switch {
			case mw == nil || m[op.Q] != nil:
				if err == nil {
					fail("%s succeeded although the old path is not watched or the new one is", what)
				}
			default:
				f := faulty()
				if !f { // else it is kept
					old = append(old, mw.info)
					delete(m, op.P)
				} else {
					res.Stats["kept"]++
				}
				started(what, op.Q, err, f, true, op.E)
			}
			streams(what)
		case "event":
			id++
			batch = append(batch, notify.FSEvent{Path: op.P, ID: id, Flags: op.E})
			history = append(history, fmt.Sprintf("%q %v", op.P, notify.Event(op.E)))
			res.Stats["changes"]++
		case "late":
			for _, info := range old {
				notify.XDeliver(info, []notify.FSEvent{{Path: "/r", Flags: uint32(notify.FSEventsHistoryDone)}, {Path: "/r/a", ID: 1, Flags: 0x1ffe0}})
			}
			streams("an announcement to a stopped stream")
		}
	}
	send()
	if res.Verdict != core.OK {
		return res
	}
	for _, mw := range m {
		old = append(old, mw.info)
	}
	m = map[string]*fseWatch{}
	if err := guard(w.Close); err != nil {
		fail("Close: %v", err)
	}
	for _, info := range old {
		notify.XDeliver(info, []notify.FSEvent{{Path: "/r", Flags: uint32(notify.FSEventsHistoryDone)}, {Path: "/r/a", ID: 1, Flags: 0x1ffe0}})
	}
	streams("Close")
	if wr := notify.XWrong(); len(wr) > 0 {
		fail("%s", strings.Join(wr, "; "))
	}
	res.Nontrivial = res.Stats["delivered"] > 2 && res.Stats["changes"] > 3
	return res
}

func init() {
	add(4, core.Engine{Name: "macos", Gen: genFSE, Run: runFSE, Count: only("C16", 60000, 2000000)})
}
