//go:build !c15 && !c16

// Package platcheck checks the backends of all platforms: the one of this platform as it is,
// the others in the builds that cmd/mkplat prepares.
package platcheck

import (
	"fmt"
	"math/bits"
	"math/rand/v2"
	"sort"
	"strings"

	"vh/core"
	fen "vh/plat/fen"
	fsevents "vh/plat/fsevents"
	kqueue "vh/plat/kqueue"
	plan9 "vh/plat/plan9"
	readdcw "vh/plat/readdcw"

	"github.com/rjeczalik/notify"
	"golang.org/x/sys/unix"
)

// values are the event values of one platform: what is documented, by name, with the value
// the operating system gives it where it gives one (0: any).
type values struct {
	name     string
	names    map[string]uint32 // exported specific values: value of the operating system
	have     map[string]uint32 // their values in this build
	generic  [4]uint32         // Create, Remove, Write, Rename
	same     map[string]int    // specific values that are the generic one with this index
	all      uint32
	internal []uint32 // recursive, omit
	intNames []string // their printed names; they may also be left out
	str      func(uint32) string
}

var genericNames = [4]string{"notify.Create", "notify.Remove", "notify.Write", "notify.Rename"}

func conv[E ~uint32](m map[string]E) map[string]uint32 {
	r := map[string]uint32{}
	for k, v := range m {
		r[k] = uint32(v)
	}
	return r
}

var kqueueNames = map[string]uint32{
	"NoteDelete": 1, "NoteWrite": 2, "NoteExtend": 4, "NoteAttrib": 8, "NoteLink": 0x10, "NoteRename": 0x20, "NoteRevoke": 0x40,
}

var platforms = []values{
	{
		name: "inotify",
		names: map[string]uint32{
			"InAccess": unix.IN_ACCESS, "InModify": unix.IN_MODIFY, "InAttrib": unix.IN_ATTRIB, "InCloseWrite": unix.IN_CLOSE_WRITE,
			"InCloseNowrite": unix.IN_CLOSE_NOWRITE, "InOpen": unix.IN_OPEN, "InMovedFrom": unix.IN_MOVED_FROM, "InMovedTo": unix.IN_MOVED_TO,
			"InCreate": unix.IN_CREATE, "InDelete": unix.IN_DELETE, "InDeleteSelf": unix.IN_DELETE_SELF, "InMoveSelf": unix.IN_MOVE_SELF,
		},
		have: conv(map[string]notify.Event{
			"InAccess": notify.InAccess, "InModify": notify.InModify, "InAttrib": notify.InAttrib, "InCloseWrite": notify.InCloseWrite,
			"InCloseNowrite": notify.InCloseNowrite, "InOpen": notify.InOpen, "InMovedFrom": notify.InMovedFrom, "InMovedTo": notify.InMovedTo,
			"InCreate": notify.InCreate, "InDelete": notify.InDelete, "InDeleteSelf": notify.InDeleteSelf, "InMoveSelf": notify.InMoveSelf,
		}),
		generic:  [4]uint32{uint32(notify.Create), uint32(notify.Remove), uint32(notify.Write), uint32(notify.Rename)},
		all:      uint32(notify.All),
		internal: []uint32{uint32(notify.VerifRecursive), uint32(notify.VerifOmit)},
		str:      func(e uint32) string { return notify.Event(e).String() },
	}, {
		name: "fsevents",
		names: map[string]uint32{
			"FSEventsMustScanSubDirs": 1, "FSEventsUserDropped": 2, "FSEventsKernelDropped": 4, "FSEventsEventIdsWrapped": 8, "FSEventsHistoryDone": 0x10,
			"FSEventsRootChanged": 0x20, "FSEventsMount": 0x40, "FSEventsUnmount": 0x80, "FSEventsCreated": 0x100, "FSEventsRemoved": 0x200,
			"FSEventsInodeMetaMod": 0x400, "FSEventsRenamed": 0x800, "FSEventsModified": 0x1000, "FSEventsFinderInfoMod": 0x2000,
			"FSEventsChangeOwner": 0x4000, "FSEventsXattrMod": 0x8000, "FSEventsIsFile": 0x10000, "FSEventsIsDir": 0x20000, "FSEventsIsSymlink": 0x40000,
		},
		have:     conv(fsevents.XNamed),
		generic:  [4]uint32{uint32(fsevents.Create), uint32(fsevents.Remove), uint32(fsevents.Write), uint32(fsevents.Rename)},
		same:     map[string]int{"FSEventsCreated": 0, "FSEventsRemoved": 1, "FSEventsModified": 2, "FSEventsRenamed": 3},
		all:      uint32(fsevents.All),
		internal: []uint32{uint32(fsevents.XRecursive), uint32(fsevents.XOmit)},
		str:      func(e uint32) string { return fsevents.Event(e).String() },
	}, {
		name: "readdcw",
		names: map[string]uint32{
			"FileNotifyChangeFileName": 1, "FileNotifyChangeDirName": 2, "FileNotifyChangeAttributes": 4, "FileNotifyChangeSize": 8, "FileNotifyChangeLastWrite": 0x10,
			"FileNotifyChangeLastAccess": 0x20, "FileNotifyChangeCreation": 0x40, "FileNotifyChangeSecurity": 0x100,
			"FileActionAdded": 0, "FileActionRemoved": 0, "FileActionModified": 0, "FileActionRenamedOldName": 0, "FileActionRenamedNewName": 0,
		},
		have:     conv(readdcw.XNamed),
		generic:  [4]uint32{uint32(readdcw.Create), uint32(readdcw.Remove), uint32(readdcw.Write), uint32(readdcw.Rename)},
		all:      uint32(readdcw.All),
		internal: []uint32{uint32(readdcw.XRecursive), uint32(readdcw.XOmit), uint32(readdcw.XDirmarker)},
		str:      func(e uint32) string { return readdcw.Event(e).String() },
	}, {
		name:     "kqueue",
		names:    kqueueNames,
		have:     conv(kqueue.XNamed),
		generic:  [4]uint32{uint32(kqueue.Create), uint32(kqueue.Remove), uint32(kqueue.Write), uint32(kqueue.Rename)},
		all:      uint32(kqueue.All),
		internal: []uint32{uint32(kqueue.XRecursive), uint32(kqueue.XOmit)},
		str:      func(e uint32) string { return kqueue.Event(e).String() },
	}, {
		name: "fen",
		names: map[string]uint32{
			"FileAccess": 1, "FileModified": 2, "FileAttrib": 4, "FileDelete": 0x10, "FileRenameTo": 0x20, "FileRenameFrom": 0x40,
			"FileTrunc": 0x100000, "FileNoFollow": 0x10000000, "Unmounted": 0x20000000, "MountedOver": 0x40000000,
		},
		have:     conv(fen.XNamed),
		generic:  [4]uint32{uint32(fen.Create), uint32(fen.Remove), uint32(fen.Write), uint32(fen.Rename)},
		all:      uint32(fen.All),
		internal: []uint32{uint32(fen.XRecursive), uint32(fen.XOmit)},
		str:      func(e uint32) string { return fen.Event(e).String() },
	}, {
		name:     "other platforms",
		have:     conv(plan9.XNamed),
		generic:  [4]uint32{uint32(plan9.Create), uint32(plan9.Remove), uint32(plan9.Write), uint32(plan9.Rename)},
		all:      uint32(plan9.All),
		internal: []uint32{uint32(plan9.XRecursive), uint32(plan9.XOmit)},
		str:      func(e uint32) string { return plan9.Event(e).String() },
	},
}

// genValues makes a set of named values of one platform, or the comparison of two values.
func genValues(prop, tier string, r *rand.Rand) core.Case {
	c := core.Case{Cfg: map[string]int{"platform": r.IntN(len(platforms))}}
	p := platforms[c.Cfg["platform"]]
	var names []string
	for n := range p.have {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := 1 + r.IntN(3); i > 0; i-- {
		op := core.Op{K: "set"}
		switch r.IntN(4) {
		case 0: // any bits, also such without a name
			op.E = r.Uint32() & r.Uint32()
		case 1: // a bit more or less than named values
			op.E = 1 << r.IntN(32)
			fallthrough
		default:
			for j := r.IntN(5); j > 0; j-- {
				if k := r.IntN(len(names) + 4); k < len(names) {
					op.E ^= p.have[names[k]]
				} else {
					op.E |= p.generic[k-len(names)]
				}
			}
			if r.IntN(4) == 0 {
				op.E |= p.all
			}
		}
		c.Ops = append(c.Ops, op)
	}
	if r.IntN(8) == 0 {
		c.Ops = append(c.Ops, core.Op{K: "values"})
	}
	return c
}

func runValues(c core.Case) (res core.Result) {
	res = core.Result{Verdict: core.OK, Stats: map[string]int{}}
	p := platforms[c.Cfg["platform"]]
	fail := func(format string, v ...interface{}) {
		if res.Verdict == core.OK {
			res.Verdict, res.Msg = core.Violation, p.name+": "+fmt.Sprintf(format, v...)
		}
	}
	for _, op := range c.Ops {
		if op.K == "values" {
			checkValues(p, fail)
			continue
		}
		var want []string
		for i, g := range p.generic {
			if op.E&g == g {
				want = append(want, genericNames[i])
			}
		}
		for n, v := range p.have {
			if _, ok := p.same[n]; !ok && op.E&v == v {
				want = append(want, "notify."+n)
			}
		}
		var got []string
		s := p.str(op.E)
		if s != "" {
			got = strings.Split(s, "|")
		}
		// The internal values may be named, or left out.
		named := got[:0:0]
		seen := map[string]bool{}
		for _, n := range got {
			switch {
			case n == "recursive" && op.E&p.internal[0] != 0, n == "omit" && op.E&p.internal[1] != 0:
				if seen[n] {
					fail("String of %#x is %q, which has %q twice", op.E, s, n)
				}
				seen[n] = true
			default:
				named = append(named, n)
			}
		}
		sort.Strings(want)
		sort.Strings(named)
		if strings.Join(want, "|") != strings.Join(named, "|") {
			fail("String of %#x is %q, want the names %q", op.E, s, want)
		}
		if len(want) > 1 {
			res.Stats["joined"]++
		}
		res.Nontrivial = res.Nontrivial || len(want) > 1
	}
	return res
}

func checkValues(p values, fail func(string, ...interface{})) {
	type named struct {
		n string
		v uint32
	}
	var own []named
	or := uint32(0)
	for i, g := range p.generic {
		own = append(own, named{genericNames[i], g})
		or |= g
	}
	if or != p.all {
		fail("All is %#x, the generic values joined are %#x", p.all, or)
	}
	for i, v := range p.internal {
		own = append(own, named{fmt.Sprintf("internal value %d", i), v})
	}
	for i, a := range own {
		if bits.OnesCount32(a.v) != 1 {
			fail("%s is %#x, not a bit", a.n, a.v)
		}
		for _, b := range own[:i] {
			if a.v&b.v != 0 {
				fail("%s (%#x) and %s (%#x) share a bit", a.n, a.v, b.n, b.v)
			}
		}
		for n, v := range p.have {
			if g, ok := p.same[n]; ok && i == g {
				if v != a.v {
					fail("%s (%#x) is defined to be %s (%#x)", a.n, a.v, n, v)
				}
			} else if a.v&v != 0 {
				fail("%s (%#x) and %s (%#x) share a bit", a.n, a.v, n, v)
			}
		}
	}
	for n, v := range p.have {
		if v == 0 {
			fail("%s is 0", n)
		}
		if w := p.names[n]; w != 0 && w != v {
			fail("%s is %#x, the operating system has %#x", n, v, w)
		}
		for m, w := range p.have {
			if n < m && v&w != 0 {
				fail("%s (%#x) and %s (%#x) share a bit", n, v, m, w)
			}
		}
	}
}

func init() {
	add(0, core.Engine{Name: "values", Gen: genValues, Run: runValues, Count: only("C17", 300000, 10000000)})
}
