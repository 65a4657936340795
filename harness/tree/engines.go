package tree

import "vh/core"

// Engines of this package.
func Engines() []core.Engine {
	return []core.Engine{{
		Name: "route", Gen: genRoute, Run: runRoute,
		Count: only("C13", 8000, 150000), Rule: rule,
	}, {
		Name: "native", Gen: genNative, Run: runNative,
		Count: only("C12", 400000, 5000000), Rule: rule,
	}, {
		Name: "close", Gen: genClose, Run: runClose,
		Count: only("C14", 4000, 60000), Rule: rule,
	}, {
		Name: "gate", Gen: genGate, Run: runGate,
		Count: func(p, t string) int {
			n := map[string]int{"C04": 3000, "C08": 2000, "C11": 1500}[p]
			if t == "thorough" {
				n *= 30
			}
			return n
		}, Rule: func(string) string { return gateRule },
	}, {
		Name: "sched", Gen: genSched, Run: runSched, Races: true,
		Count: func(p, t string) int {
			n := map[string]int{"C03": 3000, "C07": 4000, "C11": 1000}[p]
			if t == "thorough" {
				n *= 30
			}
			return n
		}, Rule: rule,
	}}
}

func only(prop string, quick, thorough int) func(p, t string) int {
	return func(p, t string) int {
		switch {
		case p != prop:
			return 0
		case t == "thorough":
			return thorough
		}
		return quick
	}
}

var rules = map[string]string{
	"C03": schedRule + "Non-trivial: a Watch, more than 2 structural changes, a delivered notification.",
	"C07": schedRule + "Half of the Watch calls have their n-th native call refused: they must fail and leave the native watches as they were. Non-trivial: a refused call.",
	"C11": schedRule + "Non-trivial: a Watch, more than 2 structural changes, a delivered notification.",
	"C12": "Random histories of 2-25 Watch and Stop calls of 1-4 channels, for nested, sibling and equal paths, recursive or not, with random event sets, in half of the cases with native calls that fail, run against the tree for natively recursive platforms on top of a strict model of a natively recursive watcher. After every call each live registration must be covered by a native watch, no native watch may lie beneath another, and every native call must be one that the watcher's contract allows; after the Stop of all channels nothing may be watched. Non-trivial: more than 3 successful Watch calls.",
	"C14": "Random histories of Watch, Rewatch, Unwatch, calls that must fail, calls of several goroutines at once, calls with 0-5 free descriptors, filesystem changes, changes made by another goroutine, and Close at any moment, in 1-3 lives of one watcher of the real kernel, with a consumer that reads, one that lags, or a roomy channel nobody reads. At sync points the kernel watch list must be the one of the model and probes of directories must give exactly the events of the model; Close must return, and after it no descriptor, watch or goroutine may be left and no event be sent. Non-trivial: a running watcher with a successful Watch was closed.",
	"C13": "Both trees get the same random Watch and Stop calls of 1-5 channels on a tree of directories whose names share prefixes, and the same random events (16 kinds; of directories and files; on registered paths, in them, below them, beside them, on names that extend theirs, outside). Each channel must get exactly as many copies of each event as it has registrations that cover it. Non-trivial: more than 3 deliveries and more than one Watch.",
}

const gateRule = "Either tree with 1-4 channels and random registrations; the processing of an event is held at the n-th step that looks at the event, meanwhile channels are stopped, registered, stopped and registered again, and more events are sent; then it goes on. What a channel held when its Stop returned must be all it gets, events are delivered at least as often as the registrations before and after the calls both cover them and at most as often as one of them does, exactly so for calls that returned before; for C08 receivers with room for 0-2 events must be filled and may not hold up anything. Non-trivial: an event was held, calls were made meanwhile, something was delivered."

const schedRule = "The non-recursive tree runs on a simulated kernel that binds watches to inodes of real directories, raises what inotify would, and lets the harness choose when and in which order notifications arrive, hold the n-th native call while others call Watch and Stop, and queue hundreds of notifications meanwhile. Random histories of mkdir, rm -r, rename (onto empty directories too), Watch, Stop; whenever everything was delivered the watch of every directory must lie between what live registrations need and allow. "

func rule(p string) string { return rules[p] }
