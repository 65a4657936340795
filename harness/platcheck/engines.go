package platcheck

import "vh/core"

// The engines of a property are built alone with the tag of its name (c15, c16, c17), so that
// they do not depend on the platforms of the others.
var engines [7]core.Engine

func add(i int, e core.Engine) {
	e.Rule = rule
	engines[i] = e
}

// Engines of this package.
func Engines() (es []core.Engine) {
	for _, e := range engines {
		if e.Run != nil {
			es = append(es, e)
		}
	}
	return
}

func only(prop string, quick, thorough int) func(p, t string) int {
	return func(p, t string) int {
		switch {
		case p != prop:
			return 0
		case t == "thorough":
			return thorough
		}
		return quick
	}
}

var rules = map[string]string{
	"C15": "Random histories of watch, rewatch, unwatch and changes of real files and directories, alone or several whose notifications arrive at once, on the kqueue backend over a simulated kqueue(2), in both orders of the notifications of a removal, with one refused call (or one vanishing entry) in some of the watches and starts. After every step the reported events are compared with those a model says must and may be reported, and the registered objects and open descriptors with the watched paths and the entries of watched directories. kqueue-tree: random Watch (recursive or not) and Stop calls of several channels through the tree over the same backend, and single changes; what each channel gets is compared with what its registrations cover. Non-trivial: more than one watch and more than two events.",
	"C16": "windows: random Watch/Stop histories of up to four channels through the recursive tree over the Windows watcher, built on a simulated kernel (CreateFile, ReadDirectoryChangesW, completion ports), with random notifications, alone or several in one buffer; the deliveries of every channel are counted against the registrations. windows-calls: random watch, unwatch, rewatch and relocate calls with one refused system call; results and the open handles are compared with a model after every step and after Close. macos: random calls and batches of announced flag sets on a simulated FSEvents library; the reported events are compared, announcement by announcement, with the flags a model says must and may be reported. macos-tree: random Watch/Stop histories of up to four channels through the recursive tree over the macOS backend; each announced flag must come to a channel once for each of its registrations that covers the path. Non-trivial: more than one watch and more than two deliveries (windows); a watch and, if a fault was set, a refusal (windows-calls); more than three announcements and two deliveries (macos); more than one watch and more than two deliveries (macos-tree).",
	"C17": "Random event sets (named values of the platform joined, toggled, with other bits, any bits) of six platforms, printed by the build of each platform; the printed names must be those the documentation gives to the values the set contains, each once. In one of eight cases all values of a platform are compared pairwise: generic and internal ones are single bits that nothing else has, specific ones are the operating system's. Non-trivial: a set with more than one named value.",
}

func rule(p string) string { return rules[p] }
