package e2e

import (
	"math/rand/v2"

	"vh/core"
)

func prof(prop string, r *rand.Rand) profile {
	p := profile{nch: 1 + r.IntN(4), ops: 40, watch: 8, stop: 3, file: 40, struc: 5, sync: 12, probe: 2, yield: 2, rd: 2,
		recPct: 50, initDirs: 3 + r.IntN(6), initFiles: r.IntN(6), oddPct: 12, deep: 5}
	switch prop {
	case "C01", "C02", "C04", "C05":
		if r.IntN(4) == 0 { // some calls fail
			p.bad = 3
		}
	}
	p.crowds = prop != "C01"
	switch prop {
	case "C01":
	case "C02":
		p.nch = 2 + r.IntN(3)
		p.ops, p.sync, p.struc, p.watch, p.stop = 60, 4, 12, 8, 4
	case "C03":
		p.ops, p.file, p.struc, p.sync, p.probe, p.watch, p.stop = 50, 6, 40, 4, 6, 4, 1
		p.recPct, p.endProbe, p.evmode = 90, true, r.IntN(3)
		p.nch = 1 + r.IntN(3)
		p.yield = 6
	case "C04":
		p.nch = 2 + r.IntN(4)
		p.ops, p.watch, p.stop, p.file, p.struc, p.sync, p.yield = 60, 18, 14, 30, 5, 5, 6
	case "C07":
		p.ops, p.bad, p.watch, p.stop, p.file, p.struc, p.sync = 40, 14, 10, 4, 10, 3, 4
		p.nch = 1 + r.IntN(3)
		p.initFiles++
		p.endProbe = true
	case "C05":
		p.ops, p.file, p.watch, p.stop, p.struc, p.sync = 50, 5, 25, 12, 8, 15
		p.nch = 2 + r.IntN(4)
		p.probe = 0
	}
	return p
}

var counts = map[string][2]int{
	"C01": {20000, 250000},
	"C02": {12000, 250000},
	"C03": {6000, 150000},
	"C04": {8000, 250000},
	"C05": {12000, 250000},
	"C07": {2500, 60000},
}

func Count(prop, tier string) int {
	c := counts[prop]
	if tier == "thorough" {
		return c[1]
	}
	return c[0]
}

// Engines of this package.
func Engines() []core.Engine {
	return []core.Engine{{
		Name: "e2e",
		Gen: func(prop, tier string, r *rand.Rand) core.Case {
			return history(r, prof(prop, r))
		},
		Run: func(c core.Case) core.Result {
			res := execCase(c, c.Prop == "C05" || c.Prop == "C03" || c.Prop == "C07")
			s := res.Stats
			switch c.Prop {
			case "C03":
				res.Nontrivial = s["struct"] > 2 && s["probed"] > 1 && s["watch"] > 0
			case "C04":
				res.Nontrivial = s["event"] > 5 && s["stop"] > 0 && s["watch"] > 2
			case "C07":
				res.Nontrivial = s["rejected"] > 0 && s["watch"] > 0
			case "C05":
				res.Nontrivial = s["watch"] > 1 && s["table"] > 1
			default:
				res.Nontrivial = s["event"] > 5 && s["watch"] > 1
			}
			return res
		},
		Simplify: Simplify,
		Count:    Count,
		Rule:     rule,
	}, {
		Name: "slow", Gen: genSlow, Run: runSlow,
		Count: only("C08", 6000, 150000),
		Rule:  rule,
	}, {
		Name: "raw", Gen: genRaw, Run: runRaw,
		Count: only("C10", 6000, 150000),
		Rule:  rule,
	}, {
		Name: "conc", Gen: genConc, Run: runConc,
		Count: only("C11", 2500, 60000),
		Rule:  rule,
	}, {
		Name: "probe", Gen: genProbe, Run: runProbe,
		Count: func(p, t string) int { return len(probes[p]) },
		Rule:  func(string) string { return "Fixed cases that show the known findings." },
	}, {
		Name: "paths", Gen: genPaths, Run: runPaths,
		Count: only("C09", 15000, 500000),
		Rule:  rule,
	}, {
		Name: "pairs", Gen: genPairs, Run: runPairs,
		Count: only("C06", 6000, 150000),
		Rule:  rule,
	}}
}

func only(prop string, quick, thorough int) func(p, t string) int {
	return func(p, t string) int {
		switch {
		case p != prop:
			return 0
		case t == "thorough":
			return thorough
		}
		return quick
	}
}

var rules = map[string]string{
	"C01": "Each case is a random history on a fresh directory tree: Watch/Stop of 1-4 channels (recursive and not, overlapping, any subset of 16 event kinds) mixed with file and directory operations, odd names included; after each sync every notification the inotify rules promise to a settled registration must have arrived. Non-trivial: more than 5 events received and more than one Watch.",
	"C02": "As C01 with 2-4 channels and long bursts without waiting; every received event is compared with what the registrations and the operations of the burst allow (kind, path, number of copies, Sys()). Non-trivial: more than 5 events received and more than one Watch.",
	"C03": "Bursts of structural changes (mkdir, mkdir -p, rm -r, rename within/in/out, remove and create again, trees built outside and moved in) under recursive registrations; then every directory is probed with a create/write/read/chmod/rename/unlink sequence and the kernel's watch list is compared with the model. Non-trivial: more than 2 structural changes, a probe of more than one directory, at least one Watch.",
	"C04": "Histories dominated by Watch and Stop of 2-5 channels in the middle of filesystem activity (Stop while notifications are still being processed, Stop of channels without registrations, Watch again on the same channel). What a stopped channel held when Stop returned is the last it may get; all other channels are compared with the must- and may-deliver oracles of C01 and C02. Non-trivial: more than 5 events, a Stop and more than 2 Watch calls.",
	"C07": "Histories in which a third of the Watch calls must fail: missing paths, paths below files, dangling and cyclic symlinks, recursion on files, unsupported event bits, unreadable directories somewhere in a tree (as another user), exhausted descriptors at any depth of a recursive Watch. After each the kernel's watch list must be what live registrations need, and the deliveries of all other registrations, later Watch and Stop calls included, must be those of the model. Non-trivial: a Watch was rejected and another accepted.",
	"C09": "Each case builds directories, files and symlinks (relative, absolute, chains, cycles, dangling, at the root of a private root directory, deep trees), then calls Watch, also again after links, files and directories were replaced, with random spellings (., .., repeated and trailing separators, relative to several working directories, with and without ...) and compares acceptance with what open(2) says and the watched object and reported path with stat(2) and the real path. Non-trivial: at least one accepted spelling that went through a symlink or needed cleaning, or a rejected one.",
	"C10": "Differential: the harness registers its own inotify instance with all kinds on the same paths as the library; after every operation, or several (35 kinds of system calls: handles, O_TMPFILE, link, exchange, mmap, sendfile, fallocate, xattr ...), the events of every channel must be the projection of the raw notifications to the registered event sets: same kind, path, mask and cookie, same number (equal ones in a row may have become one). Non-trivial: more than 3 events and more than 5 successful operations.",
	"C11": "2-5 goroutines calling Watch, Stop (and closing the stopped channel) on own and shared channels and overlapping paths, 1-2 goroutines changing the filesystem (directories that come, go and move beneath directories that stay), all built with -race. Calls must return without panic or data race; events of files with unique names must reach channels registered before exactly as registered; after settling, registrations, the kernel's watch list and a probe of every directory must be those of the calls made (per channel the order of its goroutine, shared ones the union or stopped), and nothing may be left after the last Stop. Non-trivial: more than 4 concurrent calls and a probed directory.",
	"C05": "Histories dominated by Watch and Stop of 2-5 channels on overlapping paths with structural changes in between; after each sync the kernel's watch list (/proc/self/fdinfo) must lie between what live registrations need and what they allow, and be empty after the last Stop. Non-trivial: more than one Watch and more than one comparison of the watch list.",
	"C06": "Each case builds two equal trees and runs two histories that lead to the same live registrations (B: permuted, split, repeated, padded with channels that come and go and empty event lists), then compares the kernel's watch lists and, for a common sequence of filesystem changes, Watch and Stop calls, the multiset of deliveries per channel. Non-trivial: more than 3 Watch calls, a comparison of the watch lists, at least one event.",
	"C08": "Groups of channels with equal registrations: a roomy one that counts the events and 1-4 of capacity 0-64, drained, stopped or never read; at each sync a channel must hold exactly min(capacity, events since it was drained). Receivers parked on unbuffered channels must get the next event. Non-trivial: at least one event was dropped and one received.",
}

func rule(p string) string { return rules[p] }
