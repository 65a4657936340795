#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed checks below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
T = "property-based testing: "
claimed = {
 "C01": ("model-based random histories on real inotify, must-deliver oracle", "Generated histories on a real kernel through the public API; the oracle derives guaranteed notifications from inotify(7). Exploration only; assumes the Linux kernel delivers inotify events in order and that quiescence can be read off goroutine states."),
 "C02": ("model-based random histories on real inotify, may-deliver oracle with multiplicities", "As C01; upper bounds are exact per burst except for events caused by the library's own reading of directories."),
 "C03": ("random structural bursts under recursive watches, probe of every directory, kernel watch list vs model", "Real kernel and scheduler; notification orders are those that occur, driven by bursts and pauses."),
 "C05": ("stateful random Watch/Stop histories, kernel watch list (/proc/self/fdinfo) vs model", "Lower and upper bound of each watch mask from the model after every sync; bounds are loose only for watches that moved along with a renamed object."),
 "C06": ("metamorphic: pairs of equivalent histories compared by kernel watch list and deliveries", "Differential between two runs of the library itself, no reference needed."),
 "C04": ("random histories with Stop in the middle of event processing, model oracle plus silence after Stop", "Real kernel and scheduler: the interleavings of Stop with event processing are those that occur."),
 "C07": ("stateful random histories with failing Watch calls (paths, bits, permissions, exhausted descriptors), kernel watch list and deliveries vs model", "Faults are those the kernel can be made to raise by permissions and limits."),
 "C09": ("random path spellings over random symlink graphs, differential with open(2)/stat(2)", "The operating system's own resolution is the oracle; \"/\" as the watched path is excluded (known finding of C01)."),
 "C10": ("differential: random system calls, library vs a raw inotify instance on the same paths", "The raw instance is the oracle; comparison is exact except for events caused by the library's own reading of directories."),
 "C11": ("random concurrent Watch/Stop/filesystem programs under the race detector, final state vs model", "Schedules are those the Go scheduler and the kernel produce. Losses of single notifications while the kernel replaces a watch mask are told apart by repeating the case."),
 "C12": ("model-based random Watch/Stop histories with failing native calls against a strict model of a natively recursive watcher", "The platform below the tree is a model of the documented watcher contract as FSEvents and ReadDirectoryChangesW implement it; the tree itself is the real one, built with an overlay that only exports constructors."),
 "C13": ("random registrations and injected events on both trees, exact number of copies vs model; differential between the trees", "Events are injected below the tree through stub watchers; the trees are the real ones, built with an overlay that only exports constructors."),
 "C14": ("random lives of the inotify watcher with faults (descriptor limits) and Close at any moment; descriptors, goroutines, kernel watches and late events vs model", "Real kernel; the moments of Close are those that the scheduler produces with consumers of different speed. Linux backend only."),
 "C17": ("random event sets of six platforms, printed and compared with the documented names; pairwise comparison of values", "Other platforms' sources are built here without their build constraints, on simulated system call packages whose constants are the documented ones. BSDs other than FreeBSD have the same sources and constants."),
 "C16": ("model-based random calls, notifications and refused system calls on builds of the Windows and macOS backends, alone and beneath the recursive tree, against simulated kernels", "The sources are built here without their build constraints against simulations of the system libraries written from their documentation; what the real systems do beyond that is not covered. Changes made while a Windows handle is being replaced get lost on that platform and are not generated."),
 "C08": ("random capacities and drains, exact fill counts against a roomy channel with equal registrations", "Exact counts at every sync point; hangs are detected from goroutine states."),
 "C15": ("model-based random histories of calls, file changes and refused system calls on a build of the kqueue backend, alone and beneath the tree, against a simulated kqueue(2) over real files", "The sources are built here without their build constraints; files and directories are real, kqueue(2) is a simulation written from its documentation. Symlinks, sockets, fifos and hard links are not generated, and neither is the FEN half of watcher_trigger.go run."),
}
m = {"version": 1, "setup_cmd": "./setup.sh",
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": T + claimed[p][0], "level": "exploration", "level_note": claimed[p][1]} for p in ids if p in claimed],
 "not_applicable": [{"property": p, "reason": "not claimed yet: check under construction"} for p in ids if p not in claimed]}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
