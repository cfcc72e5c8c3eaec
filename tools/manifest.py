#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after changing the list of properties."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]

TREES = "Bounded by the listed families of scenes (all words over an alphabet of shapes, gap words, grid subsets, deep chains, ..): nothing is sampled, every combination is built and checked on the real code. Primitives outside of the alphabets are not covered."
N = {
 "C01": ("explicit-state model checking of the real builders: exhaustive enumeration of scenes and configurations", TREES),
 "C02": ("explicit-state model checking of the real builders: exhaustive enumeration of scenes and configurations", TREES + " Parts of split triangles are observed at lattice points."),
 "C03": ("explicit-state model checking of the real builders: exhaustive enumeration of scenes and configurations", TREES),
 "C04": ("exhaustive enumeration of scenes, rays and limits on the real traversal, against brute force", TREES + " Rays come from a menu of directions at every primitive; grazing hits are left open where rounding decides."),
 "C05": ("exhaustive enumeration of scenes, packets and limits on the real traversal, against brute force", TREES + " Packets come from a menu; grazing hits are left open where rounding decides."),
 "C06": ("exhaustive enumeration of scenes, rays and limits on the real wide traversal, against brute force", TREES + " Rays come from a menu of directions at every primitive; grazing hits are left open where rounding decides."),
 "C07": ("exhaustive enumeration of scenes, packets and limits on the real wide traversal, against brute force", TREES + " Packets come from a menu; grazing hits are left open where rounding decides."),
 "C08": ("exhaustive enumeration of all small binary tree shapes, converted by the real code", "All tree shapes up to the stated number of leafs with their node orders and leaf sizes, and all trees of the families."),
 "C09": ("stateless model checking: every sequence of caller actions during an iteration of the real iterators", "All action sequences over the first offers, on all small trees, for all 32 ways to iterate. Later offers leave the ray alone."),
 "C10": ("exhaustive enumeration of trees, rays and iterators of the real code, compared with each other", "All tree shapes up to the stated number of leafs and all trees of the families, with a menu of rays."),
 "C11": ("exhaustive enumeration of structures, degenerate rays and shorter lists on the real iterators, with a watchdog for termination", "Built with debug assertions, overflow checks and checks of unchecked accesses; a crash of a worker process or no progress in 20 s (confirmed by a second run) is a violation."),
 "C12": ("model checking of operation sequences: every sequence of refits up to a depth on the real code", "All sequences of the listed rearrangements, on all small and built trees, compared with a reference that recomputes bounds."),
 "C13": ("exhaustive enumeration of counts and configurations on the real builders", "All pairs of the listed counts."),
 "C14": ("stateless model checking of thread interleavings of the real builders under a controlled scheduler, preemption-bounded", "All schedules up to the stated number of preemptions (switches when a thread waits or ends are free), sequentially consistent memory. Two builds at the same time are scheduled, too. All builders are run on 1 to 129 visible cores and in pools of several sizes."),
 "C15": ("model checking of completion orders: every order in which parallel callbacks of the real builders complete", "Callbacks wait at a gate until the explorer lets them pass. What the rayon pool does in between is not scheduled."),
 "C16": ("explicit-state model checking of the real builders: exhaustive enumeration of scenes and limits", TREES),
 "C17": ("exhaustive enumeration of pairs of boxes and of operation sequences on the real code, against componentwise definitions", "All boxes over a grid of corner values, all sequences up to the stated depth."),
 "C18": ("exhaustive enumeration of rays and boxes over grids on the real code, against exact geometry", "All rays and boxes over the stated grids. Touching exactly at a boundary is left open."),
 "C19": ("exhaustive enumeration of origins, directions and ways to construct on the real code, compared with each other", "All values over the stated grids (zeros of both signs, infinities, not-a-number)."),
 "C20": ("exhaustive enumeration of triangles, rays and limits over grids on the real code, against double precision geometry", "All combinations over the stated grids; a margin at edges and limits is left open."),
 "C21": ("exhaustive enumeration of triangles and planes over grids on the real code", "All triangles over the stated grids; points of a triangle are observed on a lattice and along its edges."),
 "C22": ("exhaustive enumeration of cells, points and lists on the real code, against the definition", "All 10 bit values, all pairs of coordinates (thorough: all 2^30 cells), all lists up to the stated length."),
 "C23": ("model checking of call histories: every sequence of calls up to a depth against a reference model, in lockstep with the real code", "All histories up to the stated depth over the listed calls; freed memory is never followed, as the interface demands."),
 "C24": ("stateless model checking of thread interleavings of the real C interface under a controlled scheduler, checked for linearizability against a model", "All interleavings at lock operations up to the stated number of preemptions, with a stand-in for parking_lot's locks that keeps its rules (a waiting writer blocks new readers)."),
 "C25": ("exhaustive enumeration of scenes, layouts, rays and callback behaviours on the real C interface, against the library and brute force", "All combinations of the stated strides, alignments, kinds, limits and rays."),
 "C26": ("exhaustive enumeration of structures taken through two formats, with operation sequences afterwards, on the real code", "Formats are lossless and in memory; the serde implementations are those of the crate."),
 "C27": ("model checking of camera states: every sequence of moves up to a depth, every mix of pixels, on the real code", "All pixels of the stated frames, all sequences of the stated moves. Looking straight up or down is left out."),
 "C29": ("model checking of operation sequences: every history of operations on several live structures of the real code, in lockstep with a model of what each has to be", "All histories up to the stated depth over the stated operations, scenes and poses."),
 "C30": ("stateless model checking: every interleaving of the steps of several real iterators", "All orders of steps on all small trees; on deep chains all orders with the stated number of switches. Steps of iterators are atomic: they share nothing that is written."),
 "C31": ("model checking of operation sequences on nodes, in lockstep with a model, and exhaustive enumeration of trees whose nodes are walked by hand", "All sequences of the stated depth over a menu of values; all small trees and all trees of the families."),
 "C32": ("exhaustive enumeration of pairs of an outer call and a use of the library within its callbacks, on the real code, against each on its own", "All pairs of the stated calls at the stated callbacks over the families. Pools of one and two threads, scheduled by the operating system; schedules are C14's."),
 "C33": ("explicit-state model checking of worlds on the real code: exhaustive enumeration of types, scenes, instances and histories of changes, against a test of every primitive", "All combinations of the listed kinds of primitives, objects and places and all histories up to the stated depth. Places are ones that floats apply exactly."),
 "C34": ("model checking of operation histories on the real code, with an allocator that accounts for every block", "All histories up to the stated depth, all uses of all families. Growth means that memory in use is larger after each of twelve repetitions."),
 "C35": ("exhaustive enumeration of fault points (panicking questions) and stateless model checking of the schedules of the builders' threads with them", "All pairs of primitive and question in small scenes, at the first, second, middle and last time; all schedules up to the stated number of preemptions for scenes of up to five primitives. Pools of threads are scheduled by the operating system."),
 "C36": ("exhaustive enumeration of triangles over grids and of families of scenes on the real code, against double precision geometry and trees over other triangles", "All triangles over the stated grid and menu of sizes and places. Normals of almost degenerate triangles, and of those whose cross product leaves the range of the numbers, are left out."),
 "C37": ("model checking of operation sequences on the real timers under a clock of the checker, and exhaustive enumeration of periods", "All listed periods with all listed fractions of a second, all sequences up to the stated depth. The clock is the one of the C library, which the checker replaces."),
 "C28": ("exhaustive enumeration of all small trees, whole and damaged, on the real code, against reachability", "All trees up to the stated number of leafs over all words of ids, and all built trees; chains and leafs with a stated large number of references."),
}
have = subprocess.run(["grep", "-rhoE", "id: \"C[0-9]+\"", "harness/src/props"], capture_output=True, text=True).stdout
have = {x.split('"')[1] for x in have.split("\n") if x}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n")
hook = [l.split()[0] for l in hook if " hooks:" in l]
if not hook:
    hook = json.load(open("MANIFEST.json"))["hooks"]["source_commits"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh check {i} quick",
            "thorough_cmd": f"bash run.sh check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": N[i][0],
            "level": "model_checking",
            "level_note": N[i][1],
        })
    else:
        na.append({"property": i, "reason": "not claimed yet: its check is being built"})
m = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "hooks": {
        "guard": "cfg rtbvh_mc",
        "enable": "RUSTFLAGS=\"--cfg rtbvh_mc\" (set by run.sh)",
        "source_commits": hook,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "run.sh rebuilds the checker from /repo's working tree before every check; run.sh replay FILE runs a reported violation again.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
