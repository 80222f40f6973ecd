#!/usr/bin/env python3
"""Writes MANIFEST.json from the claim table below."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
AI = "abstract interpretation of the SSA form (%s)"
CLAIMS = {
 "C07": (AI % "one registered channel and its set, one event and its set, both arbitrary Boolean functions",
   "Decided for every registered set and every event set; larger watchpoints follow because Dispatch handles each entry alike, which the loop summary checks."),
 "C08": (AI % "event sets as Boolean functions",
   "Decided for every value of every set, for watchpoints holding any combination of the operated channel and two others; larger watchpoints follow because the operations treat the other entries alike."),
 "C03": (AI % "the tree around one target, registrations as arbitrary sets, the watcher may fail at any call",
   "Decided for every combination of registered sets of the stopped channel and two others on the nodes along a path; larger trees follow because the walks treat nodes alike, which the loop summaries check."),
 "C09": (AI % "the tree around one target, registrations as arbitrary sets, calls to the watcher recorded",
   "Decided for arbitrary trees of the per-directory kind (Linux and every platform without native recursion), and for both trees on all histories of three operations over five paths; every registered set is symbolic. Nested nodes are decided for paths of up to three components."),
 "C10": (AI % "the tree around one target, one failing watcher call per run",
   "Decided for arbitrary trees of the per-directory kind, and for the recursive tree on bounded histories of operations with any one call refused; five genuine defects are recorded as known findings."),
 "C15": (AI % "path resolution over symbolic components and an arbitrary file system, against a resolver over component lists",
   "Paths of up to four components, up to two links with ten forms of target, every examination may fail; five kinds of endless links; names are symbolic."),
 "C16": (AI % "the directory walk over an arbitrary listing, every file operation may fail",
   "Decided for every listing; one level of the walk is followed for an arbitrary directory and the work list is summarised."),
 "C17": (AI % "create and remove events below arbitrary registrations",
   "Decided for the per-directory tree; removal for paths of up to three components; directories that come and go between operations on bounded histories with a model of the file system."),
 "C18": (AI % "one event on an arbitrary path against arbitrary nodes",
   "Decided for every path other than the root itself, with the path as a symbolic string."),
 "C22": (AI % "every argument combination of Watch and Stop",
   "Decided for the per-directory tree and the package functions; channel, path outcome and sets are symbolic."),
 "C01": ("path- and context-sensitive data flow over the SSA form (origin of channels, kind of send), and abstract interpretation of the dispatch",
   "Every send on a channel found among the registrations, on every path of every operation and goroutine; dropping for one channel must not skip the others, for arbitrary sets."),
 "C02": ("path- and context-sensitive lock-state data flow over the SSA form, with freshness of looked-up channels",
   "Every send to a user's channel, on every path: the tree lock is held and the channel was looked up since it was taken; Stop removes registrations under the exclusive lock."),
 "C04": ("path- and context-sensitive lock-state data flow over the SSA form against inferred guards",
   "Every read and write of the guarded maps and records in every operation and goroutine; memory the operating system or other packages share is outside the analysis."),
 "C05": ("path- and context-sensitive lock-state data flow over the SSA form",
   "Every lock operation and every way out of every operation and goroutine, deferred calls and panics on misuse included."),
 "C06": ("path- and context-sensitive lock-state data flow over the SSA form, and the lock-order graph",
   "Every operation that can wait (channel operations, WaitGroup, epoll) on every path; waiting inside the operating system's own calls is not counted."),
 "C19": ("path-sensitive data flow over the goroutines' exits, and abstract interpretation of parsing, following and dispatch for panics",
   "Every exit of every pump goroutine; absence of panics for every kernel record, event and registration in the modelled domain."),
 "C20": ("path-sensitive data flow over close, WaitGroup and watcher calls, and abstract interpretation of shutting the Linux watcher down",
   "Every path of closing the tree; channels are identified by where they are made; one failing system call per shutdown."),
 "C12": ("constants and tables of the type-checked program of 17 build configurations compared as bit sets; abstract interpretation of Event.String",
   "Every configuration and every exported event constant; String over tables of symbolic events. The documented native values are a table of the check."),
 "C21": ("build-constraint evaluation, source type-checking of 17 build configurations, type-level interface obligations, abstract interpretation of newTree",
   "Every supported configuration; C code of FSEvents and FEN is represented by Go declarations of the C functions used."),
 "C11": (AI % "the Linux event pipeline from system call to tree, masks symbolic",
   "Decided for every kernel mask and every requested set, bit by bit over the partition of constants met; the kernel is modelled by the documented inotify interface."),
 "C13": (AI % "the kernel buffer as a sequence of records of symbolic size",
   "Decided for every well-formed buffer: parsing is followed over first, middle and last records with symbolic lengths; loops are closed by generalisation of the offset."),
 "C14": (AI % "typestate of the four descriptors, every system call may fail",
   "Decided along every path of set-up, use, Close and re-use with one failing system call per run."),
 "C23": (AI % "error outcomes of every system call against result and table",
   "Decided for the Linux watcher; one failing system call per operation."),
 "C24": (AI % "the Linux event pipeline from kernel record to EventInfo",
   "Decided for every kernel record; filepath.Join is modelled."),
}
NA = {
 "N01": "Order of delivery depends on how goroutines are scheduled at run time (every event is dispatched in its own goroutine); no static rule bounds it.",
 "N02": "Losslessness end to end quantifies over kernel queues, buffer sizes and timing, which the source does not fix; its static clauses are claimed as C07, C11, C13, C18 and C19.",
 "N03": "The race between creating files in a new directory and adding its watch is inherent in the kernel interface and quantifies over timing; what the code does once it sees the directory is claimed as C17.",
 "N04": "Equality with the operating system's resolution quantifies over file system contents and concurrent changes; the structural part is claimed as C15.",
 "N05": "Exactness of rescans quantifies over the file system contents between two run-time looks at a directory, and the backends' flags are best-effort by design.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "The check for this property is not finished yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One static analyser (cmd/notifysa) decides every property on /repo's current source; nothing of /repo is executed."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
