#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Delivering an event never blocks on a user's channel",
 "Events are handed to a user's channel without waiting for it: when the channel cannot take the event at once, the event is dropped for that channel, and delivery to the other channels goes on. No user channel, whether unbuffered, full or abandoned, can stall event delivery, Watch, Stop or Close.",
 ["schedules", "inputs"], "every registered channel whatever its buffer and reader, every event, every interleaving",
 "Tests read promptly from amply buffered channels; a send that can wait only shows with a slow reader on the one path that reaches it.",
 ["watchpoint.go", "tree_nonrecursive.go", "tree_recursive.go"],
 [("non-blocking send", "watchpoint.Dispatch"), ("dispatch loop", "nonrecursiveTree.dispatch, recursiveTree.dispatch")], ["user channels"])
prop("C02", "After Stop returns, the channel gets nothing more",
 "Once Stop(c) has returned, no event is sent on c any more, whatever was being dispatched at that moment, unless c is registered again. Every send of an event to a user's channel takes place while the lock that Stop holds exclusively is held, on every path.",
 ["schedules"], "every interleaving of Stop with dispatching goroutines",
 "The window between looking a registration up and sending is microseconds wide; tests stop idle channels.",
 ["tree_nonrecursive.go", "tree_recursive.go", "watchpoint.go", "node.go"],
 [("reader lock around dispatch", "nonrecursiveTree.dispatch, recursiveTree.dispatch"), ("writer lock in Stop", "nonrecursiveTree.Stop, recursiveTree.Stop")], ["user channels"])
prop("C03", "Stop removes every registration of the channel, and only those",
 "Stop(c) removes every registration of c, on every path and of every kind (recursive or not, merged or not yet active), and leaves all registrations of other channels exactly as they were. A failure of the underlying watcher part way does not keep the remaining registrations of c from being removed.",
 ["inputs", "histories", "fault_sequences"], "every set of registrations, every tree shape, every failure pattern of the underlying watcher",
 "Tests stop channels in a dozen fixed trees with a watcher that never fails.",
 ["tree_nonrecursive.go", "tree_recursive.go", "node.go", "watchpoint.go"],
 [("removal walk", "nonrecursiveTree.Stop, recursiveTree.Stop"), ("per watchpoint removal", "nonrecursiveTree.watchDel, watchDel")])
prop("C04", "Shared state is accessed only under its lock",
 "The watch tree and the watchers' tables of watched paths are shared by the goroutines that dispatch events, follow directory changes, and run Watch, Stop and Close. Every access to such state is made with the lock that guards it held, exclusively for a modification, so that no data race is possible whatever the interleaving.",
 ["schedules"], "every interleaving of the package's goroutines and concurrent callers",
 "The race detector sees only the interleavings and paths that a test happens to execute.",
 ["tree_nonrecursive.go", "tree_recursive.go", "watcher_inotify.go", "watcher_trigger.go", "node.go", "watchpoint.go", "watcher_readdcw.go", "watcher_fsevents.go"],
 [("tree lock", "nonrecursiveTree.rw, recursiveTree.rw"), ("watcher lock", "inotify.RWMutex, trg.Mutex")])
prop("C05", "Every lock is released on every path and never taken twice",
 "Every lock the library takes is released on every path out of the operation that took it, error returns and panics on documented misuse included, and exactly once. No operation tries to take a lock that it already holds.",
 ["inputs", "fault_sequences", "schedules"], "every path through every operation, every error of the operating system",
 "An early return that leaves a lock held needs the particular error that takes it; the tests provoke almost none.",
 ["tree_nonrecursive.go", "tree_recursive.go", "watcher_inotify.go", "watcher_trigger.go", "watcher_readdcw.go", "watcher_fsevents.go", "watcher_fsevents_cgo.go"],
 [("deferred unlocks", "Watch, Stop, Close of both trees"), ("explicit unlocks", "inotify.watch, nonrecursiveTree.internal, trg.*")])
prop("C06", "No deadlock: nothing waits for another goroutine under a lock",
 "While it holds a lock that the event-processing goroutines need, no operation waits for another goroutine (sends to, receives from or waits on it), and locks are always taken in the same order. So Watch, Stop and Close cannot deadlock with event delivery or with each other.",
 ["schedules"], "every interleaving of Watch, Stop, Close and event processing",
 "A deadlock needs two goroutines to meet at two particular points; a test that misses the window passes.",
 ["tree_nonrecursive.go", "tree_recursive.go", "watcher_inotify.go", "watcher_trigger.go"],
 [("hand-off after unlocking", "nonrecursiveTree.dispatch"), ("lock order tree before watcher", "nonrecursiveTree.*, inotify.*")])
prop("C07", "A channel receives exactly the events it asked for",
 "When an event is dispatched to a watched path, a channel registered there receives it exactly when its registered set includes the event (and, for an event from below the path, when it asked for a recursive watch), exactly once; a channel that did not ask for it does not receive it. Internal bookkeeping bits never make a channel match and are never shown to users.",
 ["inputs"], "every registered event set, every event, every combination of registered channels",
 "Tests try a few dozen of the 2^64 combinations of registered and dispatched sets.",
 ["watchpoint.go", "watchpoint_other.go", "watchpoint_readdcw.go"],
 [("filter", "matches"), ("dispatch", "watchpoint.Dispatch")], ["user channels"])
prop("C08", "Registrations combine as sets: Add is union, removal is difference",
 "Registering events for a channel at a path makes its set there the union of old and new, unregistering makes it the difference and drops a channel whose set became empty; other channels are untouched. The aggregate set of the path is always exactly the union of the registered sets, and the reported change is exactly the old and new aggregate, or none when the aggregate is unchanged.",
 ["inputs", "histories"], "every combination of event sets and registered channels",
 "The watchpoint test runs a fixed sequence of some twenty operations; the property is about all sets.",
 ["watchpoint.go", "event.go"],
 [("add", "watchpoint.Add"), ("delete", "watchpoint.Del"), ("change report", "eventDiff")],
 state=[("watchpoint", "channel to registered set; the nil key holds the aggregate", "watchpoint.go")])
prop("C09", "The underlying watches are exactly what the registrations need",
 "After every successful Watch and every Stop, a path is watched by the underlying watcher exactly when some live registration needs it, and for exactly the union of the events its registrations ask for: none missing, none left over. Internal bookkeeping bits never reach the underlying watcher, and watching is changed with the old set that was really in force.",
 ["inputs", "histories"], "every sequence of registrations and removals on every tree shape",
 "Tests compare the watcher's calls for fixed sequences; a wrong mask after an unusual merge, split or removal order goes unnoticed.",
 ["tree_nonrecursive.go", "tree_recursive.go", "watchpoint.go", "node.go"],
 [("non-recursive synchronisation", "nonrecursiveTree.watch, recFunc, watchrec, Stop"), ("recursive synchronisation", "recursiveTree.Watch, recursiveTree.Stop")], ["watcher interface"])
prop("C10", "A failed Watch reports the error and registers nothing",
 "When the underlying watcher refuses a watch, Watch returns a non-nil error and the channel's registrations at every path are exactly what they were before the call. A Watch that returns nil has registered the channel for all the events asked for.",
 ["fault_sequences", "inputs", "histories"], "every failing watcher operation, every prior set of registrations",
 "No test makes the watcher fail; the roll-back code is never executed.",
 ["tree_nonrecursive.go", "tree_recursive.go", "watchpoint.go", "notify.go"],
 [("roll-back", "nonrecursiveTree.watch, watchrec, recursiveTree.Watch")])
prop("C11", "inotify masks map to events exactly and back",
 "On Linux every portable event is requested from the kernel with all the inotify bits that report it, requested native events are passed through unchanged, and nothing else is requested. Every kernel event is translated into exactly the requested event it stands for, kernel bits nobody asked for produce nothing, and a set with unknown bits is refused with an error.",
 ["inputs"], "every requested event set and every kernel mask",
 "Tests sample single events on a live kernel; the mapping is a function of 2^32 masks and 2^32 requests.",
 ["watcher_inotify.go", "event_inotify.go"],
 [("request", "encode"), ("report", "decode, inotify.transform"), ("validation", "inotify.watch")])
prop("C12", "Event values are distinct and named on every platform",
 "On every supported platform the portable events, the platform's native events and the internal marker bits use pairwise disjoint, non-empty bits, so no set can be confused with another (FSEvents' flags for created, removed, modified and renamed items are the portable events), and each native event has the value its system documents. Every public event has its own name when printed, a combined set prints the names of its members, and internal marker bits are in no public event.",
 ["configurations", "inputs"], "every supported platform and every event constant",
 "Tests run on one platform; a clash on another compiles and is not exercised.",
 ["event.go", "event_inotify.go", "event_kqueue.go", "event_fen.go", "event_fsevents.go", "event_readdcw.go", "event_stub.go"],
 [("constants", "osSpecific constants, recursive, omit"), ("names", "estr, osestr, Event.String")])
prop("C13", "The inotify buffer is parsed record by record, within bounds",
 "From a buffer filled by the kernel, the Linux reader takes one record after the other: each exactly once, in order, the name belonging to the record, no byte read beyond what the kernel filled in, and nothing kept that the next read overwrites. An unknown or stale watch descriptor in a record is skipped without harm, and a queue overflow record does not end the reading.",
 ["inputs"], "every well-formed buffer the kernel can return",
 "Tests cannot choose how the kernel batches and pads records.",
 ["watcher_inotify.go"],
 [("parse", "inotify.read"), ("resolve names", "inotify.transform")])
prop("C14", "inotify descriptors are opened and closed in step",
 "The Linux watcher opens its kernel objects together on first use; if one cannot be opened, those already opened are closed again and the error is returned. Close ends the reading goroutine, waits for its workers, and closes each descriptor exactly once; nothing uses a descriptor after it was closed.",
 ["fault_sequences", "histories", "schedules"], "every failing system call during set-up, every order of use and Close",
 "Tests never see epoll, pipe or inotify creation fail.",
 ["watcher_inotify.go"],
 [("set-up", "inotify.lazyinit, epollinit"), ("tear-down", "inotify.Close, epollclose, loop")])
prop("C15", "Paths are made absolute, clean and symlink-free before use",
 "Watch resolves its path to an absolute path without symlinks: every component of the resolved path has been examined and is not a symlink, and a symlink is replaced by its target, read relative to the directory that holds it. A trailing \"...\", and only that, makes the watch recursive and is not part of the watched path; cyclic links end in an error, never in an endless loop; failures to examine a component are returned.",
 ["inputs"], "every path and every layout of symlinks",
 "Tests try a handful of link layouts.",
 ["util.go"],
 [("resolution", "canonical"), ("clean path", "cleanpath")])
prop("C16", "A recursive watch covers every real subdirectory, and no symlink",
 "Setting up a recursive watch visits the directory itself and every directory below it, exactly once, and watches each; it does not descend into files or symlinks. A failure to examine or list a directory ends the walk and is returned as the error of Watch; it is never mistaken for success.",
 ["inputs", "fault_sequences"], "every directory tree, every failing directory operation",
 "Tests watch small fixed trees without errors.",
 ["node.go", "tree_nonrecursive.go"],
 [("walk", "node.AddDir"), ("per directory", "nonrecursiveTree.recFunc, watchrec")])
prop("C17", "Recursive watches follow directories that appear and disappear",
 "With a per-directory watcher, when a directory is created below a recursive watch it and all its subdirectories become watched for the recursive registrations' events, and when a directory is removed its watches and registrations below are dropped. A new directory reaches this bookkeeping even if no user asked for events of that kind, and without showing them to users; a directory that is created again after it was removed is watched again, whether its removal was reported or not.",
 ["histories", "schedules"], "every event below a recursive watch, every set of registrations",
 "Tests create a few directories under one recursive watch; the bookkeeping depends on every combination of registrations on the path.",
 ["tree_nonrecursive.go", "watchpoint.go", "node.go"],
 [("hand-off", "nonrecursiveTree.dispatch"), ("bookkeeping", "nonrecursiveTree.internal, recFunc")])
prop("C18", "Events are routed to exactly the watches they concern",
 "An event for a path is offered to a watch on that path, to a watch on its parent directory, and to recursive watches on every ancestor; to each of them, and to no other watch. A watch on a sibling whose name merely starts with the same characters gets nothing.",
 ["inputs"], "every path, every tree of registrations",
 "Tests route a few dozen events through fixed trees.",
 ["tree_nonrecursive.go", "tree_recursive.go", "node.go", "util.go"],
 [("routing", "nonrecursiveTree.dispatch, recursiveTree.dispatch"), ("tree walk", "node.WalkPath, node.Get, base, indexSep")])
prop("C19", "Event pumps keep running until closed",
 "Each goroutine that moves events (reading from the kernel, dispatching, following directories) goes on after every event and after every recoverable error, and ends only when the watcher is closed. No event content and no vanished watch makes it panic or return.",
 ["inputs", "schedules", "fault_sequences"], "every event and every recoverable error",
 "A pump that ends after an unusual event leaves all later events undelivered; tests end soon after.",
 ["tree_nonrecursive.go", "tree_recursive.go", "watcher_inotify.go"],
 [("dispatch loops", "nonrecursiveTree.dispatch, nonrecursiveTree.internal, recursiveTree.dispatch"), ("reader", "inotify.loop, inotify.send")])
prop("C20", "Shutting down is orderly: no send on a closed channel",
 "Closing the tree first closes the watcher, which ends its producers, and only then closes the event channel, so no goroutine can send on a closed channel. Every channel the library closes is closed at most once, by one operation, and a watcher's Close waits for its goroutines before returning.",
 ["schedules", "histories"], "every interleaving of Close with event production",
 "A send on a closed channel panics only in the window between the two.",
 ["tree_nonrecursive.go", "tree_recursive.go", "watcher_inotify.go"],
 [("order", "nonrecursiveTree.Close, recursiveTree.Close"), ("waiting", "inotify.Close, inotify.loop")])
prop("C21", "Every supported platform builds, with exactly one backend",
 "For every supported operating system and build option the package type-checks, with exactly one implementation of the watcher, of the event tables and of the tree constructor selected. Each watcher implements what its tree requires, including recursive watching where the recursive tree is used; the tree reads the channel its watcher sends on. The two forms of build constraints in a file, for old and new versions of Go, select it alike.",
 ["configurations"], "every supported GOOS, with cgo on and off and the kqueue option",
 "Tests build for one platform.",
 ["watcher_inotify.go", "watcher_kqueue.go", "watcher_fen.go", "watcher_fsevents.go", "watcher_readdcw.go", "watcher_stub.go", "tree.go"],
 [("build constraints", "all platform files"), ("selection", "newTree, newWatcher")])
prop("C22", "Watch checks its arguments before it does anything",
 "Watch panics on a nil channel and returns nil without registering anything when no events are given; an unresolvable path is reported as an error and nothing is registered. All given events are registered as one set, and Stop of a channel that was never registered changes nothing.",
 ["inputs"], "every channel, path and event list",
 "Tests cover a few argument combinations of one tree.",
 ["notify.go", "tree_nonrecursive.go", "tree_recursive.go", "event.go"],
 [("argument checks", "nonrecursiveTree.Watch, recursiveTree.Watch"), ("joining", "joinevents")])
prop("C23", "No error of the operating system is mistaken for success",
 "An operation of a watcher that fails in the operating system returns a non-nil error to its caller, and one that succeeds returns nil and has recorded the change. After a failure the watcher's table of watched paths is as it was before.",
 ["fault_sequences", "inputs"], "every failing system call",
 "Tests run on an operating system that does not fail.",
 ["watcher_inotify.go", "watcher_trigger.go", "watcher_kqueue.go"],
 [("inotify operations", "inotify.watch, inotify.Unwatch"), ("path table", "inotify.m")])
prop("C24", "Delivered events carry a usable path, event and system data",
 "Every event delivered on Linux carries a single public event value, the absolute path of the file concerned (the watched directory joined with the reported name, or the watched path itself), and the kernel record it came from. Its directory flag is that of the kernel record.",
 ["inputs"], "every kernel record",
 "Tests look at a few records of a live kernel.",
 ["watcher_inotify.go", "event_inotify.go"],
 [("event building", "inotify.read, inotify.transform, decode"), ("accessors", "event.Event, event.Path, event.Sys, event.isDir")])
# not applicable
prop("N01", "Events for one path arrive in the order they happened",
 "Events concerning one path are delivered to a channel in the order in which they happened.",
 ["schedules", "histories"], "every interleaving",
 "Order depends on goroutine scheduling.",
 ["tree_nonrecursive.go", "watcher_inotify.go"], [("per-event goroutine", "nonrecursiveTree.dispatch")])
prop("N02", "No event is lost end to end while channels keep up",
 "Every change of a watched file leads to an event at every channel registered for it, as long as the channels have room and the kernel queue does not overflow.",
 ["schedules", "inputs", "histories"], "every history of file system changes",
 "Depends on kernel queues and timing.",
 ["watcher_inotify.go", "tree_nonrecursive.go"], [("pipeline", "inotify.loop, dispatch")])
prop("N03", "Files created in a new directory before it is watched are reported",
 "When a directory is created below a recursive watch and filled at once, the files in it are reported too.",
 ["schedules"], "every timing of creation and watching",
 "Depends on the race between the creator and the watcher.",
 ["tree_nonrecursive.go"], [("internal bookkeeping", "nonrecursiveTree.internal")])
prop("N04", "Canonical paths equal the operating system's realpath",
 "For every layout of links and every concurrent renaming the resolved path is the one the operating system would resolve.",
 ["inputs", "schedules"], "every file system content",
 "Depends on the file system's content at run time.",
 ["util.go"], [("resolution", "canonical")])
prop("N05", "Polling backends report exactly the changes between rescans",
 "On kqueue, FEN and FSEvents the reported events are exactly the changes that happened between two looks at a directory.",
 ["histories", "schedules"], "every history of changes",
 "Depends on the file system's content at run time.",
 ["watcher_kqueue.go", "watcher_trigger.go", "watcher_fsevents.go"], [("rescan", "trg.file, trg.dir"), ("flag strip", "watch.strip")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
