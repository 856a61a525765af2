#!/usr/bin/env python3
"""Writes properties.jsonl. The property texts live here, one call per property."""
import json, os
out = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    out.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe), "hook_needed": None}})

IDX="index/annoyindex.go"; IO="index/annoyindex_io.go"; SE="index/annoyindex_search.go"
MP="index/policy/index_policy_multi.go"; SP="index/policy/index_policy_single.go"
MM="index/memory/index_allocator_mmap.go"; GM="index/memory/index_allocator_gcmem.go"; BA="index/memory/gc_index_build_allocator.go"
AD="distance/angular/distance.go"; AN="distance/angular/node.go"; DD="distance/dotproduct/distance.go"; DN="distance/dotproduct/node.go"
TM="distance/two_means.go"; SO="sort/sort.go"; PS="sort/partial_sort.go"; PQ="sort/priority_queue.go"; IS="interfaces/sorter.go"
BU="builder/index.go"; K32="random/kiss32random.go"; K64="random/kiss64random.go"; GR="random/gorand.go"

P("C01","Building with several workers is free of data races",
  "While an index is built with the multi-worker policy, any two accesses by different workers (or by a worker and the goroutine that started it) to the same memory, at least one of which is a write, exclude each other by a lock both hold. This includes the index's node storage, counters and root list, the distance implementation, the random generators and the build allocator.",
  ["schedules","configurations"],"every interleaving of any number of workers, for every distance and index type",
  "Tests run one lucky schedule of one configuration, without the race detector; a race needs a particular interleaving to show.",
  [IDX,MP,SP,BA],[("per-structure locks of the build policy",MP),("lock bracketing in tree building",IDX)],
  [("_nodes","storage pointer, replaced when storage grows",IDX),("_n_nodes","next free node slot",IDX),("_roots","roots of all trees",IDX)],["idx.Build with UseMultiWorkerPolicy"])
P("C02","Building never deadlocks and always releases its locks",
  "During a build every lock is released exactly once on every path by the goroutine that took it, no lock is requested while the same goroutine already holds it, and any two locks that are ever nested are always nested in the same order. Hence no schedule of the workers can deadlock and no lock is left held when the build returns.",
  ["schedules","inputs"],"every path through the build and every interleaving of workers",
  "A missing unlock on a rare path or an inverted lock order only hangs under a specific schedule; tests see a handful of schedules.",
  [IDX,MP],[("Lock/Unlock pairs of the build policy",MP),("lock nesting",IDX)],(),["idx.Build"])
P("C03","Growing the node storage never loses a node write",
  "Every write into the index's node storage goes through a pointer obtained from the current storage: no growth of the storage, by this goroutine or (after the lock protecting the storage was released) by another worker, can happen between obtaining the pointer and writing through it.",
  ["schedules","inputs","histories"],"every order of adding items and building trees, every moment at which storage grows, every interleaving of workers",
  "Growth happens at a few sizes only, and in tests a size hint usually prevents it altogether; a write to the abandoned copy is silent.",
  [IDX,BA],[("obtain node after ensuring capacity, inside the shared lock",IDX)],(),["AddItem","Build"])
P("C04","A node is only written into storage that was reserved for it",
  "Whenever an item or a tree node is written, the storage has been grown beforehand to include that node's slot, the size passed to the allocator covers the recorded capacity, and a slot handed to a tree node is taken and marked as used in one step that no other worker can interleave with. So no write lands outside the storage and no two tree nodes ever share a slot.",
  ["inputs","schedules","histories"],"all item ids, item orders, tree counts, worker counts and growth patterns",
  "An off-by-one in the capacity usually lands in slack memory and goes unnoticed; slot sharing needs two workers to collide.",
  [IDX],[("allocateSize before use",IDX),("slot counter advanced under its lock",IDX)],
  [("_nodes_size","capacity in nodes",IDX),("_n_nodes","used slots",IDX)],["AddItem","Build"])
P("C05","Reallocating build storage keeps everything written so far",
  "When the build allocator is asked for a size, the memory it returns is at least that large and starts with everything that was in the memory it returned before; this holds for growing, for asking for less, for equal sizes and after it was freed.",
  ["inputs","histories"],"every sequence of requested sizes",
  "Tests use one growth pattern only, mostly preallocated by a hint, and never look at the old contents after a growth.",
  [BA,"interfaces/index_memory.go"],[("copy of the old extent before the old pointer is dropped",BA)],(),["Reallocate"])
P("C06","Building trees never alters a stored item's vector",
  "No step of building (pre-processing, centroid search, splitting, copying of roots, for any distance) writes to the vector or to the item marker of an item that was added; such steps only write to temporary nodes, to slots beyond the items, and to the bookkeeping fields a distance keeps beside the vector.",
  ["inputs","configurations","schedules"],"all item sets, distances and worker counts",
  "Existing tests compare a few items after building one random angular index; an alteration can depend on the distance or on which items a split samples.",
  [IDX,TM,AD,DD],[("temporary nodes in CreateSplit / TwoMeans",TM),("PreProcess only sets the extra dimension",DD)],(),["GetItem after Build"])
P("C07","Every tree contains every item",
  "While a tree is built, each item handed to a node goes to exactly one of the node's two sides (including after a retried or randomised split), both sides are built and become that node's children, and a leaf lists all items it was given; every tree starts from all items that were added. So no item is ever unreachable in a tree or listed twice by one.",
  ["inputs","configurations"],"all item sets, including duplicates, zero vectors and degenerate splits",
  "A dropped item only lowers recall slightly; tests check neighbours of three items, where all items fit into one leaf.",
  [IDX],[("partition loop in makeTree",IDX),("item list in ThreadBuild",IDX)],(),["GetNns* with an unlimited number of nodes to inspect"])
P("C08","Builds draw only on the worker's own seeded generator",
  "All random choices made while building come from a generator that is private to the worker, was derived from the configured one, and was seeded from the configured seed and the worker's number in a way that differs between workers; nothing else that varies between runs (time, global randomness, map order, addresses) influences the build. A single-worker build is therefore reproducible, and workers do not build the same tree twice.",
  ["schedules","inputs","configurations"],"all seeds, worker numbers and item sets",
  "Reproducibility needs two builds to be compared, and sharing a generator between workers shows only as a schedule-dependent difference.",
  [IDX,K32,TM,AD,DD],[("CloneAndReset + SetSeed per worker",IDX)],(),["Build"])
P("C09","A multi-worker build runs every worker to completion",
  "For every worker count from -1 upwards at least one worker is started, every started worker runs the tree building exactly once with its own number and is waited for before Build returns, and a request for an automatic number of trees reaches every worker unchanged.",
  ["inputs","schedules"],"all worker counts >= -1, all tree counts, every completion order",
  "Tests only use -1 workers; returning before the last worker is done is a schedule-dependent loss of trees.",
  [MP,SP],[("WaitGroup accounting",MP)],(),["Build"])
P("C10","Built and loaded indexes are immutable; unbuilt ones are not saved",
  "Adding an item to, or building, an index that is already built or loaded is refused before anything is modified, and saving an index that is not built (never built, or closed since) returns an error before any file is touched. A new or closed index accepts items and can be built.",
  ["histories"],"every sequence of AddItem, Build, Save, Load and Close, including failing ones",
  "The tests follow the one documented order of calls only.",
  [IDX,IO],[("indexBuilt / indexLoaded guards",IDX)],[("indexBuilt","trees exist",IDX),("indexLoaded","storage is a loaded file",IDX)],["panics and errors of the public API"])
P("C11","Saving replaces the target file atomically",
  "Save never opens, truncates, writes or removes the target file in place: the complete image is written to another file in the same directory, flushed and closed successfully, and only then renamed over the target. A crash or write error at any point leaves the previous file intact, and an index loaded from the target file can be saved to it.",
  ["crash_points","fault_sequences","histories"],"a crash or I/O error at any point of Save, any previous content of the target, including the file currently mapped",
  "Tests never crash in the middle of Save nor save over the file they are mapped from.",
  [IO],[("temporary file, sync, close, rename",IO)],(),["the target file"])
P("C12","Save, Load and Close report success only if their I/O succeeded",
  "If creating, writing, flushing, closing or renaming the saved file fails, Save returns an error; if opening, inspecting, reading or mapping the file fails, Load and the allocators' Open return an error (never a panic); if unmapping or closing the file fails, Close returns an error.",
  ["fault_sequences"],"every single I/O failure at every point",
  "No test injects an I/O error.",
  [IO,MM,GM,IDX],[("error propagation",IO)],(),["returned errors"])
P("C13","Loading rejects malformed files and never looks outside the file",
  "Load inspects node data only after establishing that the file is not empty and is a whole number of node records, every record it inspects lies within the file, and it returns an error otherwise. After any error from Load the index is closed: it holds no mapping, no storage pointer and is neither built nor loaded.",
  ["inputs","histories"],"all file sizes and all numbers of node records, including those where all nodes look alike; every failure point",
  "Tests only load files they just wrote, of one shape.",
  [IO,MM,GM],[("size check",IO),("root scan bounds",IO)],(),["Load"])
P("C14","Files and mappings are released, and never used after release",
  "Opening an index file either hands every file descriptor and mapping it acquired to the returned allocation or releases it; closing an allocation releases all of them; Save leaves no file open. Close and Load release the current allocation (if any) exactly once and leave no storage pointer or root into released memory, and Close may be repeated.",
  ["histories","fault_sequences"],"every sequence of Load, Save and Close and every failing call in between",
  "Leaks do not fail a test, and use after unmap needs calls after Close or failing loads.",
  [IO,IDX,MM,GM],[("Close of the allocations",MM),("Close of the index",IDX)],(),["open descriptors and mappings"])
P("C15","Searching never modifies the index",
  "Looking up neighbours, distances, items or creating a context writes only to memory private to the call or to the caller's context, never to the index, its storage, its random generator, its distance, or to global state; so any number of goroutines with their own contexts can search at the same time.",
  ["schedules","inputs"],"all concurrent searches with one context each",
  "Tests search from a single goroutine.",
  [SE,AD,DD,SO,PS],[("per-goroutine context","index/annoyindex_search.go")],(),["GetNnsByVector","GetNnsByItem","GetDistance","GetItem"])
P("C16","Caller supplied vectors and item ids are checked before use",
  "A vector of the wrong length passed to AddItem or to a search, and an item id that is not below the number of items passed to an item lookup, distance or neighbour query, is refused before any memory is read or written on its behalf.",
  ["inputs","histories"],"all vector lengths and ids in all states of the index",
  "Tests only pass valid arguments; node memory is accessed with unsafe pointers, so nothing else catches a wrong length or id.",
  [IDX,SE],[("length and range checks",SE)],(),["AddItem","GetItem","GetDistance","GetNnsByItem","GetNnsByVector"])
P("C17","Search results are distinct items, nearest first, with their distances",
  "A search returns two lists of equal length, not longer than requested: ids of existing items, no id twice, ordered by increasing distance (ties by id), and at the same position the distance of that item as the distance function reports it.",
  ["inputs","histories"],"all queries, result counts, inspect limits, and tree shapes",
  "Tests check three-item indexes; duplicates arise only when several trees propose the same item.",
  [SE,PS],[("sort, deduplicate, filter, partial sort, emit",SE)],(),["GetNnsByVector","GetNnsByItem"])
P("C18","A search never runs past its candidate buffers",
  "However many candidates the trees propose, and whatever context is passed, collecting candidates and ranking them stays within the context's buffers (growing them if needed); no search panics because of the number of candidates.",
  ["inputs","histories"],"all tree shapes, result counts and inspect limits, contexts created before or after Build/Load",
  "The buffers are sized by an estimate; only wide searches over many trees exceed it.",
  [SE],[("buffers of the batch context",SE)],(),["GetNnsByVector"])
P("C19","Searches follow the same side of a split as the build, best first",
  "The side on which the search expects a vector, given its margin to a split, is the side on which the build put such vectors (same margin function, same sign convention, same child slot), for every distance; and the search always expands the pending node with the best bound next, passing each child the bound on its own side of the split.",
  ["inputs","configurations"],"all splits, margins and queries, each distance",
  "With few items everything is inspected anyway, so a flipped side or an inverted queue only lowers recall, which no test asserts.",
  [SE,IDX,AD,DD,PQ],[("Side / PQDistance / Margin conventions",AD),("queue order",PQ)],(),["recall of GetNns* under an inspect limit"])
P("C20","Node records are laid out and copied whole",
  "For every combination of vector and index type: a node record has room for its header and all vector elements, the maximum number of children fits into a record, getters and setters of one attribute address the same bytes and transfer all of them, the header fields used together do not overlap, and copying a node copies the entire record.",
  ["configurations","inputs"],"float32/float64 vectors, uint32/uint64 ids, all vector lengths, each distance",
  "Tests instantiate float32/uint32 only.",
  [AN,DN,AD,DD,"utils/node.go",TM,IDX],[("node size and child capacity formulas",AD),("CopyNode","utils/node.go")],(),["GetItem, searches"])
P("C21","Byte sizes and offsets do not wrap for large indexes",
  "Every byte size and byte offset derived from a number of nodes and the node size, and every file size, is computed and kept in at least 64 bits on 64-bit platforms, also when ids are 32-bit; so storage beyond 4 GiB is addressed, saved and loaded correctly.",
  ["inputs","configurations"],"all item counts and vector lengths that fit into memory",
  "Only indexes larger than 4 GiB show the wrap-around.",
  [IDX,IO,AD,DD],[("widening before multiplication",AD)],(),["AddItem","Save","Load","searches"])
P("C22","Distance arithmetic never leaves the real numbers",
  "In all distance, norm and split computations the argument of a square root can never be negative and a divisor can never be zero, for finite inputs (including zero vectors, identical and nearly parallel vectors), so no NaN is produced from them and no panic occurs.",
  ["inputs"],"all finite vectors, including zero, parallel and duplicate ones",
  "A NaN needs a rounding coincidence or a zero vector.",
  [AD,DD,TM,"vector/get_norm.go",IDX],[("guards and clamps",AD)],(),["GetDistance","GetNns* distances","Build"])
P("C23","More similar vectors rank first, for every distance",
  "The value an index ranks by decreases as the inner product of two vectors grows, for each distance; the distance reported to the user for the dot product index is the inner product itself, and for the angular index it grows with the ranking value. The distance is symmetric in its two nodes.",
  ["inputs","configurations"],"all pairs of vectors",
  "The dot product distance has no passing test; the angular one is tested with three axis-parallel vectors.",
  [AD,DD,"vector/dot.go"],[("Distance and NormalizedDistance",DD)],(),["GetDistance","GetNns*"])
P("C24","Ordering primitives are consistent and stay in their range",
  "Pairs are compared lexicographically (first, then second) by every comparison the library offers, so comparisons form a strict total order; sorting helpers only exchange elements (no element is lost or duplicated), a partial sort never touches elements outside the given range, and a priority queue is only changed by heap operations.",
  ["inputs"],"all pair lists, ranges and queue histories",
  "Tests sort six elements with distinct keys over the full range.",
  [PS,SO,PQ,IS],[("Less",IS),("swap-only sorting",PS)],(),["PartialSortSlice*","SortPairs*","PriorityQueue"])
P("C25","The builder wires exactly the chosen components into the index",
  "For every supported combination of vector and index type the builder produces an index whose components are the ones selected by the caller, a default for each component that was not selected (never nil), and whose vector length, node size and child capacity are those of its distance.",
  ["configurations"],"all combinations of type parameters and builder options",
  "Tests only build float32/uint32 indexes with two option sets.",
  [BU,IDX],[("defaults in Build",BU),("index.New",IDX)],(),["builder.Index()...Build()"])
P("C26","Verbose logging does not change behaviour",
  "Turning on verbose logging only prints: code that runs only when it is on (or only when it is off) modifies nothing, takes or releases no lock, draws no random number, and influences no later decision.",
  ["configurations","schedules"],"all runs with logging on versus off",
  "All tests run with logging off.",
  [IDX,IO,SE,"utils/dump.go"],[("guards on the verbose flag",IDX)],(),["Build","Save","Load"])
P("C27","Random generators respect their contract",
  "Every generator returns indexes below the requested bound and sides that are one of the two valid sides; a clone is a separate generator whose state depends only on the seed last set; a seeded constructor's state is a function of that seed alone; drawing numbers depends on and changes only the generator's own state.",
  ["inputs","histories"],"all seeds, bounds and call sequences",
  "No test covers the generators.",
  [K32,K64,GR,"interfaces/random.go"],[("NextIndex/NextSide/CloneAndReset/SetSeed",K32)],(),["interfaces.Random"])
P("C28","The index neither keeps nor hands out other people's memory",
  "The index keeps no reference to a vector passed to AddItem or to a search and never writes to it, and the result lists of a search are freshly allocated, sharing no memory with the index, the context or earlier results.",
  ["histories","inputs"],"all later uses of the caller's slices, the context and the results",
  "Tests never reuse a vector or a context in a way that would show aliasing.",
  [IDX,SE,AN,DN],[("SetVector copies",AN),("results appended to nil",SE)],(),["AddItem","GetNns*"])
P("C29","A successful load replaces the whole search state",
  "When Load succeeds, everything a search depends on other than the configuration (storage, node and item counts, roots, buffer estimate, state flags) has been set from the file just opened; nothing remains from what the index held before.",
  ["histories"],"all contents of the index before Load",
  "Tests load into the index that was just saved, whose state agrees with the file.",
  [IO,SE],[("reset and re-derivation in Load",IO)],(),["Load followed by searches"])
# value-level properties that are not claimed
P("C30","Approximate search has high recall",
  "With the default number of nodes to inspect, the neighbours returned are with high probability the true nearest ones, and recall grows with the number of trees and of inspected nodes.",
  ["inputs","configurations"],"all data distributions",
  "Tests print the precision but assert nothing.",
  [SE,IDX,TM],[("random projection trees",IDX)],(),["GetNns*"])
P("C31","A saved and reloaded index answers queries like the original",
  "For every query, the index loaded from a file returns the same ids and distances as the index that was saved to it.",
  ["inputs","histories"],"all indexes and queries",
  "Tests never compare results before and after a reload.",
  [IO],[("roots recovered from the tail of the file",IO)],(),["Save, Load, GetNns*"])
P("C32","As many trees are built as were asked for, and all are kept",
  "For every number of workers, the shares of the workers add up to the requested number of trees; each worker builds as many trees as it was given and adds the root of every one of them to the index's roots, exactly once and leaving those of the other workers in place; and Build ends by writing a copy of each root, whole and in the order of the roots, to the consecutive records directly behind all other nodes, and counting them. The index's tree count is therefore the requested number, and a saved file carries all trees.",
  ["inputs","schedules"],"all tree and worker counts, all index contents",
  "Tests do not count trees; a share that is rounded the wrong way, or a root that is lost, only lowers recall for some combinations of trees and workers.",
  [MP,IDX],[("per-worker share",MP),("worker loop, collected roots, copies behind the nodes",IDX)],(),["Build","NumberOfTrees"])
P("C33","Building terminates for every input",
  "Build returns for every item set, including duplicates and degenerate vectors.",
  ["inputs","schedules"],"all item sets and random sequences",
  "Tests build a few random indexes.",
  [IDX],[("random fallback split",IDX)],(),["Build"])
P("C34","Distances are numerically accurate",
  "The reported angular distance of two vectors equals sqrt(2-2cos) and the reported dot product their inner product, up to rounding proportional to the vector length.",
  ["inputs"],"all pairs of finite vectors",
  "Tests compare a handful of values.",
  [AD,DD,"vector/dot.go"],[("kernels","vector/dot.go")],(),["GetDistance"])
P("C35","A search loses nothing that it inspects",
  "A search starts from every tree; every item held by a node that it expands takes part in the ranking (once, however many trees propose it), whatever the number of candidates; it stops expanding only when the inspect limit (by default the requested number times the number of trees) is reached or nothing is left; and it returns as many items as were requested or as many as it found. With a limit as large as the index the search is therefore exact.",
  ["inputs","histories"],"all indexes, queries, result counts, inspect limits and contexts",
  "Tests use three items and one leaf; a candidate lost between collecting and ranking, or a node dropped at a boundary, only lowers recall.",
  [SE],[("collect candidates, deduplicate, rank",SE)],(),["GetNnsByVector","GetNnsByItem"])
P("C36","An added item reads back exactly as it was added",
  "After AddItem(i, v), GetItem(i) returns exactly the elements of v, bit for bit and in order, for every id, vector and prior content; item i is marked as an item; no other item's record is touched, and the item count becomes the larger one of the old count and i+1. This holds before and after Build. GetItem changes nothing.",
  ["inputs","histories"],"all indexes, ids, vectors, both distances, all instantiations",
  "Tests read back a few items of one distance; a wrong record, a converted or truncated vector or a count that shrinks when an id is added again shows for some ids only.",
  [IDX,AN,DN],[("AddItem, GetItem",IDX),("SetVector, GetVector",AN),("SetVector, GetVector",DN)],(),["AddItem","GetItem","NumberOfItems"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in out: f.write(json.dumps(p)+"\n")
print(len(out))
