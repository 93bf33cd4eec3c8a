"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The existing test program draws a fixed set of shapes once, in one thread, with no failure, and checks that it ends normally and writes a picture"
V, R, S, P, M, G, D = "src/src/vatti.cpp", "src/src/river.cpp", "src/src/scan_line.h", "src/src/processor.cpp", "src/src/rmath.cpp", "src/src/path.cpp", "debug_util/debug_util.cpp"
H, VH = "src/include/river.h", "src/src/vatti.h"

props = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": observe, "hook_needed": None}})

prop("C01", "Processors used by different threads at the same time do not affect each other",
     "Threads that each use their own processors, path objects, path texts and numeric helpers may run in any interleaving: every call returns exactly what it returns when its thread runs alone. No interleaving leads to a data race, a deadlock or a crash.",
     ["schedules", "inputs", "fault_sequences"], "all interleavings of 2-5 threads at the granularity of single memory accesses, with failing allocations and callbacks in some of them",
     TESTS + "; no test starts a second thread, so no interleaving is ever exercised.",
     [V, VH, S, P, R, M, G], [("all sweep state lives in the clipper object owned by one processor", VH), ("object pools are members, not globals", VH), ("parser grammar objects are local to the call", R), ("numeric helpers use only locals", M)],
     ["results of process, add_path, make_path, path and rmath calls per thread", "shared memory accesses seen by the simulator's race detector"],
     [("object pools", "memory of vertices, edges and segments of one processor", VH), ("static storage of the library", "must not be written by calls", "all")])
prop("C02", "Results depend only on the input, not on the process environment",
     "The same sequence of calls returns exactly the same results in every process and every time: whatever the addresses and previous contents of the memory the library receives, whatever ran before in the process, on whichever thread, at whatever time.",
     ["configurations", "inputs", "histories"], "all heap layouts, contents of fresh and freed memory, stack garbage, clock and random values, and unrelated earlier use in the same process",
     TESTS + "; one process with one heap layout samples a single environment, and uninitialised memory is mostly zero there.",
     [V, VH, S, P, R, M], [("every member is initialised before use", VH), ("event and segment order is decided by geometry, not by address", S), ("ties in sorting do not change the result", V)],
     ["results of identical call sequences in differing environments"],
     [("sweep event set", "ordered container that decides processing order", S), ("local minima list, intersection list", "sorted before use", V)])
prop("C03", "When memory runs out, calls fail cleanly and completely",
     "When any allocation fails, the call in progress reports std::bad_alloc and nothing worse happens. Contours completely added before the failure stay part of the input, the contour being added and later ones do not; a failed process call leaves the input as it was and has delivered at most a beginning of its result. The processor stays usable: later calls behave as if the failed call had never begun beyond that point.",
     ["fault_sequences", "crash_points", "inputs"], "every position and burst length of failing allocations inside every call, followed by retries and further use",
     TESTS + "; no test makes an allocation fail.",
     [V, VH, P, R, G, S], [("pool allocations that fail raise bad_alloc", V), ("a contour becomes part of the input in one step at the end", V), ("intersections are split only after everything needed was built", V), ("processing starts from a clean state", V), ("a path grows by whole elements", G)],
     ["exceptions leaving the public calls", "results of later process calls"],
     [("list of contours", "the accepted input", VH), ("local minima list", "must match the list of contours", VH)])
prop("C04", "No leak and no invalid memory access, whatever fails",
     "Under any sequence of calls, with callbacks that throw and allocations that fail at any point, the library touches only memory it owns or was handed and only while that memory is alive, and frees everything exactly once. After the objects of a caller are destroyed, repeating the same work does not leave memory behind.",
     ["fault_sequences", "histories", "inputs"], "all histories of processors and path objects with faults at any callback or allocation, repeated in one process",
     TESTS + "; leaks and stray accesses on failure paths do not change its outcome.",
     [V, VH, S, P, G, R], [("pools free their memory with the processor", VH), ("scan line objects are owned by smart pointers", S), ("pimpl is destroyed with the processor", P)],
     ["every load, store, allocation and release of the library"],
     [("live blocks", "allocations of the library not yet freed", "heap")])
prop("C05", "What a path reader delivers is taken exactly once, up to where it fails",
     "Content handed over by a caller's read function has the same effect as the same content in path objects, including elements that draw nothing and contours left open. When the reader throws, the exception reaches the caller unchanged, contours it had completed before are part of the input and the unfinished one is not; when it returns early, what was delivered counts and is closed. A reader may start a contour without a move and its arguments need to live only for the duration of each call.",
     ["fault_sequences", "inputs", "histories"], "all positions at which a reader throws or stops, all delivery forms, and continued use afterwards",
     TESTS + "; every test reader delivers everything and never fails.",
     [V, P, H], [("reader state lives in the call, contours are committed one by one", V), ("contour is closed when the next begins or the reader returns", V)],
     ["results of process after interrupted and uninterrupted reads", "exception leaving add_path"])
prop("C06", "Result callbacks follow the protocol, and a sink may fail at any callback",
     "A sink receives complete closed contours: a move first, then lines and curves whose start is the end of the previous element, always with the caller's user pointer, on the calling thread, the same elements that the path-object form of the call appends. A sink may throw at any callback: the exception reaches the caller unchanged, no further callback follows, what was delivered is the beginning of the result, and repeating the call delivers the whole result.",
     ["fault_sequences", "inputs", "histories"], "all results and all callbacks at which the sink throws",
     TESTS + "; its sinks never fail and it does not check the callback sequence.",
     [V, P, H], [("output is built only after the sweep is complete", V), ("one routine serves both output forms", V)],
     ["sequence of sink callbacks", "content of output path objects"])
prop("C07", "Processing can be repeated and mixed with further input",
     "process does not consume or alter the input: repeating it with the same operation and fill rule gives exactly the same result, any other operation and rule gives what a fresh processor with the same input gives, and input may be added between calls. Calls that failed or were interrupted in between change nothing.",
     ["histories", "inputs", "fault_sequences"], "all sequences of add and process calls over all operations and fill rules, with failing callbacks in between",
     TESTS + "; each test processor is asked once.",
     [V, VH, P], [("state of the previous sweep is discarded at the start", V), ("splitting at intersections keeps the geometry and is not repeated", V)],
     ["results of successive process calls"],
     [("scan line list, active edges, output bounds", "state of one sweep", VH), ("resolved marks", "segments already split against each other", VH)])
prop("C08", "Order and form of delivery of the input do not matter",
     "The region described by a result does not depend on the order in which contours arrive, on how they are distributed over calls, paths and producers, or on the vertex at which a contour starts. This holds for contours in general position, and for straight-edged contours also when they share vertices, overlap, repeat or run over themselves (coordinates that are meant to be equal being equal).",
     ["schedules", "inputs"], "all arrival orders decided by the schedule of concurrent producers, all partitions and start vertices, for input in general position and for straight-edged input in any position",
     TESTS + "; each test uses one order.",
     [V, S], [("minima, intersections and events are sorted by geometry", V), ("winding is recounted from the active edges", V)],
     ["regions of results at sample points"])
prop("C09", "Inputs are never modified or kept, outputs are never touched again",
     "The library only reads its input objects, and only during the call: afterwards the caller may change, reuse or destroy them without effect on results, and several calls and threads may share them. An output object receives the result after what it already holds, which stays unchanged, and is never touched again by later calls or by the destruction of the processor.",
     ["histories", "schedules", "inputs"], "all histories in which inputs are reused, overwritten and freed and outputs are kept across later activity",
     TESTS + "; inputs and outputs stay alive and unchanged while it runs.",
     [V, P, G, R], [("coordinates are copied while reading", V), ("results are copied into the output", V), ("path objects own their data", G)],
     ["write-protected input blocks", "content of all outputs after every later operation"])
prop("C10", "A path text yields exactly its complete leading elements",
     "make_path returns the elements of the longest well-formed beginning of the text, in order, one path per move; an element cut off by the end of the text or by corruption, and everything after it, contributes nothing, and drawing elements before the first move are ignored. It never reads past the end of the text, for no text and under no interleaving with other parses.",
     ["inputs", "fault_sequences", "schedules"], "all texts torn or corrupted at any byte, with concurrent parses and failing allocations",
     TESTS + "; its texts are complete and correct.",
     [R, G], [("grammar of elements with semantic actions run only on complete elements", R)],
     ["content of the returned paths"])
prop("C11", "Every call ends, and a stalled caller blocks nobody else",
     "Every call completes within a number of steps bounded by the size of its input, whatever the input, faults and earlier history. While one thread is stuck inside a callback, calls of all other threads on their own objects still complete.",
     ["schedules", "fault_sequences", "inputs"], "all schedules in which a thread is parked in a callback for as long as others run, all histories with faults",
     TESTS + "; an endless loop or a lock held during a callback appears only for inputs and schedules it does not try.",
     [V, S, M, P, R], [("scan lines are consumed in ascending order", V), ("numeric iteration is capped", M), ("no lock is held across callbacks", "all")],
     ["steps per operation", "completion of the other tasks"])
prop("C12", "Every result of a session is the boolean of what was added",
     "For contours in general position, and for straight-edged contours also when they share vertices, overlap, repeat, run over themselves or collapse (coordinates that are meant to be equal being equal), the result of every process call in a session covers exactly the region that the operation and fill rule define on the winding numbers of the contours added so far; its contours only run along the border of that region, once, and wind around it in one direction (positive, or negative under the negative fill rule). This holds throughout the session: after further adds, repeated calls, failed readers and sinks, and for lines and curves alike, at every scale of coordinates and also far from the origin (up to 10^5 times the size of the scene).",
     ["histories", "inputs", "fault_sequences"], "all sessions of adds, failures and process calls on general-position scenes of lines and cubic curves and on degenerate straight-edged scenes, all operations and fill rules",
     TESTS + "; it compares nothing with a model of the operation.",
     [V, VH, S, M, P, "src/src/segment.cpp"], [("sweep over scan beams with winding counts per edge", V), ("monotone splitting of curves", V), ("intersection by subdivision and line solvers", M)],
     ["region of each result at sample points, compared with winding numbers of the input"])
prop("C13", "The develop-mode viewer connection never changes results",
     "In develop mode every segment of an accepted contour and every segment of a result is sent to the viewer once, in order, in the colour of its role and in a form the viewer can decode. Whatever becomes of the transfers - no viewer, lost answers, cut connections, transfers that cannot even start - results and exceptions are those of the normal build, and no transfer resource is left behind.",
     ["fault_sequences", "inputs", "schedules"], "all sequences of transfer outcomes, with one or two threads using the library",
     TESTS + "; the develop configuration is built but not run, and never with a failing viewer.",
     [D, "src/src/util.cpp", V], [("drawing calls do not touch the sweep state", V), ("transfer result is ignored, handle and body are released", D)],
     ["transfers made", "results compared with the normal build"])
prop("C14", "A processor may be passed from thread to thread",
     "A processor is not tied to the thread that made it: with the caller ordering the calls, creating, filling, processing and destroying it on different threads gives exactly what a single thread gives, without data races.",
     ["schedules", "histories"], "all hand-over points between the calls of one or more processors moving among 2-4 threads, under all interleavings of the threads' other work",
     TESTS + "; nothing is ever handed to another thread.",
     [V, VH, P], [("no thread-local or per-thread state", "all"), ("all state is reached through the processor", P)],
     ["results of each call", "race detector"])
prop("C15", "The library may be used from inside its own callbacks",
     "A reader or sink callback may itself use the library - other processors, path objects, texts - to any depth, including failures inside: both the outer and the inner calls give exactly what they give when run one after the other.",
     ["histories", "inputs", "fault_sequences"], "all placements of complete inner histories, nested up to eight levels, at any callback of an outer call",
     TESTS + "; its callbacks only record elements.",
     [V, P, R], [("no global state during callbacks", V), ("callback state is passed through the user pointer", V)],
     ["results of outer and inner calls"])

prop("C16", "Results can be used as input again",
     "The output of a process call is valid input: fed into another processor - as path object, through a reader, or directly from inside the sink, on the same or another thread, alone or together with other contours - the next result covers the region the operation and fill rule define on the region of the previous result, and so on along any chain of operations. For straight-edged scenes and curves in general position.",
     ["histories", "inputs", "schedules"], "all chains of operations and fill rules in which results of earlier calls are inputs of later ones, for all forms of hand-over and all interleavings of the threads involved",
     TESTS + "; it never uses a result again.",
     [V, VH, M, P, G], [("results are closed contours of lines and curves", V), ("results touch themselves and each other only in vertices and edges with equal coordinates", V), ("curves of a result are pieces of curves of the input", M)],
     ["region of every result of a chain, compared with the boolean of the model regions"])

prop("C17", "A path object replays exactly what was drawn into it",
     "What is drawn into a path object with moveto, lineto and cubicto is replayed by traverse element by element, in order and with exactly the given coordinates; each callback gets as its start the end of the element before it (the origin for the first) and the caller's user pointer, and a callback that is not given is left out without effect on the others. An element that could not be added for lack of memory leaves no trace. Drawing may go on after a traversal, and the content moves along when the object is moved. A callback may throw - the exception reaches the caller, no further callback is made and the object can be replayed - or may itself replay this or other objects, and several threads may replay one object at once.",
     ["histories", "schedules", "fault_sequences", "inputs"], "all histories of drawing, moving and replaying, all failing allocations and throwing callbacks, all interleavings of threads that replay one object",
     TESTS + "; it fills path objects only as input of a boolean.",
     [G, "src/include/river.h"], [("element types and coordinates are kept in two arrays that grow together", G), ("traverse works on local state only", G)],
     ["every callback made by traverse, compared with a model of what was drawn"])

# properties that hold or matter but that simulation cannot decide
NA = [
    ("N01", "Curve and equation solvers are accurate to a stated tolerance",
     "The numeric helpers for lines, quadratics, cubics and curve intersections return every root or intersection within a stated tolerance of the exact one for all finite inputs.",
     "a pure function of its numeric input: no schedule, fault, time or history enters; deciding it needs numeric analysis, not simulation (the helpers do run, unmodified, inside every simulated session)", [M]),
    ("N02", "Booleans are exact for touching or overlapping curves and near-degeneracies",
     "Overlapping and tangent curves, and edges and vertices a rounding error apart, give a result within rounding of the exact region.",
     "a pure function of the input geometry: no schedule, fault or history enters; the present algorithm is not robust there (see the known findings of C04 and C11). Straight-edged degenerate input is part of C08 and C12", [V]),
    ("N03", "Processing is fast: near-linear time in the number of segments and crossings",
     "The time to process grows near-linearly with segments plus crossings.",
     "performance is outside what a simulator can measure; C11 bounds steps only coarsely", [V, S]),
]
out = open(os.path.join(HERE, "properties.jsonl"), "w")
for p in props:
    out.write(json.dumps(p) + "\n")
for id, title, st, reason, files in NA:
    out.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": ["inputs"], "text": "all finite inputs"},
                          "why_tests_cant": TESTS + ".", "anchors": {"files": files, "mechanism": []}}) + "\n")
out.close()

NOTE = {
    "C01": "2-6 tasks, switch possible at every memory access; happens-before race detector; solo runs as oracle",
    "C03": "allocation failures by index, burst and size inside every operation; winding model for what survives",
    "C12": "independent winding-number model at sample lines; scenes certified to be in general position, and degenerate straight-edged scenes on a lattice",
    "C16": "region of every stage from the winding-number model of the original contours; race detector for hand-overs between tasks",
    "C17": "model of the drawn elements; race detector for objects replayed by several tasks",
    "C13": "simulated viewer and libcurl; normal build as oracle",
}
man = {"version": 1, "setup_cmd": "python3 tools/simbuild.py .build/setup && rm -rf /verif/.build/setup",
       "checks": [], "not_applicable": [{"property": n[0], "reason": n[3]} for n in NA],
       "notes": "No hooks in /repo: seams are introduced in the compiled library (instrumented memory accesses, renamed symbols). Thorough tier: about 13 minutes of eight workers per property."}
for p in props:
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"],
                          "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories",
                          "level": "exploration",
                          "level_note": "Seeded sampling of simulated executions of the real library code; " + NOTE.get(p["id"], "reference runs and models as oracle") +
                          ". A clean run is evidence, not proof; assumes sequentially consistent execution of the instrumented build."})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
