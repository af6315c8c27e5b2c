"""Writes MANIFEST.json from the table below (run by hand, output committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
CLAIMED = {
 "C01": ("seeded interleaving of mutators, suspended populate/reference loops, killed loops, raising callbacks and restarts over live trees; raw-tree invariants after every step, atomicity of order rejections",
         "Seeded search, not proof: histories up to 36 steps over depth 1-3 trees. Trusts the raw attribute reads Fiber.coords/payloads and Payload.value."),
 "C02": ("seeded histories of constructors, transforms, mutators, suspended and killed loops and restarts; after every step each rank's fiber list is compared by identity with a raw walk of the tree",
         "Seeded search, not proof: histories up to 36 steps over depth 1-3 tensors; library exceptions on unusual inputs are tolerated as rejected operations."),
 "C03": ("clients hold references, cursors and saved positions across steps of a shared tree while mutators, killed loops and restarts intervene; every answer is compared with a dictionary model",
         "Seeded search, not proof: histories up to 40 steps over depth 1-3 trees; only legal search starts are used."),
 "C04": ("lazy co-iterations as suspended tasks: several open at once over shared operands, nested, killed, re-iterated, with writes through delivered payloads and into delivered defaults and readers moving saved search positions; truth tables by set algebra over a dictionary model",
         "Seeded search, not proof: two to four operands of depth 1-3, at most five suspended iterations. One known finding (difference with an uncompressed left operand)."),
 "C05": ("populate nests as client programs: the loop body is an actor the scheduler drives step by step, interleaved with other nests over shared sources, killed and re-run; reference semantics from a dictionary model",
         "Seeded search, not proof: up to three concurrent nests, depth 1-3; two nests never populate one destination fiber at once."),
 "C07": ("every traversal mode as a suspended task over shared trees, interleaved, killed, re-iterated and fed search positions left behind by other tasks; expected slice from a raw read of the tree, and after every step the tree may differ only by what the mode inserts",
         "Seeded search, not proof: trees of depth 1-3, at most five suspended traversals, integer coordinates."),
 "C12": ("replicas of one logical map fed the same log over a reordering, duplicating network, each applying it in its own physical way with crashes to checkpoints, restarts and physical noise; they must compare equal exactly when the updates received so far agree",
         "Seeded search, not proof: two to three replicas, depth 0-3, logs of up to 8 writes, numeric values."),
 "C10": ("a pool of tensors and fibers over which the scheduler interleaves value-returning operations (results join the pool), mutations of any member, read-only operations, suspended read-only iterations, raising callbacks and failing disks; after every step all members not mutated are structurally and by identity what they were and no two members share a mutable object",
         "Seeded search, not proof: pools of at most six trees of depth 0-4, histories up to 24 steps; operations that reject their arguments are tolerated."),
 "C06": ("kernel programs for one expression, each with its own loop order, tiling and intersection style, as suspended tasks over shared operands: interleaved loop body by loop body, killed and started again into a fresh output, with readers moving search positions on the operands in between; every finished program is compared with a dense evaluation",
         "Seeded search, not proof: one to three operands per term, one or two terms, up to three index variables of extent at most six, one or two tiling levels per variable."),
 "C18": ("analysts hold Format objects over live tensors and ask for footprints between the steps of mutators, suspended and killed loops, transforms and restarts; every answer is recomputed from a raw walk of the tree, and asking must not change the tree or its rank lists",
         "Seeded search, not proof: histories up to 36 steps over depth 1-4 tensors. Estimated shapes of undeclared ranks are taken from the library's own getShape; declared ones from the declaration."),
 "C13": ("objects go through nests, YAML on a fault-injecting simulated disk, dictionaries and seeded random construction while the scheduler interleaves writes, transforms, other users of the global PRNG, refused, full and torn files, crashes and kills; what survives must read back equal",
         "Seeded search, not proof: nests of depth 1-4 with extents up to six, tensors obtained by the library's transforms including tuple coordinates. One known finding (shape of an all-default nest built as a fiber)."),
 "C15": ("one client runs loop nests step by step under collection sessions on a simulated disk: prefixes are reused, any subset of traces goes to files, memory or both, kernels are suspended, closed, dropped, left behind or killed by an exception, sessions are abandoned, run into disk errors or die with the process; results, operation and iteration counts are compared with an executable model, and every session is repeated as the first thing a new process does and without collection",
         "Seeded search, not proof: nests of depth 1-3 over one to three operands and one output, extents up to seven, integer coordinates."),
 "C16": ("the same simulated client and sessions; the rows of every trace are compared with those of an executable model of the nest, on disk and in memory, at the end and at every suspension, under any flush threshold, after foreign, broken and crashed sessions with the same prefix",
         "Seeded search, not proof: nests of depth 1-3 over one to three operands and one output, extents up to seven, integer coordinates. Destination-side rows of an inserting populate are checked for order and completeness only, as the statement says."),
 "C17": ("an analyst on a simulated disk full of traces, real ones left by kernels run under metrics sessions and synthetic ones over a shared iteration space, filters, combines and feeds them to the buffet and cache models again and again, with disk errors and crashes in the middle of calls that leave temporary files behind; every answer is recomputed from the rows: per (line, window) pair, by a furthest-next-use simulation, and by exhaustive search over replacement decisions where small",
         "Seeded search, not proof: one to three bindings over one to three loop ranks, up to a few hundred accesses; the exhaustive search covers at most five lines and forty accesses. One known finding (ties between the read and the write of one point in the cache model). In the cache model lines that straddle the shape are bounded only."),
 "C19": ("a kernel of consecutive intersections runs as a task while the analyst consumes its traces at any moment and feeds them to several model objects, each with its own batching chosen by the scheduler; kernels are killed, sessions abandoned, disks fail and processes die in between; swap counts of a live tensor are asked between in-place value changes, also while a kernel is suspended; totals come from merges of the raw coordinate lists",
         "Seeded search, not proof: up to six fibers per kernel with coordinates up to twelve, depth 1-3; swap trees of depth 2-3. Models are fed at fiber boundaries only."),
}
NA = {
 "C08": "splitting is a pure function of one fiber and its arguments: no schedule, clock, I/O, randomness, callback order or retained state can change the result, so there is nothing for a simulator to decide; generating inputs for it would be plain property-based testing, a different technique",
 "C09": "rank transforms are pure functions of one tensor and a parameter choice; no interleaving, fault or history enters the statement, so simulation adds nothing over input generation",
 "C11": "operator results on boxes and fibers are pure functions of the operand values; there is no schedule, fault or history in the statement for a simulator to vary",
 "C14": "attribute carry-over is a pure function of the operand's attributes and the transform's parameters; no schedule, fault or history enters the statement",
 "C20": "encoding is a pure function of the tensor and the descriptor, and the handle scan is a single sequential reader over an immutable encoding: no interleaving, crash or I/O to inject",
}
PENDING = "machinery for this property is not built yet"
ALL = ["C%02d" % i for i in range(1, 21)]
checks, na = [], []
for p in ALL:
    if p in CLAIMED:
        tech, note = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH + tech,
                       "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, PENDING)})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo were needed: every seam (builtins.open/os.remove, the random module, generator suspension points, user callbacks, process-global Metrics state) already exists."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
