#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
TECH = "deterministic simulation with fault injection: seeded search over client interleavings, declined merges, hash orders and crash points, against a reference model"
T = "Seeded sampling, not enumeration. Trusts the reference model in sim/src and rustc. Keyed hash order is simulated in the hooked builds (6 of 8 workers); the others run the shipped build."
N = {
"C01": "Every operation's result and the whole contents are compared with a plain list after every step of every simulated run. " + T,
"C02": "Every child summary reachable through the lookup interface, and the root summary, are recomputed from the elements after every step (difference-maintained and recomputed, order-sensitive summaries). " + T,
"C03": "Clients mirror handles from reports only; every item's handle and a sample of all removed handles are resolved after every step. " + T,
"C04": "Drains are abandoned, or their consumer panics, after 0..300 items; the remains are checked in full afterwards. " + T,
"C05": "A panic is injected at a chosen call of a chosen kind of user code inside the operation; contents, summaries, handles and accounting must be as before. " + T,
"C06": "Ordered map and set against BTreeMap, clients interleaved, comparisons crash at a chosen point. " + T,
"C07": "Rope against String, editors interleaved, rejected requests, both buffer sizes. Text is edited on character boundaries. " + T,
"C08": "Position/ordinal/weight lookups, cursor order, counting, neighbours, boundary moves, range and filtered reads of arbitrary cursors against the linear sequence. " + T,
"C09": "Up to three branches; after every step every branch that was not edited must be identical in contents, shape-derived summaries, handles. " + T,
"C10": "Each kind of update marks items uniquely per request; marks, values, removed items, reported handles and summaries are compared. " + T,
"C11": "node_len against nodes reached by walking, uniform depth, empty tree has one node, after every step. " + T,
"C14": "Simulated time is the number of calls into user code; every operation of every run is held to a logarithmic allowance about twice what the unchanged tree needs, and depth and node counts are bounded after every step, on trees of up to 10000 elements. Wall-clock time and work that calls no user code are not measured. " + T,
"C12": "Trees are rebuilt by collect, bulk insertion, push and prepend from exported or re-chunked elements, with under-reporting and crashing sources, and editing continues. " + T,
}
NA = [
("C13", "a pure function of one element and a range: no schedule, fault, time or history in it (its use inside update_leaf is exercised by C10)"),
("C15", "the crate forbids unsafe code and has no interior mutability, so shared readers race with nothing; there is no schedule to explore and the compiler decides Send/Sync"),
]
commits = subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^sim hook"],capture_output=True,text=True).stdout.split()
m = {"version":1,"setup_cmd":"./build.sh",
 "hooks":{"guard":"cfg gbtree_sim","enable":"RUSTFLAGS='--cfg gbtree_sim' (build.sh; a separate target directory)","source_commits":commits},
 "checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":TECH,"level":"exploration","level_note":n} for p,n in N.items()],
 "not_applicable":[{"property":p,"reason":r} for p,r in NA],
 "notes":"replay.sh FILE re-executes a replay file; determinism.sh checks that every run repeats exactly; see DESIGN.md"}
json.dump(m,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w"),indent=1)
