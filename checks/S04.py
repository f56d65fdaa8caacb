"""Bipartite graph: store and every view over histories of edits, side switches and reads."""
import itertools

from mc import big, hist
from mc import viewcheck as vc

PID = "S04"
LEVEL = "model_checking"
CHUNK = {"quick": 200, "thorough": 400}
BOUNDS = {
    "quick": "sides 3x2, 2x3, 2x2: all sequences of length 2 over 27 edits (all views after every edit), of length 3 over 16 edits; all (6 bases x every view x 27 edits) read-edit-read triples; all ordered view pairs; BFS over model states to depth 4; all weighted 3x2 bipartite graphs over {-,1,2,0.5} switched and unswitched; fixed histories on 11-300 vertices per side; every edit, every construction and every pair of edits with edge lists given as lists or tuples of lists or tuples; all assignments of the weights 1e-8, 1e-3, 1, 1e5 to three edges",
    "thorough": "quick + read-edit-read-edit histories, length-3 warm sequences, length-4 sequences over 13 edits, BFS to depth 6, sides 1x3, 3x1",
}
ASSUME = ["positive weights; CPU device; comparison tolerance 1e-4 relative"]
INIT = ["BiGraph", 3, 2]
ADD = [
    ["add", [0, 1], None, "mean"], ["add", [1, 0], 3.0, "mean"], ["add", [0, 1], 2.0, "max"], ["add", [0, 1], 0.5, "sum"],
    ["add", [[0, 0], [1, 1]], [2.0, 0.5], "mean"], ["add", [[0, 0], [0, 0], [1, 0]], [1.0, 4.0, 3.0], "max"],
    ["add", [0, 0], 2.0, "sum"], ["add", [[1, 1], [1, 1], [1, 1]], [1.0, 3.0, 4.0], "mean"], ["add", [], None, "mean"],
    ["add", [[0, 1], [1, 0], [0, 1]], [1.0, 3.0, 4.0], "sum"],
]
REM = [["remove", [0, 1]], ["remove", [1, 0]], ["remove", [[0, 0]]], ["remove", [[1, 1], [0, 1]]], ["remove", []]]
MISC = [["switch"], ["clear"], ["clone"], ["save"], ["sd"]]
ASYM = [["add", [2, 1], 5.0, "mean"], ["add", [1, 2], 7.0, "mean"], ["remove", [2, 1]], ["remove", [[1, 2]]], ["add", [[0, 1], [2, 0]], None, "sum"]]
BAD = [["add", [3, 0], None, "mean"], ["add", [0, 3], None, "mean"], ["add", [0, 1], 1.0, "median"], ["add", [[0, 0], [2, 2]], None, "mean"]]
ALPHA = ADD + REM + MISC + ASYM + BAD
BASES = [
    [], [["add", [0, 1], 2.0, "mean"]], [["add", [[0, 1], [1, 0], [2, 1]], [2.0, 0.5, 4.0], "mean"]],
    [["add", [[0, 0], [1, 1], [0, 1]], None, "mean"]], [["add", [[0, 1], [1, 1]], [2.0, 3.0], "mean"], ["switch"]],
    [["add", [[0, 0], [1, 1]], [2.0, 3.0], "mean"], ["save"]],
]
SMALL = [["switch"], ["add", [1, 0], 3.0, "mean"], ["add", [0, 0], 2.0, "sum"], ["add", [1, 1], None, "max"], ["remove", [0, 1]],
         ["clear"], ["clone"], ["save"]]


def sweep(nu, nv, weights):
    es = [[u, v] for u in range(nu) for v in range(nv)]
    for ws in itertools.product(weights, repeat=len(es)):
        sel = [(e, w) for e, w in zip(es, ws) if w is not None]
        ops = [["add", [e for e, _ in sel], [w for _, w in sel], "mean"]] if sel else []
        yield [["BiGraph", nu, nv], ops, "cold"]
        yield [["BiGraph", nu, nv], ops + [["switch"]], "coldrev"]


def cases(tier):
    for op in ALPHA:
        yield [INIT, [op], "warm"]
    for op in ADD:
        for op2 in [None] + ALPHA:
            yield [INIT[:3] + [op[1:]] if False else ["BiGraph", 3, 2, op[1:]], [op2] if op2 else [], "warm"]
    yield from hist.forms([INIT], ALPHA, [op[1:] for op in ADD])
    yield from vc.order(INIT, BASES)
    yield from vc.probe(INIT, BASES, ALPHA)
    yield from vc.warm([INIT, ["BiGraph", 2, 3]], ALPHA, 2)
    yield from sweep(3, 2, [None, 1.0, 2.0] if tier == "quick" else [None, 1.0, 2.0, 0.5])
    yield from sweep(1, 3, [None, 1.0, 2.0])
    for ops in hist.trie(ADD[:7] + REM[:3] + MISC[:3] + ASYM[:3], 3):
        yield [INIT, list(ops), "cold"]
    yield from vc.probe2(INIT, BASES[2:5], SMALL, SMALL)
    depth, cap = (4, 400) if tier == "quick" else (6, 4000)
    for h, op in hist.bfs(INIT, ALPHA, depth, cap):
        if len(h) >= 2:
            yield [INIT, h + [op], "cold"]
    if tier == "thorough":
        yield from vc.probe2(INIT, BASES, SMALL, ALPHA)
        yield from vc.warm([["BiGraph", 2, 2], ["BiGraph", 1, 3], ["BiGraph", 3, 1]], ALPHA, 2)
        yield from vc.warm([INIT], ADD[:7] + REM[:4] + MISC + ASYM[:3], 3)
        for ops in hist.trie(SMALL + ASYM, 4):
            yield [INIT, list(ops), "cold"]
    yield from big.histories("BiGraph", tier)
    yield from big.magnitudes("BiGraph")
    for c in big.odd_weights("BiGraph", tier):
        yield c + ["store"]
    yield from big.probes("BiGraph", tier)


run, shrink = vc.run, vc.shrink
