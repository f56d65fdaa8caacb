"""Directed graph: store and every view over histories of edits, reversals and reads."""
import itertools

from mc import big, hist
from mc import viewcheck as vc

PID = "S03"
LEVEL = "model_checking"
CHUNK = {"quick": 200, "thorough": 400}
BOUNDS = {
    "quick": "3 vertices: all sequences of length 2 over 34 edits (all views after every edit) and of length 3 over 22 edits (all views at the end); all (8 bases x every view x 34 edits) read-edit-read triples; all ordered view pairs on 8 digraphs; BFS over model states to depth 4; all 3-vertex digraphs over weights {-,1,2} with loops; fixed histories on 11-300 vertices; every edit, every construction and every pair of edits with edge lists given as lists or tuples of lists or tuples; all assignments of the weights 1e-8, 1e-3, 1, 1e5 to three edges",
    "thorough": "quick + read-edit-read-edit histories over all bases, length-3 warm sequences, length-4 sequences over 14 edits, BFS to depth 6",
}
ASSUME = ["positive weights; CPU device; comparison tolerance 1e-4 relative"]
INIT = ["DiGraph", 3, False]
ADD = [
    ["add", [0, 1], None, "mean"], ["add", [1, 0], 3.0, "mean"], ["add", [0, 1], 2.0, "max"], ["add", [0, 1], 0.5, "sum"],
    ["add", [[1, 2], [2, 1]], [2.0, 0.5], "mean"], ["add", [[2, 0], [0, 2], [2, 0]], [1.0, 4.0, 3.0], "max"],
    ["add", [0, 0], 2.0, "sum"], ["add", [[1, 1], [1, 1]], [1.0, 3.0], "mean"],
    ["add", [[0, 1], [1, 0], [2, 2], [0, 1]], [1.0, 3.0, 0.5, 4.0], "sum"], ["add", [], None, "mean"],
    ["add", [[0, 1], [0, 1], [0, 1]], [1.0, 3.0, 4.0], "mean"], ["add", [[2, 1], [1, 0]], None, "sum"],
]
REM = [["remove", [0, 1]], ["remove", [1, 0]], ["remove", [[1, 2]]], ["remove", [[2, 0], [0, 2]]], ["remove", [0, 0]],
       ["remove", [[1, 1], [2, 2], [0, 1]]], ["remove", []]]
MISC = [["rev"], ["xloop"], ["rmxloop"], ["rmloop"], ["clear"], ["clone"], ["save"], ["sd"]]
BAD = [["add", [0, 3], None, "mean"], ["add", [[0, 1], [3, 1]], None, "mean"], ["add", [0, 1], 1.0, "median"], ["remove", [[3, 0]]]]
ALPHA = ADD + REM + MISC + BAD
BASES = [
    [], [["xloop"]], [["add", [0, 1], 2.0, "mean"]], [["add", [[0, 1], [1, 2]], [2.0, 0.5], "mean"]],
    [["add", [[0, 1], [1, 0], [2, 1]], [1.0, 3.0, 2.0], "mean"], ["add", [1, 1], 2.0, "mean"]],
    [["add", [[0, 2], [1, 2]], None, "mean"], ["rev"]],
    [["add", [[0, 1], [0, 2], [2, 2]], [1.0, 2.0, 4.0], "mean"], ["xloop"]],
    [["add", [[0, 1], [1, 2]], [0.5, 2.0], "mean"], ["save"]],
]
SMALL = [["rev"], ["add", [1, 0], 3.0, "mean"], ["add", [1, 2], 2.0, "sum"], ["add", [0, 0], 2.0, "sum"], ["remove", [0, 1]], ["xloop"], ["rmloop"],
         ["clear"], ["clone"], ["save"]]


def sweep(weights, loops):
    arcs = [(a, b) for a in range(3) for b in range(3) if a != b]
    for ws in itertools.product(weights, repeat=6):
        for lp in loops:
            es = [[list(e), w] for e, w in zip(arcs, ws) if w is not None] + [[[v, v], 2.0] for v in lp]
            for extra in (False, True):
                yield [["DiGraph", 3, extra], [["add", [e for e, _ in es], [w for _, w in es], "mean"], ["rev"]] if es else [["rev"]], "cold"]


def cases(tier):
    for op in ALPHA:
        yield [INIT, [op], "warm"]
    for op in ADD:
        for extra in (False, True):
            for op2 in [None] + ALPHA:
                yield [["DiGraph", 3, extra, op[1:]], [op2] if op2 else [], "warm"]
    yield from hist.forms([INIT], ALPHA, [op[1:] for op in ADD])
    for n in (1, 2):
        for ops in hist.trie([["add", [0, 0], 2.0, "mean"], ["remove", [0, 0]], ["xloop"], ["rmloop"], ["rmxloop"], ["rev"], ["clear"]], 3):
            yield [["DiGraph", n, False], list(ops), "warm"]
    yield from vc.order(INIT, BASES)
    yield from vc.probe(INIT, BASES, ALPHA)
    yield from vc.warm([INIT], ALPHA, 2)
    yield from sweep([None, 1.0, 2.0], [(), (1,)] if tier == "quick" else [(), (1,), (0, 2)])
    for ops in hist.trie(ADD[:9] + REM[:6] + MISC[:7], 3):
        yield [INIT, list(ops), "cold"]
    yield from vc.probe2(INIT, BASES[3:6], SMALL, SMALL)
    E5 = [[a, b] for a in range(5) for b in range(5)]
    for e in E5:
        for f in E5:
            yield [["DiGraph", 5, False], [["add", e, 2.0, "mean"], ["add", f, 4.0, "sum"], ["remove", [e[1], e[0]]]], "cold"]
    depth, cap = (4, 500) if tier == "quick" else (6, 5000)
    for h, op in hist.bfs(INIT, ALPHA, depth, cap):
        if len(h) >= 2:
            yield [INIT, h + [op], "cold"]
    if tier == "thorough":
        yield from vc.probe2(INIT, BASES, SMALL, ALPHA)
        yield from vc.warm([["DiGraph", 3, True]], ALPHA, 2)
        yield from vc.warm([INIT], ADD[:9] + REM[:6] + MISC[:7], 3)
        for ops in hist.trie(SMALL + ADD[4:8], 4):
            yield [INIT, list(ops), "cold"]
    yield from big.histories("DiGraph", tier)
    yield from big.magnitudes("DiGraph")
    for c in big.odd_weights("DiGraph", tier):
        yield c + ["store"]
    yield from big.probes("DiGraph", tier)


run, shrink = vc.run, vc.shrink
