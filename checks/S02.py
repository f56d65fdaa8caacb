"""Undirected graph: derived views against dense definitions, over histories of edits and reads."""
import itertools

from mc import big, viewcheck as vc
from mc import hist
from checks import S01

PID = "S02"
LEVEL = "model_checking"
CHUNK = {"quick": 150, "thorough": 400}
BOUNDS = {
    "quick": "3 vertices: all edit sequences of length 2 over 34 edits with every view read after every edit; all (8 base histories x 20 views x 34 edits) read-edit-read triples; all ordered view pairs on 8 graphs; all 3-vertex graphs over weights {-,1,2,0.5} with all loop sets; all unweighted 4-vertex graphs with all loop sets; fixed histories on 11-300 vertices; all assignments of the weights 1e-8, 1e-3, 1, 1e5 to three edges",
    "thorough": "quick + all (8 bases x 20 views x 34 x 14 edits) read-edit-edit-read histories in both read positions; edit sequences of length 3 over 24 edits; all 5-vertex simple graphs",
}
ASSUME = ["positive weights; CPU device; comparison tolerance 1e-4 relative", "k-hop neighbours for k=1..3"]

INIT = ["Graph", 3, False]
BASES = [
    [], [["xloop"]], [["add", [0, 1], None, "mean"]], [["add", [[0, 1], [1, 2]], [2.0, 0.5], "mean"]],
    [["add", [[0, 1], [2, 1], [0, 2]], [1.0, 2.0, 3.0], "mean"], ["add", [1, 1], 2.0, "mean"]],
    [["add", [[0, 0], [2, 2]], [0.5, 2.0], "mean"], ["xloop"]],
    [["add", [[0, 1], [1, 2], [1, 1]], [1.0, 2.0, 4.0], "mean"], ["xloop"]],
    [["add", [[0, 1], [1, 2]], None, "mean"], ["save"]],
]
EDITS = S01.ALPHA
SMALL = [["add", [1, 0], 3.0, "mean"], ["add", [1, 2], 2.0, "sum"], ["add", [0, 0], 2.0, "sum"], ["remove", [1, 0]],
         ["remove", [[2, 1]]], ["remove", [1, 1]], ["xloop"], ["rmxloop"], ["rmloop"], ["clear"], ["clone"], ["save"], ["sd"],
         ["add", [0, 2], None, "max"]]


def sweep3(tier):
    pairs = [(0, 1), (0, 2), (1, 2)]
    for ws in itertools.product([None, 1.0, 2.0, 0.5], repeat=3):
        for lw in itertools.product([None, 1.0, 2.0], repeat=3):
            if tier == "quick" and sum(x is not None for x in lw) == 3 and lw[0] != 2.0:
                continue
            for extra in (False, True):
                es = [[list(p), w] for p, w in zip(pairs, ws) if w is not None] + [[[v, v], w] for v, w in enumerate(lw) if w is not None]
                yield [["Graph", 3, extra], [["add", [e for e, _ in es], [w for _, w in es], "mean"]] if es else [], "cold"]


def sweep_n(n, loops, extras=(False, True)):
    pairs = list(itertools.combinations(range(n), 2))
    for sel in itertools.product([0, 1], repeat=len(pairs)):
        es = [[p[1], p[0]] for p, s in zip(pairs, sel) if s]
        for lp in itertools.product([0, 1], repeat=n) if loops else [()]:
            for extra in extras:
                el = es + [[v, v] for v, s in enumerate(lp) if s]
                yield [["Graph", n, extra], [["add", el, None, "mean"]] if el else [], "coldrev"]


def cases(tier):
    for op in EDITS:
        yield [INIT, [op], "warm"]
    yield from vc.order(INIT, BASES)
    yield from vc.probe(INIT, BASES, EDITS)
    yield from vc.warm([INIT], EDITS, 2)
    yield from sweep3(tier)
    yield from sweep_n(4, True, (False, True) if tier == "thorough" else (False,))
    yield from vc.probe2(INIT, BASES[3:5], SMALL, SMALL[:8])
    if tier == "thorough":
        yield from sweep_n(5, False)
        yield from vc.probe2(INIT, BASES, SMALL, EDITS)
        yield from vc.warm([["Graph", 3, True]], EDITS, 2)
        yield from vc.warm([INIT], S01.ADD[:12] + S01.REM[:6] + S01.MISC, 3)
        for h, op in hist.bfs(INIT, EDITS, 4, 4000):
            if len(h) >= 2:
                yield [INIT, h + [op], "warm"]
    yield from big.histories("Graph", tier)
    yield from big.magnitudes("Graph")
    yield from big.probes("Graph", tier)


run, shrink = vc.run, vc.shrink
