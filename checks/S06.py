"""Hypergraph: whole and per-group derived views over histories of edits and reads."""
import itertools

from mc import big, hist
from mc import viewcheck as vc
from checks import S05

PID = "S06"
LEVEL = "model_checking"
CHUNK = {"quick": 100, "thorough": 300}
BOUNDS = {
    "quick": "4 vertices, 3 groups: all (7 bases x every whole/per-group view x 33 edits) read-edit-read triples; ordered view pairs on 4 hypergraphs; all sequences of length 2 over 20 edits with every view read after every edit; every hypergraph of up to 3 hyperedges on 3 vertices split over two groups in every way; fixed histories on 11-300 vertices; all assignments of the weights 1e-8, 1e-3, 1, 1e5 to three hyperedges",
    "thorough": "quick + read-edit-read-edit histories, all length-2 sequences over 37 edits, ordered pairs on all bases, every set of up to 3 hyperedges on 4 vertices",
}
ASSUME = ["positive weights; non-empty hyperedges; CPU device; comparison tolerance 1e-4 relative",
          "columns of matrix views are compared in the order of the object's own edge list"]
INIT = ["Hypergraph", 4, None]
INITW = ["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]]
BASES = [
    (INIT, []),
    (INIT, [["add", [[0, 1], [1, 2, 3]], [2.0, 0.5], "mean", "main"]]),
    (INITW, [["add", [[0, 1], [1, 2, 3]], [2.0, 0.5], "mean", "main"], ["add", [[0, 1], [2]], [1.0, 4.0], "mean", "a"]]),
    (INIT, [["add", [[0, 1, 2]], [5.0], "mean", "a"], ["add", [[0, 1]], None, "mean", "main"], ["add", [[2, 3], [1, 2]], [2.0, 3.0], "mean", "b"]]),
    (INITW, [["add", [[3]], [2.0], "mean", "main"], ["remove", [[3]], None], ["add", [[0, 1]], [0.5], "mean", "a"]]),
    (INIT, [["add", [[0, 1], [1, 2, 3]], [2.0, 0.5], "mean", "main"], ["add", [[0, 1]], [3.0], "mean", "a"], ["rmgroup", "main"]]),
    (INITW, [["add", [[0, 1], [0, 1, 2, 3]], [2.0, 0.5], "mean", "main"], ["save"]]),
]
EDITS = [S05.ADD[i] for i in (1, 2, 3, 4, 6, 7, 8, 10, 12, 14, 15)] + S05.REM + S05.MISC
SMALL = [S05.ADD[1], S05.ADD[2], S05.ADD[8], S05.REM[0], S05.REM[1], S05.REM[4], S05.REM[9], S05.REM[10], ["clear"], ["clone"], ["save"]]


def sweep(n, maxe):
    sets = [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    W = [2.0, 0.5, 3.0, 1.0]
    for k in range(1, maxe + 1):
        for es in itertools.combinations(sets, k):
            for gr in itertools.product(("main", "a"), repeat=k):
                if gr[0] == "a":
                    continue
                ops = [["add", [list(reversed(e))], [W[i]], "mean", g] for i, (e, g) in enumerate(zip(es, gr))]
                yield [["Hypergraph", n, [1.0, 2.0, 0.5, 3.0][:n]], ops, "cold"]


def cases(tier):
    for init, base in BASES:
        yield [init, base, "warm"]
        for op in EDITS:
            yield [init, base + [op], "warm"]
    for i, (init, base) in enumerate(BASES):
        if i in (2, 3) or tier == "thorough":
            yield from vc.order(init, [base])
    for init, base in BASES:
        yield from vc.probe(init, [base], EDITS)
    yield from sweep(3, 3)
    yield from vc.warm([INIT], SMALL + [S05.ADD[0], S05.ADD[3], S05.ADD[7], S05.REM[3]], 2)
    if tier == "thorough":
        yield from vc.warm([INIT, INITW], EDITS, 2)
        yield from sweep(4, 3)
        for init, base in BASES:
            yield from vc.probe2(init, [base], SMALL, SMALL)
    yield from big.histories("Hypergraph", tier)
    yield from big.magnitudes("Hypergraph")
    yield from big.probes("Hypergraph", tier)


run, shrink = vc.run, vc.shrink
