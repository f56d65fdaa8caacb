"""Undirected graph store: every edit history (BFS over the reference model, each transition replayed on the real class)."""
from mc import big, hist

PID = "S01"
LEVEL = "model_checking"
CHUNK = 200
BOUNDS = {
    "quick": "edit alphabet of 32 ops on 3-4 vertices: all sequences of length<=3, plus BFS over model states to depth 4; constructor x every edit; 6-vertex sweep of single edges; fixed histories on 11-300 vertices; every edit, every construction and every pair of edits with edge lists given as lists or tuples of lists or tuples",
    "thorough": "same alphabet: all sequences of length<=4, plus BFS over model states to depth 6 (state cap 9000 per initial state)",
}
ASSUME = ["weights from a small dyadic set; vertex counts 1..6; merge rules mean/max/sum",
          "the state merged by BFS is the complete reference state (edges, loops, extra-self-loop flag)"]

ADD = [
    ["add", [0, 1], None, "mean"], ["add", [1, 0], 3.0, "mean"], ["add", [1, 0], 0.5, "sum"], ["add", [0, 1], 2.0, "max"],
    ["add", [1, 2], 2.0, "mean"], ["add", [[2, 1]], None, "sum"], ["add", [[2, 0], [0, 2]], [1.0, 4.0], "max"],
    ["add", [2, 0], None, "sum"], ["add", [0, 0], 2.0, "sum"], ["add", [[1, 1], [1, 1]], [1.0, 3.0], "mean"],
    ["add", [[0, 1], [1, 0], [2, 2], [0, 1]], [1.0, 3.0, 0.5, 4.0], "sum"],
    ["add", [[0, 1], [1, 0], [0, 1]], [1.0, 3.0, 4.0], "mean"],
    ["add", [[2, 1], [0, 0], [1, 0]], None, "max"], ["add", [], None, "mean"], ["add", [[0, 2]], [5.0], "mean"],
    ["add", [[1, 2], [2, 0]], [0.5, 0.25], "mean"],
]
REM = [
    ["remove", [1, 0]], ["remove", [0, 1]], ["remove", [[2, 1]]], ["remove", [0, 0]], ["remove", [[1, 1]]],
    ["remove", [[0, 1], [2, 2], [0, 2]]], ["remove", [[2, 0], [2, 0], [1, 2]]], ["remove", []],
]
MISC = [["xloop"], ["rmxloop"], ["rmloop"], ["clear"], ["clone"], ["save"]]
BAD = [["add", [0, 3], None, "mean"], ["add", [[0, 1], [3, 1]], None, "mean"], ["add", [0, 1], 1.0, "median"], ["remove", [[0, 3]]]]
ALPHA = ADD + REM + MISC + BAD


def cases(tier):
    inits = [["Graph", 3, False], ["Graph", 3, True]]
    for init in inits:
        for op in ALPHA:
            yield [init, [op], "warm"]
    for op in ADD:  # construction with edges, followed by every edit
        for extra in (False, True):
            for op2 in [None] + ALPHA:
                yield [["Graph", 3, extra, op[1:]], [op2] if op2 else [], "warm"]
    yield from hist.forms(inits[:1], ALPHA, [op[1:] for op in ADD])
    for init in inits[:1] if tier == "quick" else inits:
        for ops in hist.trie(ALPHA, 2):
            yield [init, list(ops), "warm"]
    for init in (["Graph", 1, False], ["Graph", 1, True], ["Graph", 2, True]):
        for ops in hist.trie([["add", [0, 0], 2.0, "mean"], ["remove", [0, 0]], ["xloop"], ["rmloop"], ["rmxloop"], ["clear"], ["add", [0, 1], None, "mean"], ["save"]], 3):
            yield [init, list(ops), "warm"]
    # every single edge and pair of single edges on 6 vertices (index arithmetic on larger vertex sets)
    E6 = [[a, b] for a in range(6) for b in range(6)]
    for e in E6:
        for f in E6:
            yield [["Graph", 6, False], [["add", e, 2.0, "mean"], ["add", f, 4.0, "mean"], ["remove", [e[1], e[0]]]], "warm"]
    for ops in hist.trie(ALPHA, 3):
        if sum(o[0] == "add" for o in ops) >= (2 if tier == "quick" else 0):
            yield [inits[0], list(ops), "cold"]
    depth, cap = (4, 700) if tier == "quick" else (6, 9000)
    for init in inits:
        for h, op in hist.bfs(init, ALPHA, depth, cap):
            if len(h) >= 2:
                yield [init, h + [op], "warm"]
    if tier == "thorough":
        for ops in hist.trie(ADD[:12] + REM[:6] + MISC[:4], 4):
            yield [inits[0], list(ops), "cold"]
    yield from big.histories("Graph", tier)
    yield from big.odd_weights("Graph", tier)


def run(case, ctx):
    init, ops, mode = case
    hist.run_history(init, ops, mode, ctx, store_only=True)


def shrink(case):
    yield from hist.shrink_history(case, 1)
