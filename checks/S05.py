"""Hypergraph: grouped hyperedge store over every edit history."""
import itertools

from mc import big, hist

PID = "S05"
LEVEL = "model_checking"
CHUNK = {"quick": 200, "thorough": 400}
BOUNDS = {
    "quick": "4 vertices, groups main/a/b: all sequences of length 2 over 46 edits (store observed after every edit), of length 3 over 24 edits, constructor x every edit, BFS over model states to depth 4; every hyperedge pair x merge rule on 4 vertices; fixed histories on 11-300 vertices; every edit, every construction and every pair of edits with edge lists given as lists or tuples of lists or tuples",
    "thorough": "quick + length-3 sequences over 46 edits, length-4 sequences over 14 edits, BFS to depth 6",
}
ASSUME = ["weights from a small dyadic set; non-empty hyperedges",
          "a group created by an addition survives losing its last hyperedge and disappears by remove_group/clear only"]
INIT = ["Hypergraph", 4, None]
ADD = [
    ["add", [0, 1], None, "mean", "main"], ["add", [[1, 0]], [3.0], "mean", "main"], ["add", [[0, 1]], [3.0], "mean", "a"],
    ["add", [[2, 1, 0]], None, "sum", "a"], ["add", [[0, 1, 2], [3]], [2.0, 0.5], "max", "main"], ["add", [[0, 1, 2]], [5.0], "max", "a"],
    ["add", [[1, 0], [0, 1]], [1.0, 4.0], "sum", "main"], ["add", [[2, 3], [3, 2], [2, 3]], [1.0, 3.0, 4.0], "mean", "b"],
    ["add", [[1, 2], [0, 3]], None, "mean", "b"], ["add", [[3, 1, 2, 0]], None, "mean", "main"], ["add", [3], 2.0, "sum", "main"],
    ["add", [[0], [1], [2]], [1.0, 2.0, 3.0], "sum", "main"], ["add", [0, 1], 2.0, "max", "a"], ["add", [[2, 1, 0]], [0.5], "mean", "b"],
    ["add", [[0, 1]], [0.25], "sum", "b"], ["add", [1, 0], None, "sum", "main"], ["add", [[3, 2]], [6.0], "max", "b"], ["add", [[3]], [4.0], "mean", "a"],
    ["add", [[1, 0, 1], [2, 2]], [7.0, 2.0], "sum", "main"], ["add", [3, 3], None, "mean", "main"],
]
REM = [
    ["remove", [1, 0], None], ["remove", [0, 1], "a"], ["remove", [[2, 1, 0]], None], ["remove", [[0, 1], [3]], "main"],
    ["remove", [[3, 2], [0, 1]], "b"], ["remove", [[0, 1], [0, 1, 2], [3]], None], ["remove", [[1, 3]], None], ["remove", [[0, 1, 0]], "main"],
    ["remove", [[0, 3], [2, 1]], "b"], ["rmgroup", "main"], ["rmgroup", "a"], ["rmgroup", "b"],
]
MISC = [["clear"], ["clone"], ["save"], ["sd"]]
BAD = [["remove", [0, 1], "nosuch"], ["add", [[0, 1], [2, 3]], [1.0], "mean", "main"], ["add", [[0, 1]], [1.0, 2.0], "mean", "a"]]
ALPHA = ADD + REM + MISC + BAD
SMALL = ADD[:9] + ADD[12:14] + REM[:7] + REM[9:11] + MISC[:3] + BAD[:1]


def cases(tier):
    for op in ALPHA:
        yield [INIT, [op], "warm"]
        yield [["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]], [op], "warm"]
    for op in ADD:
        if op[4] == "main":
            for op2 in [None] + ALPHA:
                yield [["Hypergraph", 4, None, op[1:4]], [op2] if op2 else [], "warm"]
                yield [["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0], op[1:4]], [op2] if op2 else [], "warm"]
    for ops in hist.trie(ALPHA, 2):
        yield [INIT, list(ops), "warm"]
    yield from hist.forms([INIT], ALPHA, [op[1:4] for op in ADD if op[4] == "main"])
    # every pair of hyperedges with different vertex orders, every merge rule, same or different group
    sets = [s for k in (1, 2, 3, 4) for s in itertools.combinations(range(4), k)]
    for s in sets:
        for t in sets:
            for merge in ("mean", "max", "sum"):
                for g in ("main", "a"):
                    yield [INIT, [["add", [list(s)], [2.0], "mean", "main"], ["add", [list(reversed(t))], [5.0], merge, g],
                                  ["remove", [list(reversed(s))], "main"]], "warm"]
    for ops in hist.trie(SMALL, 3):
        yield [INIT, list(ops), "cold"]
    depth, cap = (4, 700) if tier == "quick" else (6, 9000)
    for h, op in hist.bfs(INIT, ALPHA, depth, cap):
        if len(h) >= 2:
            yield [INIT, h + [op], "warm"]
    if tier == "thorough":
        for ops in hist.trie(ALPHA, 3):
            yield [INIT, list(ops), "cold"]
        for ops in hist.trie(ADD[:7] + ADD[12:14] + REM[:3] + REM[9:11] + MISC[:1], 4):
            yield [INIT, list(ops), "cold"]
    yield from big.histories("Hypergraph", tier)
    yield from big.odd_weights("Hypergraph", tier)


def run(case, ctx):
    hist.run_history(case[0], case[1], case[2], ctx, store_only=True)


def shrink(case):
    yield from hist.shrink_history(case, 1)
