"""Larger fixed instances: histories over 10-40 vertices with long edit lists, large hyperedges and many groups.

The small scopes decide the properties exhaustively; these fixed histories cross thresholds that small scopes cannot
(ids with several digits, more than a few hops, long lists, large hyperedges, many groups)."""
from . import hist, structs

W = [1.0, 2.0, 0.5, 4.0, 3.0, 0.25, 6.0, 1.5]
MG = ["mean", "sum", "max"]


class Lcg:
    """fixed pseudo-random pattern (not a random source: the same on every run)"""

    def __init__(self, s):
        self.x = (s * 2654435761 + 12345) % 2**32

    def __call__(self, n):
        self.x = (self.x * 1664525 + 1013904223) % 2**32
        return (self.x >> 8) % n


def pair_ops(kind, na, nb, s, length=14):
    r = Lcg(s * 7919 + na * 31 + nb)
    known, ops = [], []

    def edge():
        a, b = r(na), r(nb)
        if kind != "BiGraph" and a == b and r(3):
            b = (a + 1 + r(nb - 1)) % nb
        return [a, b]

    def flip(e):
        return [e[1], e[0]] if kind == "Graph" and r(2) else list(e)

    # a path through all vertices (long hop distances), bulk, no weights given
    ops.append(["add", [[i % na, (i + 1) % nb] for i in range(max(na, nb) - 1)], None, "mean"])
    known += ops[-1][1]
    for i in range(length):
        c = r(12)
        if c < 5:
            es = [flip(known[r(len(known))]) if known and r(3) == 0 else edge() for _ in range([1, 3, na, 2 * na][r(4)])]
            known += es
            if len(es) == 1 and r(2):
                ops.append(["add", es[0], W[r(8)], MG[r(3)]])
            else:
                ops.append(["add", es, [W[r(8)] for _ in es] if r(4) else None, MG[r(3)]])
        elif c < 8:
            es = [flip(known[r(len(known))]) if r(4) else edge() for _ in range([1, 2, 5, na // 2][r(4)])]
            ops.append(["remove", es[0] if len(es) == 1 and r(2) else es])
        elif c == 8:
            ops.append([["xloop"], ["rmxloop"], ["rmloop"]][r(3)] if kind != "BiGraph" else ["clone"])
        elif c == 9:
            ops.append({"Graph": ["clone"], "DiGraph": ["rev"], "BiGraph": ["switch"]}[kind])
            if kind == "BiGraph":
                na, nb = nb, na
                known = [[b, a] for a, b in known]
            elif kind == "DiGraph":
                known = [[b, a] for a, b in known]
        elif c == 10:
            ops.append([["save"], ["sd"], ["clone"]][r(3)])
        else:
            big = [na, 0] if r(2) else [0, nb]
            ops.append(["add", [edge(), big], None, "mean"] if r(2) else ["remove", [big]])
    return ops


def hyper_ops(n, s, length=14):
    r = Lcg(s * 104729 + n)
    known, ops = [], []
    groups = ["main", "a", "b", "group c", "d4", "e", "10", "9"]

    def edge():
        k = min(n, [1, 2, 3, 5, 7, 12, n][r(7)])
        e = []
        while len(e) < k:
            v = r(n)
            if v not in e:
                e.append(v)
        if r(5) == 0:
            e.append(e[0])
        return e

    def shuffle(e):
        j = r(len(e))
        e = e[j:] + e[:j]
        return e[::-1] if r(2) else e

    for i in range(length):
        c = r(11)
        if c < 6 or i < 3:
            es = [shuffle(known[r(len(known))]) if known and r(3) == 0 else edge() for _ in range([1, 3, 6, n][r(4)])]
            known += es
            w = [None, [W[r(8)] for _ in es], W[r(8)]][r(3)]
            if len(es) == 1 and r(2):
                es, w = es[0], (W[r(8)] if w is not None else None)
            ops.append(["add", es, w, MG[r(3)], groups[r(8)] if r(3) else "main"])
        elif c < 9:
            es = [shuffle(known[r(len(known))]) if r(4) else edge() for _ in range([1, 2, 5][r(3)])]
            ops.append(["remove", es[0] if len(es) == 1 and r(2) else es, [None, "main", groups[r(8)]][r(3)]])
        elif c == 9:
            ops.append([["save"], ["sd"], ["clone"]][r(3)])
        else:
            ops.append(["rmgroup", groups[1 + r(7)]])
    return ops


def inits(kind, n, s):
    if kind in ("Graph", "DiGraph"):
        return [kind, n, bool(s % 3 == 1)]
    if kind == "BiGraph":
        return [kind, n, n // 2 + 3]
    return [kind, n, [W[(i * 5 + s) % 8] for i in range(n)] if s % 2 else None]


def base(kind, n, s, length=6):
    init = inits(kind, n, s)
    ops = hyper_ops(n, s, length) if kind == "Hypergraph" else pair_ops(kind, init[1], init[2] if kind == "BiGraph" else n, s, length)
    return init, ops


def histories(kind, tier="quick"):
    """[init, ops, mode] cases"""
    for n in (11, 14, 24) + ((40,) if tier == "thorough" else ()):
        for s in range((10 if n < 20 else 3) * (4 if tier == "thorough" else 1)):
            init, ops = base(kind, n, s, 14)
            yield [init, ops, ("warm", "cold", "coldrev")[s % 3]]
    for n, s in ((72, 1), (140, 2), (300, 3)) + (((600, 4), (1100, 5)) if tier == "thorough" else ()):
        init, ops = base(kind, n, s, 5)
        yield [init, ops + [["clone"], ["save"]], ("cold", "coldrev")[s % 2]]


def probes(kind, tier="quick"):
    """base history, read one view, one edit, read all"""
    for n, s in ((11, 1), (14, 2)) + (((24, 3), (40, 5)) if tier == "thorough" else ()):
        init, ops = base(kind, n, s, 5)
        ops = [o for o in ops if o[0] not in ("switch",)]
        if kind == "Hypergraph":
            edits = [["add", [list(range(min(n, 9)))], [2.5], "sum", "main"], ["add", [[0, n - 1], [n - 1, 2, 5]], 3.0, "sum", "a"], ["remove", [ops[0][1] if isinstance(ops[0][1][0], int) else ops[0][1][0]], None], ["rmgroup", ops[0][4]], ["clear"]]
        else:
            edits = [["add", [[0, n // 2], [n // 2 + 1, 1]], [2.5, 0.5], "sum"], ["remove", [ops[0][1][0], ops[0][1][-1]]], ["clear"]]
            edits += {"Graph": [["xloop"], ["rmloop"]], "DiGraph": [["rev"], ["rmloop"]], "BiGraph": [["switch"]]}[kind]
        for name in hist.probes(init, ops):
            for e in edits:
                yield [init, ops + [["read", name], e], "cold"]


def models(kind, sizes=((11, 0), (14, 1), (14, 2), (24, 3))):
    """(init, ops) of larger structures, model-checked elsewhere; callers build them with structs.new/apply_real"""
    for n, s in sizes:
        yield base(kind, n, s, 6)


def build(init, ops):
    """(real object, model) after the edits (rejected ones skipped)"""
    obj, m = structs.new(init)
    for op in ops:
        m2 = m.copy()
        try:
            m2.apply(op)
        except structs.Reject:
            continue
        obj, m = structs.apply_real(obj, op), m2
    return obj, m


def accepted(init, ops):
    """the operations of a history that are not rejected, and the final model"""
    _, m = structs.new(init)
    out = []
    for op in ops:
        m2 = m.copy()
        try:
            m2.apply(op)
        except structs.Reject:
            continue
        m = m2
        out.append(op)
    return out, m


def edge_lists(kind, n, s):
    """(edges, groups) of a larger structure for callers that build from plain lists: distinct edges, no repeated ones"""
    r = Lcg(s * 31 + n)
    if kind == "Hypergraph":
        es = []
        for k in [2, 3, 5, n, 4, 2, 7, 3, 2, min(n, 9)]:
            e = []
            while len(e) < min(k, n):
                v = r(n)
                if v not in e:
                    e.append(v)
            if sorted(e) not in [sorted(x) for x in es]:
                es.append(e)
        return es, [["b", "a", "main", "c"][r(4)] for _ in es]
    es = [[i + 1, i] for i in range(n - 1) if i % 5 != 3]
    for _ in range(n):
        e = [r(n), r(n)]
        if e[0] != e[1] and e not in es and e[::-1] not in es:
            es.append(e)
    es += [[v, v] for v in range(s % 3)]
    return es, None


ODD = [0.0, 1e-8, 0.1, 1 / 3, 7, 1e6, 1e12, -2.0]


def odd_weights(kind, tier="quick"):
    """store-only histories that put every pair (triple) of unusual weights on the same edge under every merge rule,
    in one call or in two, with either orientation, on a loop or a plain edge, next to an untouched edge"""
    init = {"Graph": ["Graph", 4, False], "DiGraph": ["DiGraph", 4, True], "BiGraph": ["BiGraph", 4, 3], "Hypergraph": ["Hypergraph", 4, None]}[kind]
    hyper = kind == "Hypergraph"
    pairs = {"Graph": [([0, 1], [1, 0]), ([2, 2], [2, 2])], "DiGraph": [([1, 0], [1, 0]), ([2, 2], [2, 2])], "BiGraph": [([3, 1], [3, 1])],
             "Hypergraph": [([0, 2], [2, 0]), ([3], [3]), ([1, 0, 3], [3, 1, 0])]}[kind]
    g = ["main"] if hyper else []
    other = [["add", [[0, 1, 2]] if hyper else [[0, 2]], [1e-3], "mean"] + (["b"] if hyper else [])]
    for e, f in pairs:
        for a in ODD:
            for b in ODD:
                for rule in MG:
                    yield [init, other + [["add", e, a, "mean"] + g, ["add", f, b, rule] + g], "cold"]
                    yield [init, other + [["add", [e, f], [a, b], rule] + g, ["save"]], "cold"]
                    for c in ODD if tier == "thorough" else (0.0, 0.3, 1e6):
                        yield [init, [["add", [e, f, e], [a, b, c], rule] + g], "cold"]
                        yield [init, [["add", [e], [a], rule] + g, ["add", [f], [b], rule] + g, ["sd"], ["add", [e], [c], "sum"] + g], "cold"]


def odd_states(kind):
    """(init, ops): one structure per pair of unusual weights (for persistence and copies)"""
    init = {"Graph": ["Graph", 4, False], "DiGraph": ["DiGraph", 4, True], "BiGraph": ["BiGraph", 4, 3], "Hypergraph": ["Hypergraph", 4, [1e-8, 1e6, 1 / 3, 7.0]]}[kind]
    hyper = kind == "Hypergraph"
    for a in ODD + [1.23456789, 123456.789]:
        for b in ODD:
            if hyper:
                yield init, [["add", [[0, 1], [2, 3, 0]], [a, b], "mean", "main"], ["add", [[1, 0]], [b], "mean", "g"]]
            else:
                yield init, [["add", [[0, 1], [1, 2], [2, 2]], [a, b, a], "mean"]]


MAGNITUDES = [1e-8, 1e-3, 1.0, 1e5]


def magnitudes(kind):
    """every assignment of four orders of magnitude to three edges, with every view read"""
    import itertools
    for ws in itertools.product(MAGNITUDES, repeat=3):
        if kind == "Hypergraph":
            for vw in (None, [ws[2], 1.0, ws[0], 1e3]):
                yield [[kind, 4, vw], [["add", [[0, 1], [1, 2, 3]], list(ws[:2]), "mean", "main"], ["add", [[0, 3]], [ws[2]], "mean", "b"]], "cold"]
        elif kind == "BiGraph":
            yield [[kind, 3, 3], [["add", [[0, 1], [1, 1], [2, 0]], list(ws), "mean"]], "cold"]
        else:
            for extra in (False, True):
                yield [[kind, 4, extra], [["add", [[0, 1], [2, 1], [2, 3]], list(ws), "mean"]], "cold"]
            if len(set(ws)) == 1:
                yield [[kind, 4, False], [["add", [[0, 1], [2, 1], [2, 2], [0, 0]], list(ws) + [2 * ws[0]], "mean"]], "coldrev"]
