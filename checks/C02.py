"""Graph/bipartite -> hypergraph, hypergraph -> bipartite and adjacency-list construction over all small sources."""
import copy
import itertools

import numpy as np

from mc import big, hist, structs

PID = "C02"
LEVEL = "model_checking"
CHUNK = {"quick": 60, "thorough": 80}
BOUNDS = {
    "quick": "all graphs on 4 vertices (64) and all graphs with loops on 3 vertices (64), with weights and with implicit loops: from_graph, k-hop for k=1..4 both ways; all bipartite graphs of 2x3 and 3x2 with weights from both sides; all sets of <=3 hyperedges on 4 vertices in 2 groups to bipartite graphs (both sides, weighted or not); every add-into-group variant into a hypergraph holding other hyperedges, group new or present; all adjacency lists of <=2 lines of length <=4 over 3 vertices for 3 classes; every conversion repeated after edits of the source; 36 fixed sources of 11-24 vertices, k-hop for k=1..7; fixed structures of 72 and 140 vertices",
    "thorough": "quick + all graphs on 5 vertices, all graphs with loops on 4 vertices, all 3x3 bipartite graphs, all sets of 4 hyperedges, adjacency lists of 3 lines",
}
ASSUME = ["k-th hop neighbours are the ends of walks of k edges, as in the graph's own hop view", "positive weights; a stored loop together with the implicit loop on the same vertex is left out (its merged weight is unspecified)"]
W = [2.0, 0.5, 3.0, 4.0, 1.0, 0.25, 5.0, 6.0, 7.0, 8.0]


def subsets(xs):
    return itertools.chain.from_iterable(itertools.combinations(xs, k) for k in range(len(xs) + 1))


def cases(tier):
    th = tier == "thorough"
    P = lambda n: list(itertools.combinations(range(n), 2))
    for es in subsets(P(4)):
        for extra in (False, True):
            yield ["graph", 4, [list(e) for e in es], extra]
    L = lambda n: [(a, b) for a in range(n) for b in range(a, n)]
    for es in subsets(L(4) if th else L(3)):
        yield ["graph", 4 if th else 3, [list(e) for e in es], False]
    for n, edges in ((1, []), (1, [[0, 0]]), (2, [[0, 1]]), (2, [])):
        yield ["graph", n, edges, False]
    if th:
        for es in subsets(P(5)):
            yield ["graph", 5, [list(e) for e in es], False]
    for nu, nv in [(2, 3), (3, 2), (1, 4)] + ([(3, 3), (4, 2)] if th else []):
        for es in subsets(list(itertools.product(range(nu), range(nv)))):
            yield ["bi", nu, nv, [list(e) for e in es]]
    sets = [list(s) for k in range(1, 5) for s in itertools.combinations(range(4), k)]
    for k in range(5 if th else 4):
        for es in itertools.combinations(sets, k):
            yield ["hyper", 4, [list(e) for e in es], ["a", "b", "a", "b"][:k]]
    lines = [list(x) for k in range(5) for x in itertools.product(range(3), repeat=k) if k < 4 or x[0] != 1]
    for k in (0, 1, 2, 3) if th else (0, 1, 2):
        for ls in itertools.product(lines, repeat=k):
            if k < 2 or sum(map(len, ls)) <= 6:
                yield ["adj", [list(x) for x in ls]]
    for n in (11, 14, 24) + ((40,) if th else ()):
        for s in range(3 if not th else 12):
            for kind in ("Graph", "BiGraph", "Hypergraph", "adj"):
                yield ["big", kind, n, s]
    for n in (72, 140):
        for kind in ("Graph", "BiGraph", "Hypergraph", "adj"):
            yield ["big", kind, n, n % 5]


def hyper_of(n, es, ws):
    m = structs.HyperM(n)
    if es:
        m.apply(["add", [list(e) for e in es], list(ws), "mean", "main"])
    return m


def check_hyper(hg, m, ctx, where, full):
    ctx.check(type(hg).__name__ == "Hypergraph", "class", where)
    m = m.copy()
    if set(hg.group_names) - set(m.G):  # an empty group may or may not exist
        for g in hg.group_names:
            if g not in m.G and hg.num_e_of_group(g) == 0:
                m.G[g] = {}
    if len(m.G) == 1 and not list(m.G.values())[0] and not hg.group_names:
        m.G.clear()
    hist.observe(hg, m, ctx, where, store_only=not full)
    ctx.step()


BASE = [["add", [[0, 1]], [5.0], "mean", "main"], ["add", [[0], [0, 1]], [2.0, 4.0], "mean", "other"]]


def into(n, obj_fn, es, ws, ctx, where):
    """add-into-group variant on a hypergraph that already holds hyperedges"""
    for group in (None, "new", "other"):
        base = [op for op in BASE if n > 1]
        obj, m = structs.new(["Hypergraph", n, None])
        for op in base:
            obj = structs.apply_real(obj, op)
            m.apply(op)
        structs.snapshot(obj)  # warm caches
        obj_fn(obj, {} if group is None else dict(group_name=group))
        if es:
            m.apply(["add", [list(e) for e in es], list(ws), "mean", group or "main"])
        check_hyper(obj, m, ctx, f"{where} into group {group} of {base}", full=group == "other")
        ctx.count("into-group")


def graph_case(g, m, ctx, where, rich):
    import dhg

    n = m.n
    el = [e for e, _ in m.edges()]
    wl = [w for _, w in m.edges()]
    check_hyper(dhg.Hypergraph.from_graph(g), hyper_of(n, el, wl), ctx, f"{where}: from_graph", full=rich)
    into(n, lambda h, kw: h.add_hyperedges_from_graph(g, **kw), el, wl, ctx, f"{where}: add_hyperedges_from_graph") if rich else None
    A = (m.A() > 0).astype(int)
    for k in range(1, 5 if n < 8 else 8):
        P, S = np.eye(n, dtype=int), np.zeros((n, n), dtype=int)
        for _ in range(k):
            P = ((P @ A) > 0).astype(int)
            S |= P
        for only in (False, True):
            R = P if only else S
            es = [tuple(sorted({v} | set(np.nonzero(R[v])[0].tolist()))) for v in range(n)]
            kw0 = dict(only_kHop=True) if only else {}
            check_hyper(dhg.Hypergraph.from_graph_kHop(g, k, **kw0), hyper_of(n, es, [1.0] * n), ctx, f"{where}: from_graph_kHop({k},{kw0})", full=False)
            ctx.count("from_graph_kHop")
            if rich and k < 3:
                into(n, lambda h, kw: h.add_hyperedges_from_graph_kHop(g, k, **kw0, **kw), es, [1.0] * n, ctx, f"{where}: add_hyperedges_from_graph_kHop({k},{kw0})")
    ctx.outcome((n, tuple(sorted(m.edges()))))


def bi_case(b, m, ctx, where):
    import dhg

    B = m.B()
    for side, n, rows in ((True, m.nu, B.T), (False, m.nv, B)):
        es = [tuple(np.nonzero(r)[0].tolist()) for r in rows if (r != 0).any()]
        for kw0 in (dict(U_as_vertex=side), {}):
            if kw0 or side:
                check_hyper(dhg.Hypergraph.from_bigraph(b, **kw0), hyper_of(n, es, [1.0] * len(es)), ctx, f"{where}: from_bigraph({kw0})", full=bool(kw0))
            if kw0 or not side:
                into(n, lambda h, kw: h.add_hyperedges_from_bigraph(b, **kw0, **kw), es, [1.0] * len(es), ctx, f"{where}: add_hyperedges_from_bigraph({kw0})")
        ctx.count("from_bigraph")
    ctx.outcome((m.nu, m.nv, tuple(sorted(m.E.items()))))


def hyper_case(h, m, ctx, where):
    import dhg

    edges = structs.real_edges(h)
    for side in (True, False):
        for weighted in (False, True):
            mem = [((v, j) if side else (j, v), w) for j, (e, w) in enumerate(edges) for v in e]
            bm = structs.BiGraphM(m.n, len(edges)) if side else structs.BiGraphM(len(edges), m.n)
            for e, w in mem:
                bm.E[e] = w if weighted else 1.0
            for kw in (dict(vertex_as_U=side, weighted=weighted),) + (({},) if side and not weighted else ()):
                if 0 in (bm.nu, bm.nv):
                    try:  # a side without vertices: bipartite graphs may refuse that
                        b = dhg.BiGraph.from_hypergraph(h, **kw)
                    except structs.REJECTED:
                        continue
                    ctx.check((b.num_u, b.num_v, b.num_e) == (bm.nu, bm.nv, 0), "sizes", where)
                else:
                    b = dhg.BiGraph.from_hypergraph(h, **kw)
                    ctx.check(type(b).__name__ == "BiGraph", "class", where)
                    hist.observe(b, bm, ctx, f"{where}: BiGraph.from_hypergraph({kw})", store_only=len(edges) > 2)
                ctx.step()
                ctx.count("BiGraph.from_hypergraph")
    ctx.outcome((m.n, tuple(sorted(edges))))


def must_reject(fn, ctx, what):
    try:
        fn()
    except structs.REJECTED:
        ctx.count("rejected")
        return
    ctx.fail("not-rejected", what)


def run_big(case, ctx):
    import dhg

    _, kind, n, s = case
    if kind == "adj":
        r = big.Lcg(s * 13 + n)
        ls = [[r(n)] + [r(n) for _ in range(r(6))] for _ in range(n)]
        for cls, args in (("Graph", [n]), ("DiGraph", [n]), ("BiGraph", [n, n + 2])):
            g = getattr(dhg, cls).from_adj_list(*args, copy.deepcopy(ls))
            _, m = structs.new([cls, *args] if cls == "BiGraph" else [cls, n, False])
            m.apply(["add", [[l[0], t] for l in ls for t in l[1:]], None, "mean"])
            hist.observe(g, m, ctx, f"{cls}.from_adj_list({args}, {ls})")
            ctx.step()
    else:
        init, ops = big.base(kind, n, s, 6)
        if kind == "Graph":
            init[2] = False
            ops = [o for o in ops if o[0] != "xloop"]
        ops = big.accepted(init, ops)[0]
        obj, m = big.build(init, ops)
        where = f"{init} {ops}"
        snap = structs.snapshot(obj, store_only=True)
        if kind == "Graph":
            graph_case(obj, m, ctx, where, rich=n == 11)
        elif kind == "BiGraph":
            bi_case(obj, m, ctx, where)
        else:
            hyper_case(obj, m, ctx, where)
        ctx.check(structs.snap_diff(snap, structs.snapshot(obj, store_only=True)) is None, "source-changed", where)
    ctx.state(("big", kind, n, s))
    ctx.trace()


def run(case, ctx):
    import dhg

    kind = case[0]
    where = str(case)
    if kind == "big":
        return run_big(case, ctx)
    if kind == "graph":
        _, n, es, extra = case
        obj, m = structs.new(["Graph", n, extra])
        if es:
            op = ["add", es, W[: len(es)], "mean"]
            obj = structs.apply_real(obj, op)
            m.apply(op)
        snap = structs.snapshot(obj, store_only=True)
        graph_case(obj, m, ctx, where, rich=n == 4 or n < 3)
        ctx.check(structs.snap_diff(snap, structs.snapshot(obj, store_only=True)) is None, "source-changed", where)
        h = dhg.Hypergraph(n + 1)
        must_reject(lambda: h.add_hyperedges_from_graph(obj), ctx, f"{where}: graph of {n} vertices added into hypergraph of {n + 1}")
        must_reject(lambda: h.add_hyperedges_from_graph_kHop(obj, 1), ctx, f"{where}: k-hop of graph of {n} vertices added into hypergraph of {n + 1}")
        must_reject(lambda: dhg.Hypergraph.from_graph_kHop(obj, 0), ctx, f"{where}: zero hops accepted")
        if es and not extra and n > 1:  # source edited after a conversion
            for op in (["remove", [es[0]]], ["add", [[0, n - 1]], [9.0], "sum"], ["add", [[0, 1]], [3.0], "sum"]):
                obj = structs.apply_real(obj, op)
                m.apply(op)
                graph_case(obj, m, ctx, f"{where} then {op}", rich=False)
        ctx.state((n, tuple(map(tuple, es)), extra))
    elif kind == "bi":
        _, nu, nv, es = case
        obj, m = structs.new(["BiGraph", nu, nv])
        if es:
            op = ["add", es, W[: len(es)], "mean"]
            obj = structs.apply_real(obj, op)
            m.apply(op)
        snap = structs.snapshot(obj, store_only=True)
        bi_case(obj, m, ctx, where)
        ctx.check(structs.snap_diff(snap, structs.snapshot(obj, store_only=True)) is None, "source-changed", where)
        for side, k in ((True, nu), (False, nv)):
            must_reject(lambda: dhg.Hypergraph(k + 1).add_hyperedges_from_bigraph(obj, U_as_vertex=side), ctx, f"{where}: mismatching vertex count accepted, U_as_vertex={side}")
        if es and len(es) < 4:
            for op in (["remove", [es[0]]], ["add", [[0, nv - 1], [nu - 1, 0]], [9.0, 1.0], "sum"]):
                obj = structs.apply_real(obj, op)
                m.apply(op)
                bi_case(obj, m, ctx, f"{where} then {op}")
            obj, m2 = structs.apply_real(obj, ["switch"]), m.copy()
            m2.apply(["switch"])
            bi_case(obj, m2, ctx, f"{where} edited then switched")
        ctx.state((nu, nv, tuple(map(tuple, es))))
    elif kind == "hyper":
        _, n, es, sp = case
        obj, m = structs.new(["Hypergraph", n, None])
        for e, g, w in zip(es, sp, W):
            op = ["add", [e], [w], "mean", g]
            obj = structs.apply_real(obj, op)
            m.apply(op)
        snap = structs.snapshot(obj, store_only=True)
        hyper_case(obj, m, ctx, where)
        ctx.check(structs.snap_diff(snap, structs.snapshot(obj, store_only=True)) is None, "source-changed", where)
        if 0 < len(es) < 3:
            for op in (["add", [es[0], [0, 3]], [7.0, 6.0], "sum", "b"], ["remove", [es[0]], "a"], ["rmgroup", "b"]):
                obj = structs.apply_real(obj, op)
                m.apply(op)
                hyper_case(obj, m, ctx, f"{where} then {op}")
        ctx.state((n, tuple(map(tuple, es)), tuple(sp)))
    else:
        ls = case[1]
        for cls, args, init in (("Graph", [3], ["Graph", 3, False]), ("DiGraph", [3], ["DiGraph", 3, False]), ("BiGraph", [3, 4], ["BiGraph", 3, 4]), ("BiGraph", [4, 3], ["BiGraph", 4, 3])):
            for kw in ({}, dict(extra_selfloop=True)):
                if kw and cls == "BiGraph":
                    continue
                inp = copy.deepcopy(ls)
                g = getattr(dhg, cls).from_adj_list(*args, inp, **kw)
                ctx.check(inp == ls, "input-changed", where)
                if kw:
                    init = init[:2] + [True]
                _, m = structs.new(init)
                es = [[l[0], t] for l in ls for t in l[1:]]
                m.apply(["add", es, None, "mean"])
                ctx.check(type(g).__name__ == cls, "class", where)
                hist.observe(g, m, ctx, f"{cls}.from_adj_list({args}, {ls}, {kw})", store_only=len(ls) > 1)
                ctx.step()
                ctx.count(f"{cls}.from_adj_list")
                ctx.outcome(m.key())
        if any(len(l) > 1 for l in ls):
            bad = [[v + 2 for v in l] for l in ls]
            if max(max(l) for l in bad if len(l) > 1) >= 4:
                for cls, args in (("Graph", [4]), ("DiGraph", [4]), ("BiGraph", [4, 4])):
                    must_reject(lambda: getattr(dhg, cls).from_adj_list(*args, bad), ctx, f"{cls}.from_adj_list({args}, {bad}) accepted")
        ctx.state(("adj", str(ls)))
    ctx.trace()
