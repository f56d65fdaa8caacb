"""Star, clique and HyperGCN expansions over all small hypergraphs and all feature orders."""
import itertools
import math

from mc import big, hist, rng, structs

PID = "C01"
LEVEL = "model_checking"
CHUNK = {"quick": 40, "thorough": 60}
BOUNDS = {
    "quick": "every set of <=2 hyperedges on 4 vertices in every split over 2 groups, every set of 3 hyperedges in 2 splits, with weights: star (weighted or not, 3 merge rules), clique (weighted or not, scale 1/0.5/2), HyperGCN (mediator or not, self-loop removal or not) under all 24 orders of a one-dimensional feature; two-dimensional features under every projection direction of a 6x6 grid, compared with every possible projection order; repeated conversion after an edit; hyperedges of size 5 on 5 vertices; 16 fixed hypergraphs of 9-24 vertices with hyperedges of up to all vertices; fixed hypergraphs of 72 and 140 vertices",
    "thorough": "quick + every set of 3 hyperedges in every split over 2 groups, every set of 4 hyperedges, every set of <=2 hyperedges on 5 vertices with all 120 feature orders",
}
ASSUME = ["HyperGCN reduction: hyperedges have at least two vertices (documented) and projections are distinct (ties leave the extreme vertex open)",
          "one projection direction is used for all hyperedges of a call; its distribution is not checked"]
W = [2.0, 0.5, 3.0, 4.0]
# irregular values: no projection on the explored grid ties
JIT = [math.sqrt(p) / 50 for p in (2, 3, 5, 7, 11, 13, 17, 19)]
F2 = [[[0.0, 1.0], [1.0, 0.0], [2.0, 3.0], [5.0, 1.5]], [[1.0, 1.0], [2.0, 4.0], [3.0, 2.0], [-1.0, -2.0]], [[0.0, 0.0], [1.0, 3.0], [3.0, 1.0], [2.5, 2.25]]]
F2 = [[[x + JIT[2 * i], y + JIT[2 * i + 1]] for i, (x, y) in enumerate(f)] for f in F2]


def cases(tier):
    sets = [list(s) for k in range(1, 5) for s in itertools.combinations(range(4), k)]
    yield [4, [], [], "all"]
    for k in (1, 2, 3, 4):
        if k == 4 and tier == "quick":
            continue
        for es in itertools.combinations(sets, k):
            splits = list(itertools.product("ab", repeat=k)) if k < 3 or (k == 3 and tier == "thorough") else [("a",) * k, ("a", "b", "a", "b")[:k]]
            for sp in splits[:1] if k == 4 else splits:
                yield [4, [list(e) for e in es], list(sp), "all"]
    for es in itertools.combinations(sets, 2):  # the same hyperedge in two groups
        yield [4, [es[0], es[1], es[0]], ["a", "a", "b"], "edit"]
    big = [s for s in sets if len(s) >= 2]
    for es in itertools.combinations(big, 2):
        for f in range(len(F2)):
            yield [4, [list(e) for e in es], ["a", "b"], f"feat{f}"]
    sets5 = [list(s) for k in range(1, 6) for s in itertools.combinations(range(5), k)]
    for es in itertools.combinations(sets5, 2) if tier == "thorough" else [([0, 1, 2, 3, 4], s) for s in sets5[:-1]]:
        yield [5, [list(e) for e in es], ["a", "a"], "all"]
    for n in (9, 11, 14, 24) + ((40,) if tier == "thorough" else ()):
        for s in range(4 if tier == "quick" else 16):
            yield [n, [], [], f"big{s}"]
    for n, s in ((72, 0), (140, 1)):
        yield [n, [], [], f"big{s}"]


def gmodel(n, es, ws, merge):
    m = structs.GraphM(n)
    for e, w in zip(es, ws):
        m.apply(["add", [list(e)], [w], merge])
    return m


def agree(g, m, where, ctx, full=False):
    ctx.check(type(g).__name__ == "Graph", "class", where)
    ctx.evals += 1
    hist.observe(g, m, ctx, where, store_only=not full)


def hypergcn_model(n, edges, p, mediator):
    """p: projected feature of every vertex (distinct inside every hyperedge)"""
    es, ws = [], []
    for e in edges:
        a, b = max(e, key=lambda v: p[v]), min(e, key=lambda v: p[v])
        w = 1 / (2 * len(e) - 3) if mediator else 1 / len(e)
        es.append((a, b))
        ws.append(w)
        if mediator:
            for v in e:
                if v not in (a, b):
                    es += [(a, v), (b, v)]
                    ws += [w, w]
    return gmodel(n, es, ws, "sum")


def directions(f):
    """One direction per order class of 2-D points (all critical angles separate the classes)."""
    crit = []
    for a, b in itertools.combinations(f, 2):
        t = math.atan2(b[1] - a[1], b[0] - a[0]) + math.pi / 2
        crit += [t % (2 * math.pi), (t + math.pi) % (2 * math.pi)]
    crit = sorted(set(crit))
    for i, t in enumerate(crit):
        u = crit[(i + 1) % len(crit)] + (2 * math.pi if i + 1 == len(crit) else 0)
        m = (t + u) / 2
        yield [math.cos(m), math.sin(m)]


def static(obj, m, where, ctx, full):
    import dhg

    edges = [tuple(sorted(int(v) for v in e)) for e in obj.e[0]]
    n, ne = m.n, len(edges)
    # star
    mem = [(v, n + j) for j, e in enumerate(edges) for v in e]
    for kw in ({}, dict(weighted=True), dict(weighted=True, merge_op="mean"), dict(merge_op="max")):
        g, mask = dhg.Graph.from_hypergraph_star(obj, **kw)
        agree(g, gmodel(n + ne, mem, [1.0] * len(mem), "sum"), f"{where}: star({kw})", ctx, full)
        ctx.check(str(mask.dtype) == "torch.bool" and mask.tolist() == [True] * n + [False] * ne, "vertex-mask", lambda: f"{where}: star({kw}) mask {mask.tolist()}")
        ctx.step()
        ctx.count("star")
    # clique
    share = {}
    for e in edges:
        for a, b in itertools.combinations(e, 2):
            share[a, b] = share.get((a, b), 0) + 1
    for kw in ({}, dict(weighted=True), dict(weighted=True, miu=0.5), dict(weighted=True, miu=2.0), dict(miu=0.5)):
        g = dhg.Graph.from_hypergraph_clique(obj, **kw)
        ws = [float(c) * kw.get("miu", 1.0) if kw.get("weighted") else 1.0 for c in share.values()]
        agree(g, gmodel(n, list(share), ws, "sum"), f"{where}: clique({kw})", ctx, full)
        ctx.step()
        ctx.count("clique")
    ctx.outcome((n, tuple(sorted(mem)), tuple(sorted(share.items()))))
    return edges


def hypergcn(obj, m, edges, where, ctx, perms):
    import dhg
    import torch

    for perm in perms:
        f = torch.tensor([[float(x)] for x in perm])
        for med in (False, True):
            exp = hypergcn_model(m.n, edges, perm, med)
            for kw in (dict(with_mediator=med), dict(with_mediator=med, remove_selfloop=False)):
                g = dhg.Graph.from_hypergraph_hypergcn(obj, f, **kw)
                agree(g, exp, f"{where}: hypergcn feature {perm} {kw}", ctx)
                ctx.step()
                ctx.count("hypergcn")
        ctx.outcome((m.n, perm, tuple(edges)))
        ctx.check(f.reshape(-1).tolist() == [float(x) for x in perm], "feature-changed", where)


def run(case, ctx):
    import dhg
    import torch

    n, es, sp, mode = case
    if mode.startswith("big"):
        s = int(mode[3:])
        init, ops = big.base("Hypergraph", n, s, 8)
        ops = [op for op in big.accepted(init, ops)[0]]
        for only2 in (False, True):
            o2 = []
            for op in ops:
                if only2 and op[0] == "add":
                    el = op[1]
                    if isinstance(el[0], int):
                        if len(set(el)) < 2:
                            continue
                    elif any(len(set(e)) < 2 for e in el):
                        ws = op[2] if isinstance(op[2], list) else None
                        keep = [i for i, e in enumerate(el) if len(set(e)) > 1]
                        op = ["add", [el[i] for i in keep], [ws[i] for i in keep] if ws else op[2], op[3], op[4]]
                        if not keep:
                            continue
                o2.append(op)
            o2 = big.accepted(init, o2)[0]
            obj, m = big.build(init, o2)
            where = f"{init} {o2}"
            edges = static(obj, m, where, ctx, full=False)
            if only2:
                r = big.Lcg(s)
                perms = [tuple(range(n)), tuple(range(n))[::-1], tuple((i * 7 + s) % n if n % 7 else (i * 5 + s) % n for i in range(n))]
                hypergcn(obj, m, edges, where, ctx, [p for p in perms if len(set(p)) == n])
            ctx.trace()
        ctx.state((n, mode))
        return
    obj, m = structs.new(["Hypergraph", n, None])
    for i, (e, g) in enumerate(zip(es, sp)):
        op = ["add", [list(reversed(e))], [W[i % 4]], "mean", g]
        obj = structs.apply_real(obj, op)
        m.apply(op)
    where = f"hyperedges {es} in groups {sp}"
    before = structs.snapshot(obj, store_only=True)
    if mode.startswith("feat"):
        feat = F2[int(mode[4:])]
        edges = [tuple(sorted(int(v) for v in e)) for e in obj.e[0]]
        for med in (False, True):
            allowed = {}
            for d in directions(feat):
                mm = hypergcn_model(n, edges, [sum(x * y for x, y in zip(d, r)) for r in feat], med)
                allowed[tuple(sorted((e, round(w, 4)) for e, w in mm.E.items()))] = d
            def fn():
                g = dhg.Graph.from_hypergraph_hypergcn(obj, torch.tensor(feat), with_mediator=med)
                return tuple(sorted((tuple(sorted(e)), round(w, 4)) for e, w in zip(*g.e)))

            r = rng.explore(fn, grid=6, budget=200)
            vals = [v for _, v in r.leaves] + (rng.many_seeds(fn, 12) if r.uncontrolled or len(r.leaves) < 2 else [])
            for got in vals:
                ctx.check(got in allowed, "projection", lambda: f"{where}: feature {feat} mediator {med}: {got} is the reduction of no projection direction")
            seen = set(vals)
            ctx.step(len(vals))
            ctx.state((tuple(map(tuple, es)), mode, med))
            ctx.outcome((tuple(sorted(seen)),))
            ctx.trace()
        return
    edges = static(obj, m, where, ctx, full=len(es) <= 2)
    ctx.state((n, tuple(map(tuple, es)), tuple(sp)))
    if all(len(e) >= 2 for e in edges):
        perms = list(itertools.permutations(range(n))) if len(es) <= 2 or n == 4 else []
        if n == 5 and len(es) == 2 and mode == "all":
            perms = perms[::1]
        hypergcn(obj, m, edges, where, ctx, perms)
    try:
        dhg.Graph.from_hypergraph_hypergcn(obj, torch.rand(n + 1, 1))
    except structs.REJECTED:
        pass
    else:
        ctx.fail("not-rejected", f"{where}: features of {n + 1} vertices accepted for {n} vertices")
    ctx.check(structs.snap_diff(before, structs.snapshot(obj, store_only=True)) is None, "source-changed", where)
    if mode == "edit":
        for op in (["remove", [es[0]], "a"], ["add", [[0, n - 1], [1, 2, 3]], [2.0, 2.0], "mean", "b"], ["rmgroup", "a"], ["clear"]):
            obj = structs.apply_real(obj, op)
            m.apply(op)
            e2 = static(obj, m, f"{where} after {op}", ctx, False)
            if all(len(e) >= 2 for e in e2):
                hypergcn(obj, m, e2, f"{where} after {op}", ctx, [(0, 1, 2, 3), (2, 0, 3, 1)])
            ctx.state((tuple(m.key()),))
    ctx.trace()


def shrink(case):
    n, es, sp, v = case
    for i in range(len(es)):
        yield [n, es[:i] + es[i + 1:], sp[:i] + sp[i + 1:], v]
