"""k-nearest-neighbour digraphs and hypergraphs over all small point configurations with distinct distances."""
import itertools
import math

import numpy as np

from mc import hist, structs

PID = "C03"
LEVEL = "model_checking"
CHUNK = {"quick": 30, "thorough": 60}
BOUNDS = {
    "quick": "all placements of 2-4 points on the 8 positions of a line whose pairwise distances are all distinct (Golomb positions, every order of the points), and all placements of 2-4 of 9 jittered plane points; every k from 1 to n+1, metrics 1/2/inf, both weight modes, centre included or not, both directions, single and double precision; the kNN hypergraph from scratch and into a group; configurations of 12-33 points (spiral, far from the origin, with an outlier, 8-dimensional, scaled); a configuration of 70 points; double-precision points that single precision cannot tell apart",
    "thorough": "quick + 5 points, 6 points on the line, 40-point configurations",
}
ASSUME = ["pairwise distances from each point are distinct (ties leave the choice open)", "requests for more neighbours than other vertices must be rejected"]
LINE = [0.0, 1.0, 4.0, 9.0, 15.0, 22.0, 32.0, 34.0]  # Golomb ruler: all differences distinct
PLANE = [[0.01, 0.0], [1.0, 0.07], [2.13, 0.0], [0.0, 1.19], [1.07, 1.31], [2.0, 1.03], [0.29, 2.0], [1.0, 2.41], [2.53, 2.17]]


def cases(tier):
    th = tier == "thorough"
    for n in (2, 3, 4) + ((5,) if th else ()):
        combos = list(itertools.combinations(range(8), n))
        for c in combos:
            perms = itertools.permutations(c) if n < 4 else ([c, c[::-1], (c[1], c[0]) + c[2:], (c[2], c[-1], c[0], c[1]) + c[3:-1]] if not th else list(itertools.permutations(c))[:: 5 if n == 5 else 1])
            for p in perms:
                yield ["line", list(p)]
    for n in (2, 3, 4) + ((5,) if th else ()):
        for c in itertools.combinations(range(9), n):
            yield ["plane", list(c)]
            yield ["plane", list(c[::-1])]
    yield ["line", list(range(8))]
    yield ["line", [3, 1, 4, 0, 5, 7, 2, 6]]
    yield ["plane", list(range(9))]
    yield ["spiral", list(range(30))]
    yield ["spiral", list(range(12))]
    yield ["spiral", list(range(70))]
    if th:
        yield ["spiral", list(range(135))]
    for k in ("far", "outlier", "cluster", "dim8", "scale"):
        for n in (5, 20, 26, 33) + ((60,) if th else ()):
            yield [k, list(range(n))]
    for c in ([0, 1, 2, 3, 4, 5, 6, 7], [3, 1, 4, 0, 5, 7, 2, 6]):
        yield ["lineout", c]
    for c in ([0, 1, 2, 3, 4, 5, 6, 7], [3, 1, 4, 0, 5, 7, 2, 6], [4, 2, 0], [1, 7, 3, 0]):
        yield ["double", c]
    yield ["one", [0]]
    if th:
        for c in itertools.combinations(range(8), 6):
            yield ["line", list(c)]
        yield ["spiral", list(range(40))]


def points(kind, idx):
    if kind == "line":
        return [[LINE[i]] for i in idx]
    if kind == "double":  # single precision cannot tell these apart
        return [[LINE[i] + 2.0**30] for i in idx]
    if kind == "one":
        return [[1.5, 2.0]]
    if kind == "plane":
        return [PLANE[i] for i in idx]
    if kind == "far":  # far from the origin, with growing gaps
        return [[1000 + i * 0.5 + (i * i * 0.618) % 0.4, 500.0 + (i * 0.37) % 0.9] for i in idx]
    if kind == "cluster":  # a tight cluster and one vertex farther away
        return [[x * 0.02, y * 0.02] for x, y in points("spiral", idx[:-1])] + [[5.0, 3.0]]
    if kind == "lineout":
        return [[LINE[i] + (400.0 if i == 7 else 0.0)] for i in idx]
    if kind == "dim8":
        return [[math.cos(i * 2.39996 * (d + 1)) * (i + d + 1) ** 0.75 for d in range(8)] for i in idx]
    if kind == "scale":
        return [[math.cos(i * 2.39996) * (i + 1) ** 0.75 * 50, math.sin(i * 2.39996) * (i + 1) ** 0.75 * 50] for i in idx]
    if kind == "outlier" and len(idx) > 1:
        return points("spiral", idx[:-1]) + [[300.0, -170.0]]
    return [[math.cos(i * 2.39996) * (i + 1) ** 0.75, math.sin(i * 2.39996) * (i + 1) ** 0.75] for i in idx]


def run(case, ctx):
    import dhg
    import torch

    kind, idx = case
    dt0 = (torch.float32, torch.float64) if kind != "double" else (torch.float64,)
    pts = np.array(points(kind, idx), dtype=np.float32 if kind != "double" else np.float64).astype(float).tolist()
    n = len(pts)
    for p in (2, 1, float("inf")):
        D = np.array([[np.linalg.norm(np.array(a) - np.array(b), ord=p) for b in pts] for a in pts])
        srt = np.sort(D, axis=1)
        tol = 1e-3 if n < 10 else 4e-6 * max(1, D.max())

        def tied(j):
            """is it open which vertices are the j nearest other ones of some vertex?"""
            t = n > 1 and (min(srt[:, 1]) < tol or (0 < j < n - 1 and (srt[:, j + 1] - srt[:, j]).min() < tol))
            if t:
                ctx.count(f"skipped-tie {kind}")
            return t

        rank = np.argsort(D, axis=1)  # column 0 is the point itself
        for k in range(1, n + 2) if n < 10 else (1, 2, 3, 7, n - 1, n, n + 1):
            for center in (False, True):
                m_nb = k - 1 if center else k
                if tied(m_nb):
                    continue
                for src in (True, False):
                    for d2w in (False, True):
                        for dt in dt0:
                            if dt == torch.float64 and kind != "double" and not (src and k < 3):
                                continue
                            X = torch.tensor(pts, dtype=dt)
                            X0 = X.clone()
                            kw = dict(p=p, distance2weight=d2w, include_center=center, center_as_src=src)
                            if p == 2:
                                kw.pop("p")
                            where = f"points {pts[:9]} k={k} {kw} {dt}"
                            try:
                                g = dhg.DiGraph.from_feature_kNN(X, k, **kw)
                            except structs.REJECTED:
                                ctx.check(m_nb > n - 1, "rejected", lambda: f"{where}: rejected")
                                ctx.count("rejected")
                                continue
                            ctx.check(m_nb <= n - 1, "not-rejected", lambda: f"{where}: accepted although only {n - 1} other vertices exist")
                            m = structs.DiGraphM(n)
                            for v in range(n):
                                for u in rank[v][1 : m_nb + 1].tolist():
                                    m.E[(v, u) if src else (u, v)] = math.exp(-D[v][u]) if d2w else 1.0
                            m.extra = center
                            ctx.check(type(g).__name__ == "DiGraph", "class", where)
                            hist.observe(g, m, ctx, where, store_only=n > 3)
                            for e, w in zip(*g.e):
                                if d2w and tuple(e) in m.E:
                                    x = m.E[tuple(e)]
                                    ctx.check(abs(w - x) <= 1e-3 * x + 1e-30, "weight", lambda: f"{where}: arc {e} has weight {w}, expected {x}")
                            A = g.A
                            ctx.check(A.dtype == torch.float32, "dtype", lambda: f"{where}: adjacency has dtype {A.dtype}")
                            out = g.v2v(torch.ones(n, 1), aggr="sum").reshape(-1).tolist()
                            ctx.check(np.allclose(out, m.A().sum(0), atol=1e-4) or np.allclose(out, m.A().sum(1), atol=1e-4), "usable", lambda: f"{where}: message passing gives {out}")
                            ctx.check(torch.equal(X, X0), "input-changed", where)
                            ctx.step()
                            ctx.count(f"DiGraph.kNN(p={p})")
                            ctx.outcome((n, tuple(sorted(m.E)), center))
        if p == 2:
            for k in range(1, n + 2) if n < 10 else (1, 2, 3, 7, n - 1, n, n + 1):
                if tied(k - 1):
                    continue
                X = torch.tensor(pts, dtype=dt0[0])
                where = f"points {pts[:9]} hypergraph k={k}"
                es = [sorted(rank[v][:k].tolist()) for v in range(n)]
                m = structs.HyperM(n)
                m.apply(["add", es, None, "mean", "main"])
                for how in ("new", "into"):
                    try:
                        if how == "new":
                            hg, mm = dhg.Hypergraph.from_feature_kNN(X, k), m
                        else:
                            hg, mm = structs.new(["Hypergraph", n, None])
                            for op in (["add", [[0]], [3.0], "mean", "main"], ["add", [[0, n - 1]], [5.0], "mean", "knn"]):
                                hg = structs.apply_real(hg, op)
                                mm.apply(op)
                            structs.snapshot(hg)
                            hg.add_hyperedges_from_feature_kNN(X, k, group_name="knn")
                            mm.apply(["add", es, None, "mean", "knn"])
                    except structs.REJECTED:
                        ctx.check(k > n, "rejected", lambda: f"{where}: rejected")
                        continue
                    except RuntimeError:
                        if k <= n:
                            raise
                        continue
                    ctx.check(k <= n, "not-rejected", lambda: f"{where}: accepted")
                    hist.observe(hg, mm, ctx, f"{where} ({how})", store_only=n > 3)
                    ctx.step()
                    ctx.count("Hypergraph.kNN")
                try:
                    dhg.Hypergraph(n + 1).add_hyperedges_from_feature_kNN(X, 1)
                except structs.REJECTED:
                    pass
                else:
                    ctx.fail("not-rejected", f"{where}: features of {n} vertices added into hypergraph of {n + 1}")
    ctx.state((kind, tuple(idx)))
    ctx.trace()
