"""Retrieval metrics on every relevance vector and every ranking."""
import itertools

import torch

from mc import metref as R
from mc.big import Lcg

PID = "M01"
MODULE = "retrieval"
LEVEL = "model_checking"
CHUNK = 6
BOUNDS = {
    "quick": "every binary relevance vector x every ranking for lists of 1-5 items, every cut-off 1..n+1 and none, shares 1/10, 1/4, 1/3, 1/2, 3/4, 1, and a cut-off and a share together; every graded relevance over {0,1,2,3} (n<=3) and {0,1,3} (n=4) for NDCG; both interpolation methods, 2-21 curve points; scores as three value sets (negative, float32, integers), labels as int/float/bool tensors; each ranking alone, all rankings as one batch, every pair of 3-item queries as a batch; shares at nine places between whole numbers of items for lists of 3-257 items; fixed patterns on 7-130 items x 1-130 queries with cut-offs up to n+3",
    "thorough": "as quick with 6 items and graded relevance over {0,1,2,3} at n=4, {0,1,3} at n=5",
}
ASSUME = ["scores are distinct (ties excepted)", "cut-offs are at least 1, shares in (0,1]", "a perfect ranking scores 1 in AP, NDCG, RR; the curve's value at recall level r is the interpolated precision at relevant item 1+floor(r(R-1)), as pinned by the repository's tests"]
RATIOS = (0.1, 0.25, 1 / 3, 0.5, 0.75, 1.0)
METS = ("precision", "recall", "ndcg", "map", "mrr", "pr_curve")


def cuts(n):
    return [[k, None] for k in [None] + list(range(1, n + 2))] + [[None, r] for r in RATIOS] + [[n + 1, 0.25], [1, 0.75], [n, 1 / 3]]  # a share overrules the cut-off


def cases(tier):
    th = tier == "thorough"
    for n in range(1, (6 if th else 5) + 1):
        for k, r in cuts(n):
            for m in METS:
                yield ["all", m, n, [0, 1], k, r]
    for n, g in ((2, [0, 1, 2, 3]), (3, [0, 1, 2, 3]), (4, [0, 1, 3]), (3, [0, 0.5, 2.5])) + (((4, [0, 1, 2, 3]), (5, [0, 1, 3])) if th else ()):
        for k, r in cuts(n):
            yield ["all", "ndcg", n, g, k, r]
    for n in (2, 3, 4):
        for k, r in cuts(n):
            for m in ("ap", "rr", "map", "pr_curve"):
                yield ["single", m, n, [0, 1], k, r]
    for m in METS:
        for k in (None, 1, 2, 3):
            yield ["pairs", m, 3, [0, 1], k, None]
    for m in METS:
        yield ["reject", m, 3, [0, 1], None, None]
    for n in (3, 7, 33, 101, 201, 257) + ((1000, 1025) if th else ()):
        for m in tuple(METS) + ("ap", "rr"):
            yield ["cut", m, n, [0, 1], None, None]
    for n in (7, 8, 11, 16, 17, 25, 33, 50, 64, 65, 101, 130) + ((200, 257, 300, 1025) if th else ()):
        for q in (1, 2, 3, 8, 33, 130):
            for m in METS:
                if n * q > 8000 and not th:
                    continue
                yield ["large", m, n, [0, 1], q, None]
                if m == "ndcg":
                    yield ["large", m, n, [0, 1, 2, 3, 7], q, None]


def scores(perm, how):
    n = len(perm)
    if how == 0:
        return [0.9 - 0.2 * p for p in perm], torch.float32
    if how == 1:
        # doubles (of any size, all negative) that differ beyond single precision
        return [-0.5 - 1e-11 * 3 ** p for p in perm], torch.float64
    # integers whose difference single precision cannot hold
    return [2 ** 25 - p for p in perm], torch.int64


def fn(module, name):
    import importlib
    return getattr(importlib.import_module(f"dhg.metrics.{module}"), name)


def opts(name, n):
    if name in ("ap", "map"):
        return [{}, {"method": "legacy"}, {"method": "pascal_voc"}]
    if name == "pr_curve":
        return [{}, {"method": "legacy", "n_points": 5}, {"n_points": 21}, {"n_points": 2}, {"method": "legacy"}]
    return [{}]


REF = {"precision": R.precision, "recall": R.recall, "ndcg": R.ndcg, "map": R.ap, "ap": R.ap, "mrr": R.rr, "rr": R.rr, "pr_curve": R.pr_curve}


def close(a, b):
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    try:
        a = float(a)
    except (TypeError, ValueError):
        return False
    return a == a and abs(a - float(b)) <= 2e-5


def kw(k, ratio):
    d = {}
    if k is not None:
        d["k"] = k
    if ratio is not None:
        d["ratio"] = ratio
    return d


def mean(vals):
    if isinstance(vals[0], tuple):
        return tuple([sum(v[j][i] for v in vals) / len(vals) for i in range(len(vals[0][j]))] for j in range(2))
    return sum(vals) / len(vals)


def batch_list(v):
    """Per-query values of a ret_batch result."""
    if isinstance(v, tuple):
        return list(zip(*[list(x) for x in v]))
    return v.tolist() if isinstance(v, torch.Tensor) else list(v)


def run(case, ctx, module=MODULE):
    mode, name, n, grid, k, ratio = case
    f, ref = fn(module, name), REF[name]
    kk = R.cutoff(n, k, ratio) if mode != "large" else None
    ctx.count(f"{name} {mode}")
    if mode == "large":
        return large(f, ref, case, ctx, module)
    if mode == "cut":
        return cut(f, ref, case, ctx, module)
    if mode == "reject":
        return reject(f, name, ctx)
    rels = list(itertools.product(grid, repeat=n))
    perms = list(itertools.permutations(range(n)))
    where = f"{module}.{name}(n={n}, k={k}, ratio={ratio}, "

    def tens(rows, how):
        ys = torch.tensor([list(r) for r, _ in rows], dtype=torch.float32 if any(isinstance(x, float) for x in grid) or how == 1 else (torch.bool if how == 2 and set(grid) == {0, 1} else torch.int64))
        ps, dt = zip(*[scores(p, how) for _, p in rows])
        return ys, torch.tensor(ps, dtype=dt[0]), ps

    def call(ys, ss, **o):
        a, b = ys.clone(), ss.clone()
        v = f(a, b, **kw(k, ratio), **o)
        ctx.step()
        ctx.check(torch.equal(a, ys) and torch.equal(b, ss), "input-changed", where + f"{o}): the input tensors were changed")
        return v

    ctx.trace()
    for how, o in itertools.product(range(3), opts(name, n)):
        if mode == "all":
            rows = [(r, p) for r in rels for p in perms]
            ys, ss, ps = tens(rows, how)
            want = [ref(list(r), list(s), kk, **o) for (r, _), s in zip(rows, ps)]
            got = batch_list(call(ys, ss, ret_batch=True, **o))
            ctx.check(len(got) == len(want), "batch-shape", where + f"{o}): {len(got)} per-query values for {len(want)} queries")
            for (r, p), g, w in zip(rows, got, want):
                ctx.check(close(g, w), "value", lambda: where + f"{o}): relevance {r} ranked {[r[i] for i in sorted(range(n), key=lambda i: p[i])]} gives {g}, defined {w}")
                if how == 0:
                    ctx.state((name, r, p, k, ratio, str(o)))
            m = call(ys, ss, **o)
            ctx.check(isinstance(m, tuple) if name == "pr_curve" else isinstance(m, float), "type", lambda: where + f"{o}) returns a {type(m)} for a batch")
            ctx.check(close(m, mean(want)), "batch-mean", lambda: where + f"{o}): batch of all rankings gives {m}, mean of the per-query values is {mean(want)}")
            ctx.outcome((name, n, k, ratio, str(o), str(m)))
            flat = [x for v in got for x in (v[0] if isinstance(v, tuple) else [v])]
            ctx.check(all(0 <= x <= 1 + 1e-6 for x in flat), "range", where + "): value outside [0,1]")
        elif mode == "single":
            for r, p in itertools.product(rels, perms):
                ys, ss, ps = tens([(r, p)], how)
                g = call(ys[0], ss[0], **o)
                w = ref(list(r), list(ps[0]), kk, **o)
                if how == 0:
                    ctx.check(isinstance(g, tuple) if name == "pr_curve" else isinstance(g, float), "type", lambda: where + f"{o}) returns a {type(g)}")
                    gr = g if n > 3 else f(ys[0].clone(), ss[0].clone().requires_grad_(True), **kw(k, ratio), **o)
                    ctx.check(close(gr, w), "value-grad", lambda: where + f"{o}): relevance {r} scores {ps[0]} that carry gradients gives {gr}, defined {w}")
                ctx.check(close(g, w), "value-1d", lambda: where + f"{o}): 1-D relevance {r} scores {ps[0]} gives {g}, defined {w}")
                ctx.state((name, r, p, k, ratio, str(o)))
        elif mode == "pairs":
            rows = [(r, p) for r in rels for p in perms]
            for a, b in itertools.product(rows[:: 1 if how == 0 else 5], rows[::5]):
                ys, ss, ps = tens([a, b], how)
                w = [ref(list(r), list(s), kk, **o) for (r, _), s in zip((a, b), ps)]
                g = call(ys, ss, **o)
                ctx.check(close(g, mean(w)), "pair-mean", lambda: where + f"{o}): queries {a} and {b} give {g}, mean of the per-query values {w}")
            if name in ("ap", "rr"):
                return


def large(f, ref, case, ctx, module):
    """fixed patterns on long lists and many queries, every option"""
    _, name, n, grid, q, _ = case
    r = Lcg(n * 1000 + q)
    for dens in (2, 5, n):
        ys = [[grid[0] if r(dens) else grid[1 + r(len(grid) - 1)] for _ in range(n)] for _ in range(q)]
        ps = []
        for _ in range(q):
            p = list(range(n))
            for i in range(n - 1, 0, -1):
                j = r(i + 1)
                p[i], p[j] = p[j], p[i]
            ps.append(p)
        how = r(4)
        dt = [torch.float32, torch.float64, torch.int64, torch.float32][how]
        sc = [[(v - n // 2) * [1.0, 0.001, 3, 1024.0][how] for v in p] for p in ps]
        yt, st = torch.tensor(ys, dtype=torch.float32 if how == 0 else torch.int64), torch.tensor(sc, dtype=dt)
        if how == 3:  # a transposed view and scores that require gradients
            st = st.t().contiguous().t().requires_grad_()
            yt = yt.t().contiguous().t()
        for k, ratio in [(None, None), (1, None), (2, None), (3, None), (5, None), (10, None), (20, None), (50, None), (n - 1, None), (n, None), (n + 3, None), (None, 0.1), (None, 0.2), (None, 0.5), (None, 0.9), (None, 1.0)]:
            if ratio is not None and abs(n * ratio - round(n * ratio)) < 1e-6 and ratio not in (0.5, 1.0):
                continue
            kk = R.cutoff(n, k, ratio)
            for o in opts(name, n)[: 5 if k in (None, 10) else 1]:
                where = f"{module}.{name}({q} queries of {n} items, pattern {dens}, k={k}, ratio={ratio}, {o})"
                want = [ref(y, p, kk, **o) for y, p in zip(ys, sc)]
                got = batch_list(f(yt, st, ret_batch=True, **kw(k, ratio), **o))
                ctx.step(2)
                ctx.check(len(got) == q, "batch-shape", f"{where}: {len(got)} values")
                for i, (g, w) in enumerate(zip(got, want)):
                    ctx.check(close(g, w), "value", lambda: f"{where}: query {i} (hits at {[j for j, x in enumerate(R.ranked(ys[i], sc[i])) if x][:20]}) gives {g}, defined {w}")
                m = f(yt, st, **kw(k, ratio), **o)
                ctx.check(close(m, mean(want)), "batch-mean", lambda: f"{where}: {m}, mean of the per-query values {mean(want)}")
                if q == 1:
                    m = f(yt[0], st[0], **kw(k, ratio), **o)
                    ctx.check(close(m, want[0]), "value-1d", lambda: f"{where}: 1-D call gives {m}, defined {want[0]}")
                ctx.state((name, n, q, dens, k, ratio, str(o)))
        ctx.trace()
    ctx.outcome((name, n, q, str(want[0])))


def cut(f, ref, case, ctx, module):
    """shares just above, between and just below whole numbers of items: the items around the cut-off decide the value"""
    _, name, n, _, _, _ = case
    perm = [(i * 5 + 2) % n if n % 5 else (i * 7 + 3) % n for i in range(n)]  # item at each rank
    s = [0.0] * n
    for rank, item in enumerate(perm):
        s[item] = (n - rank) / 16
    for j in sorted({0, 1, 2, n // 3, n // 2, n - 2, n - 1}):
        for d in (1e-4, 0.004, 0.04, 0.3, 0.5, 0.7, 0.96, 0.996, 1 - 1e-4):
            ratio = (j + d) / n
            for k, r in ((None, ratio), (j + 1, None)):
                kk = R.cutoff(n, k, r)
                for rel in ((kk - 1,), (kk,), (0, kk - 1), (kk - 1, kk, kk + 1), (0, 1, n - 1)):
                    y = [0] * n
                    for q in rel:
                        if q < n:
                            y[perm[q]] = 1
                    for o in opts(name, n)[:1 if n > 40 else 3]:
                        got, want = f(torch.tensor(y), torch.tensor(s), **kw(k, r), **o), ref(y, s, kk, **o)
                        ctx.step()
                        ctx.check(close(got, want), "value", lambda: f"{module}.{name}({n} items, relevant at ranks {rel}, k={k}, ratio={r}, {o}) = {got}, defined {want} (first {kk})")
            ctx.state((name, n, j, d))
    ctx.trace()
    ctx.outcome((name, n))


def reject(f, name, ctx):
    y, s = torch.tensor([1, 0, 1]), torch.tensor([0.3, 0.2, 0.1])
    for a, b, o in ((y, s[:2], {}), (y[:2], s, {}), (y, s, {"method": "other"} if name in ("map", "pr_curve") else None)):
        if o is None:
            continue
        ctx.step()
        try:
            f(a, b, **o)
        except (AssertionError, ValueError, RuntimeError, IndexError):
            continue
        ctx.fail("not-rejected", f"{name} accepted {a.shape} against {b.shape} with {o}")
