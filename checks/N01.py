"""Graph / digraph / bipartite message passing and smoothing against their dense definitions."""
import itertools

import numpy as np

from mc import big, rng, structs
from mc.cmp import close, dense, show
from mc.mp import aggregate, drop_check, grads

PID = "N01"
LEVEL = "model_checking"
CHUNK = {"quick": 40, "thorough": 60}
BOUNDS = {
    "quick": "all graphs on 4 vertices, all graphs with loops on 3 vertices, all digraphs on 3 vertices (with loops on a third of them), all 2x3 and 3x2 bipartite graphs, edges inserted in non-sorted order with distinct weights, with and without implicit loops: every aggregation x direction x (stored weights, three caller-supplied weight vectors), gradients of features and weights for every aggregation, GCN smoothing, Laplacian smoothing with every Laplacian, before and after 1-2 edits (including reversal and side switch); every drop mask of the sum on structures with <=6 stored entries, of mean, softmax, caller-supplied weights and GCN smoothing on structures with <=4; 27 fixed structures of 11-24 vertices (drop outcomes with at most one draw different from three base outcomes); fixed structures of 72 and 140 vertices; all assignments of the weights 1e-8, 1e-3, 1, 1e5 to three edges",
    "thorough": "quick + all digraphs with loops on 3 vertices, all graphs with loops on 4 vertices, all graphs on 5 vertices, all 3x3 bipartite graphs, all pairs of edits",
}
ASSUME = ["stored weights positive; caller-supplied weights non-zero with non-zero sums for the mean (any sign for sum and softmax)", "with a drop rate, whether the mean divides by the full or the remaining degree and whether a dropped message stays in the softmax with logit 0 is left open (one reading must fit all outcomes)"]
W = [2.0, 0.5, 3.0, 4.0, 1.5, 0.25, 5.0, 1.0, 2.5, 0.75, 3.5, 1.25]
XS = {n: [[((7 * i + 3 * j) % 11) - 4.0 + i for j in range(2)] for i in range(n)] for n in range(1, 310)}


def subsets(xs):
    return itertools.chain.from_iterable(itertools.combinations(xs, k) for k in range(len(xs) + 1))


def mix(es):
    """a fixed non-sorted insertion order"""
    return [list(e) for e in (es[1::2] + es[0::2])[::-1]]


def cases(tier):
    th = tier == "thorough"
    P = lambda n: list(itertools.combinations(range(n), 2))
    L = lambda n: [(a, b) for a in range(n) for b in range(a, n)]
    D = lambda n: [(a, b) for a in range(n) for b in range(n)]
    spaces = [("Graph", 4, P(4)), ("Graph", 4 if th else 3, L(4 if th else 3)), ("Graph", 2, L(2)), ("Graph", 1, L(1))] + ([("Graph", 5, P(5))] if th else [])
    for cls, n, edges in spaces:
        for es in subsets(edges):
            for extra in (False, True):
                if not (extra and any(a == b for a, b in es)):
                    yield [[cls, n, extra], mix(es)]
    for i, es in enumerate(subsets(D(3))):
        if th or i % 3 == 0 or not any(a == b for a, b in es):
            yield [["DiGraph", 3, False], mix(es)]
    for es in subsets([e for e in D(3) if e[0] != e[1]]):
        yield [["DiGraph", 3, True], mix(es)]
    for nu, nv in [(2, 3), (3, 2), (1, 1), (1, 3)] + ([(3, 3), (4, 2)] if th else []):
        for es in subsets(list(itertools.product(range(nu), range(nv)))):
            yield [["BiGraph", nu, nv], mix(es)]
    for kind in ("Graph", "DiGraph", "BiGraph"):
        for init, ops, _ in big.magnitudes(kind):
            yield ["mag", init, ops]
        for n in (11, 14, 24) + ((40,) if th else ()):
            for s in range(3 if not th else 10):
                yield ["big", kind, n, s]
        for n in (72, 140):
            yield ["big", kind, n, n % 5]


def edits(cls, es):
    r = []
    if es:
        r.append([["remove", [es[0]]]])
    if cls == "Graph":
        r += [[["add", [[1, 0]], [7.0], "sum"]], [["xloop"]], [["rmloop"]], [["clear"], ["add", [[0, 1]], [2.0], "mean"]]]
    elif cls == "DiGraph":
        r += [[["rev"]], [["add", [[1, 0], [2, 1]], [7.0, 3.0], "sum"]], [["rev"], ["add", [[0, 2]], [6.0], "max"]], [["xloop"]]]
    else:
        r += [[["switch"]], [["add", [[0, 0]], [7.0], "sum"]], [["switch"], ["add", [[0, 0]], [6.0], "sum"]]]
    return r


def paths(obj, m):
    """directions: name -> (call, number of senders, number of receivers, stored dense weights, (receiver, sender) of every exposed path, degree)"""
    ints = lambda t: [int(x) for x in t.reshape(-1)]
    if m.kind == "Graph":
        idx = list(zip(ints(obj.e_dst), ints(obj.e_src)))
        return {"v2v": (lambda X, **k: obj.v2v(X, **k), m.A(), idx)}
    if m.kind == "DiGraph":
        s, d = ints(obj.e_src), ints(obj.e_dst)
        A = m.A()
        return {"dst2src": (lambda X, **k: obj.v2v(X, direction="dst2src", **k), A, list(zip(s, d))),
                "default": (lambda X, **k: obj.v2v(X, **k), A, list(zip(s, d))),
                "src2dst": (lambda X, **k: obj.v2v(X, direction="src2dst", **k), A.T, list(zip(d, s)))}
    u, v = ints(obj.e_u), ints(obj.e_v)
    B = m.B()
    return {"u2v": (lambda X, **k: obj.u2v(X, **k), B.T, list(zip(v, u))), "v2u": (lambda X, **k: obj.v2u(X, **k), B, list(zip(u, v)))}


def check(obj, m, ctx, where):
    import torch

    for name, (call, S, idx) in paths(obj, m).items():
        R, N = S.shape
        mask = S != 0
        ctx.check(sorted(idx) == sorted(zip(*map(lambda a: a.tolist(), np.nonzero(S)))), "paths", lambda: f"{where}: {name} exposed paths {idx}")
        X = torch.tensor(XS[N])
        X0 = X.clone()
        n = len(idx)
        wsets = [None]
        if n:
            wsets += [[W[(3 * i + 1) % 12] for i in range(n)], [1.0] * n, [((5 * i) % 7 - 3.0) or 1.0 for i in range(n)], [1e-4 * W[(5 * i + 2) % 12] for i in range(n)], [300.0 * W[(7 * i) % 12] for i in range(n)], [-W[(7 * i + 3) % 12] for i in range(n)]]
        for wi, w in enumerate(wsets):
            Pm = S
            kw = {}
            if w is not None:
                Pm = np.zeros_like(S)
                for (r, s), x in zip(idx, w):
                    Pm[r, s] = x
                kw = dict(e_weight=torch.tensor(w))
            for aggr in ("mean", "sum", "softmax_then_sum"):
                if aggr == "mean" and wi == 3:
                    continue
                exp = aggregate(Pm, mask, XS[N], aggr)
                got = dense(call(X, aggr=aggr, **kw))
                ctx.step()
                mag = 1e-4 if wi == 4 and aggr == "sum" else min(1.0, float(S.max())) if w is None and aggr == "sum" and n else 1.0
                ctx.check(close(got / mag, exp / mag), f"{name}:{aggr}:{'stored' if w is None else 'given'}", lambda: f"{where}: {name} aggr={aggr} e_weight={w}\n   got {show(got)}\n   expected {show(exp)}")
            if wi == 0:
                ctx.check(close(dense(call(X)), aggregate(S, mask, XS[N], "mean")), f"{name}:default", lambda: f"{where}: {name} with default aggregation")
            ctx.count(f"{m.kind}.{name}")
        if n:
            Xg = X.clone().requires_grad_(True)
            w = torch.tensor(wsets[1]).requires_grad_(True)
            c = torch.arange(1.0, R * 2 + 1).reshape(R, 2)
            (call(Xg, aggr="sum", e_weight=w) * c).sum().backward()
            cn = c.numpy().astype(float)
            Pw = np.zeros_like(S)
            for (r, s), x in zip(idx, wsets[1]):
                Pw[r, s] = x
            ctx.check(Xg.grad is not None and close(dense(Xg.grad), Pw.T @ cn), f"{name}:grad-X", lambda: f"{where}: {name} gradient of the features {Xg.grad}")
            gw = np.array([float(np.dot(cn[r], np.array(XS[N])[s])) for r, s in idx])
            ctx.check(w.grad is not None and close(dense(w.grad), gw), f"{name}:grad-w", lambda: f"{where}: {name} gradient of the weights {w.grad}, expected {gw}")
            for aggr, given in itertools.product(("mean", "sum", "softmax_then_sum"), (False, True)):
                got, exp = grads(lambda x, **k: call(x, aggr=aggr, **k), "e_weight", X, wsets[1] if given else None, aggr, S, idx, c)
                for k, a, b in zip(("features", "weights"), got, exp):
                    ctx.check(a is not None and close(dense(a), dense(b), rtol=1e-3, atol=1e-4 * max(1.0, float(b.abs().max()))), f"{name}:grad:{aggr}:{k}", lambda: f"{where}: {name} {aggr} {'given' if given else 'stored'} weights: gradient of the {k} {a}, expected {b}")
            for bad in ([1.0] * (n + 1), [1.0] * (n - 1)):
                try:
                    call(X, aggr="sum", e_weight=torch.tensor(bad))
                except structs.REJECTED + (RuntimeError,):
                    continue
                ctx.fail(f"{name}:not-rejected", f"{where}: {name} accepted {len(bad)} weights for {n} paths")
        try:
            call(X, aggr="median")
        except structs.REJECTED:
            pass
        else:
            ctx.fail("not-rejected", f"{where}: unknown aggregation accepted")
        ctx.check(torch.equal(X, X0), "input-changed", f"{where}: {name} changed the features")
    N = m.n if m.kind != "BiGraph" else m.nu + m.nv
    X = torch.tensor(XS[N])
    Xn = np.array(XS[N])
    lap = {}
    if m.kind == "Graph":
        A = m.A(extra=True)
        lap = {n: getattr(obj, n) for n in ("L", "L_sym", "L_rw", "L_GCN")}
        A0 = m.A(loops=False)
        d0 = A0.sum(1)
        lapm = {"L": np.diag(d0) - A0, "L_sym": np.eye(N) - np.diag(structs.inv_pow(d0, -0.5)) @ A0 @ np.diag(structs.inv_pow(d0, -0.5)), "L_rw": np.eye(N) - np.diag(structs.inv_pow(d0, -1)) @ A0}
    elif m.kind == "BiGraph":
        A = np.eye(N)
        A[: m.nu, m.nu:] += m.B()
        A[m.nu:, : m.nu] += m.B().T
        lap, lapm = {"L_GCN": obj.L_GCN}, {}
    else:
        return
    s = structs.inv_pow(A.sum(1), -0.5)
    G = s[:, None] * A * s
    lapm["L_GCN"] = G
    got = dense(obj.smoothing_with_GCN(X))
    ctx.check(close(got, G @ Xn), "smoothing_with_GCN", lambda: f"{where}: smoothing_with_GCN got {show(got)}, expected {show(G @ Xn)}")
    import torch

    xg = X.clone().requires_grad_(True)
    c = torch.arange(1.0, X.numel() + 1).reshape(X.shape)
    (obj.smoothing_with_GCN(xg) * c).sum().backward()
    ctx.check(xg.grad is not None and close(dense(xg.grad), G.T @ dense(c)), "smoothing_with_GCN:gradient", lambda: f"{where}: gradient of smoothing_with_GCN {xg.grad}")
    ctx.check(close(dense(obj.smoothing_with_GCN(X, 0.0)), G @ Xn), "smoothing_with_GCN", where)
    for n, L in lap.items():
        for lam in (0.5, -1.0, 0.0):
            got = dense(obj.smoothing(X, L, lam))
            ctx.step()
            ctx.check(close(got, Xn + lam * lapm[n] @ Xn), f"smoothing:{n}", lambda: f"{where}: smoothing with {n}, {lam} got {show(got)}")
    ctx.check(close(dense(X), Xn), "input-changed", f"{where}: smoothing changed the features")


def masks(obj, m, ctx, where):
    """sum with a drop rate: every subset of the stored entries with its probability"""
    import torch

    for name, (call, S, idx) in paths(obj, m).items():
        n = len(idx)
        if not 1 <= n <= 6:
            continue
        X = torch.tensor([[float(3 ** i)] for i in range(S.shape[1])])
        rate = 0.25
        r = rng.explore(lambda: tuple(round(float(x), 3) for x in call(X, aggr="sum", drop_rate=rate).reshape(-1)), grid=4, budget=600)
        exp = {}
        for keep in itertools.product((0, 1), repeat=n):
            Pm = np.zeros_like(S)
            p = 1.0
            for (a, b), k in zip(idx, keep):
                Pm[a, b] = S[a, b] * k
                p *= (1 - rate) if k else rate
            v = tuple(round(float(x), 3) for x in (Pm @ dense(X)).reshape(-1))
            exp[v] = exp.get(v, 0) + p
        ctx.step(r.execs)
        ctx.count("drop-masks", r.execs)
        for v in {v for _, v in r.leaves}:
            ctx.check(v in exp, f"{name}:drop", lambda: f"{where}: {name} drop_rate={rate}: outcome {v} keeps no subset of the paths")
        if not r.uncontrolled:
            for v, p in r.dist().items():
                ctx.check(abs(p - exp[v]) <= r.truncated + 1e-4, f"{name}:drop-probability", lambda: f"{where}: {name} outcome {v} has probability {p}, expected {exp[v]}")


def more_masks(obj, m, ctx, where):
    """every drop outcome of mean and softmax, of caller-supplied weights, and of GCN smoothing (structures with few stored entries)"""
    import torch

    for name, (call, S, idx) in paths(obj, m).items():
        n = len(idx)
        if not 1 <= n <= 4:
            continue
        X = torch.eye(S.shape[1])
        given = [W[(3 * i + 1) % 12] for i in range(n)]
        P = np.zeros_like(S)
        for (a, b), x in zip(idx, given):
            P[a, b] = x
        for aggr in ("sum", "mean", "softmax_then_sum"):
            for rate in (0.25, 0.5):
                if aggr != "sum":
                    drop_check(ctx, f"{name}:{aggr}", f"{where}: {name} {aggr}", lambda: call(X, aggr=aggr, drop_rate=rate), S, idx, aggr, rate)
                drop_check(ctx, f"{name}:{aggr}:given", f"{where}: {name} {aggr} e_weight {given}", lambda: call(X, aggr=aggr, drop_rate=rate, e_weight=torch.tensor(given)), P, idx, aggr, rate)
    if m.kind in ("Graph", "BiGraph"):
        G = gcn(m)
        idx = list(zip(*[a.tolist() for a in np.nonzero(G)]))
        if len(idx) <= 5:
            drop_check(ctx, "smoothing_with_GCN", f"{where}: smoothing_with_GCN", lambda: obj.smoothing_with_GCN(torch.eye(len(G)), 0.25), G, idx, "sum", 0.25)


def gcn(m):
    if m.kind == "Graph":
        A = m.A(extra=True)
    else:
        A = np.eye(m.nu + m.nv)
        A[: m.nu, m.nu:] += m.B()
        A[m.nu:, : m.nu] += m.B().T
    s = structs.inv_pow(A.sum(1), -0.5)
    return s[:, None] * A * s


def deviations(obj, m, ctx, where):
    """larger structures: every outcome with at most one draw different from all-first, all-last and a mixed pattern"""
    import torch

    for name, (call, S, idx) in paths(obj, m).items():
        X = torch.eye(S.shape[1])
        fn = lambda: dense(call(X, aggr="sum", drop_rate=0.5))
        seen, controlled = [], True
        for base in ("first", "last", 3):
            for devs, got in rng.deviate(fn, base, bound=1, stride=max(1, len(idx) // 25)):
                if devs is None:
                    controlled = False
                    continue
                ctx.step()
                ok = (np.abs(got) < 1e-6) | (np.abs(got - S) < 1e-4)
                ctx.check(ok.all(), f"{name}:drop", lambda: f"{where}: {name} drop_rate=0.5: entry {np.argwhere(~ok)[:3].tolist()} is neither kept nor dropped")
                seen.append(np.abs(got) > 1e-6)
        if controlled and len(idx) <= 25:
            sig = {p: tuple(bool(s[p]) for s in seen) for p in idx}
            ctx.check(all(len(set(v)) == 2 for v in sig.values()) and len(set(sig.values())) == len(sig), f"{name}:drop-coupled", lambda: f"{where}: {name}: some messages are never, always or only together dropped")
        elif controlled:
            allk = np.array(seen)
            for r, s in idx:
                ctx.check(len(set(allk[:, r, s].tolist())) == 2, f"{name}:drop-stuck", lambda: f"{where}: {name}: message {s}->{r} is always kept or always dropped")


def run_big(case, ctx):
    _, kind, n, s = case
    init, ops = big.base(kind, n, s, 6)
    if kind != "BiGraph":
        init[2] = False
        ops = [o for o in ops if o[0] != "xloop"]
    obj, m = big.build(init, ops)
    base = structs.snapshot(obj, store_only=True)
    where = f"{init} {ops}"
    check(obj, m, ctx, where)
    deviations(obj, m, ctx, where)
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "structure-changed", where)
    ctx.state(m.key())
    ctx.trace()


def run(case, ctx):
    if case[0] == "big":
        return run_big(case, ctx)
    if case[0] == "mag":
        obj, m = big.build(case[1], case[2])
        check(obj, m, ctx, str(case))
        ctx.state(m.key())
        return ctx.trace()
    init, es = case
    obj, m = structs.new(init)
    if es:
        op = ["add", es, [W[i % len(W)] for i in range(len(es))], "mean"]
        obj = structs.apply_real(obj, op)
        m.apply(op)
    where = str(case)
    base = structs.snapshot(obj, store_only=True)
    check(obj, m, ctx, where)
    masks(obj, m, ctx, where)
    more_masks(obj, m, ctx, where)
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "structure-changed", where)
    ctx.state(m.key())
    ctx.outcome(m.key())
    if sum(init[1:3]) > 1 and (init[0] == "BiGraph" or init[1] > 2) and init[1:] != [1, 1]:
        for ops in edits(init[0], es):
            if ops[0][0] == "xloop" and (m.loops or m.extra):
                continue
            o2, m2 = obj.clone(), m.copy()
            for op in ops:
                o2 = structs.apply_real(o2, op)
                m2.apply(op)
            if getattr(m2, "extra", False) and m2.loops:
                continue
            check(o2, m2, ctx, f"{where} read, cloned, then {ops}")
            ctx.state(m2.key())
        check(obj, m, ctx, f"{where} after editing its clones")
    ctx.trace()
