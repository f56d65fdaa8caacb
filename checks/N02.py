"""Hypergraph message passing (whole and per group) against its dense definition."""
import itertools

import numpy as np

from mc import big, rng, structs
from mc.cmp import close, dense, show
from mc.mp import aggregate, drop_check, grads

PID = "N02"
LEVEL = "model_checking"
CHUNK = {"quick": 20, "thorough": 40}
BOUNDS = {
    "quick": "every set of <=2 hyperedges on 4 vertices in every split over 2 groups and every set of 3 hyperedges on 3 vertices in 2 splits, weighted, vertex order inside hyperedges and group creation order permuted: v2e/e2v aggregation, update, full pass and v2v with every aggregation (and pair of stage aggregations) x stored or given path weights x stored or given hyperedge weights, whole and per group, gradients, HGNN and Laplacian smoothing with every Laplacian; before and after edits (add to either group, remove, remove group); every drop mask for <=5 incidences and every override of the stage drop rates; 12 fixed hypergraphs of 9-24 vertices and up to 8 groups; fixed hypergraphs of 72 and 140 vertices; all assignments of the weights 1e-8, 1e-3, 1, 1e5 to three hyperedges",
    "thorough": "quick + every set of 3 hyperedges on 4 vertices in every split, every set of 4 on 3 vertices, every set of <=2 on 5 vertices",
}
ASSUME = ["stored weights positive; given weights non-zero with non-zero sums for the mean", "the hyperedge-to-vertex mean divides by the weighted vertex degree (hyperedge weights are applied in the hyperedge update), as documented"]
W = [2.0, 0.5, 3.0, 4.0, 1.5, 0.25, 5.0, 1.0, 2.5, 0.75, 3.5, 1.25, 6.0, 7.0, 1.75, 0.125]
AG = ("mean", "sum", "softmax_then_sum")


def X(n):
    return [[((7 * i + 3 * j) % 11) - 4.0 + i for j in range(2)] for i in range(n)]


def cases(tier):
    th = tier == "thorough"
    sub = lambda n: [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    yield [4, [], []]
    for n, ks in ((4, (1, 2, 3) if th else (1, 2)), (3, (3, 4) if th else (3,)), (5, (2,) if th else ())):
        for k in ks:
            for es in itertools.combinations(sub(n), k):
                splits = [("b",) * k, ("b", "a", "b", "a")[:k]] if k > 2 and not th or k > 3 else list(itertools.product("ba", repeat=k))
                if n == 5:
                    splits = splits[:2]
                for sp in splits:
                    yield [n, [list(e) for e in es], list(sp)]
    for es in itertools.combinations(sub(4), 2):  # same hyperedge in both groups
        yield [4, [es[1], es[0], es[1]], ["b", "b", "a"]]
    for n in (9, 11, 14, 24) + ((40,) if th else ()):
        for s in range(3 if not th else 10):
            yield ["big", n, s]
    for n in (72, 140):
        yield ["big", n, n % 5]
    for init, ops, _ in big.magnitudes("Hypergraph"):
        yield ["mag", init, ops]


def wgt(n, k):
    """deterministic non-zero weights, variant k"""
    return [W[(5 * i + k) % 16] for i in range(n)]


def sgn(n):
    return [((5 * i) % 7 - 3.0) or 1.0 for i in range(n)]


def check(obj, m, ctx, where, deep):
    import torch

    n = m.n
    ints = lambda t: [int(x) for x in t.reshape(-1)]
    T = torch.tensor
    for g in [None] + list(obj.group_names):
        edges = structs.real_edges(obj, g)
        ne = len(edges)
        if g is not None and sorted(edges) != sorted((e, float(w)) for e, w in m.G[g].items()):
            ctx.fail("store", f"{where}: group {g} holds {edges}")
        H = m.H(edges)
        w = np.array([x for _, x in edges])
        W_e = np.diag(w) if ne else np.zeros((0, 0))
        dv = (H * w).sum(1) if ne else np.zeros(n)
        tag = "whole" if g is None else "group"

        def call(name, *a, g=g, **k):
            ctx.step()
            return getattr(obj, name)(*a, **k) if g is None else getattr(obj, name + "_of_group")(g, *a, **k)

        def attr(name, g=g):
            return getattr(obj, name) if g is None else getattr(obj, name + "_of_group")(g)

        def eq(got, exp, sig, what):
            got = dense(got)
            ctx.check(close(got, exp), f"{tag}:{sig}", lambda: f"{where}: {what} (group {g}; hyperedges {edges})\n   got {show(got)}\n   expected {show(exp)}")

        Xv, Xe = X(n), X(ne) if ne else np.zeros((0, 2))
        tv, te = T(Xv), T(Xe) if ne else torch.zeros(0, 2)
        npath = int(H.sum())
        v2e_idx = list(zip(ints(attr("v2e_dst")), ints(attr("v2e_src"))))
        e2v_idx = list(zip(ints(attr("e2v_dst")), ints(attr("e2v_src"))))

        def mat(shape, idx, ws):
            P = np.zeros(shape)
            for (r, s), x in zip(idx, ws):
                P[r, s] = x
            return P

        stage = {}
        for name, S, idx, x, xt, deg in (("v2e", H.T, v2e_idx, Xv, tv, None), ("e2v", H, e2v_idx, Xe, te, dv)):
            pw = name + "_weight"
            for k in (None, 0, 3, "s", "tiny", "huge", "neg"):
                ws = None if k is None else sgn(npath) if k == "s" else wgt(npath, k) if isinstance(k, int) else [{"tiny": 1e-4, "huge": 300.0, "neg": -1.0}[k] * x for x in wgt(npath, 5)]
                P = S if ws is None else mat(S.shape, idx, ws)
                for aggr in AG:
                    if aggr == "mean" and k == "s":
                        continue
                    A = aggregate(P, S != 0, x, aggr, deg=deg if ws is None else None)
                    kw = {} if ws is None else {pw: T(ws)}
                    if not (ne == 0 and ws is not None):
                        eq(call(name + "_aggregation", xt, aggr, **kw), A, f"{name}_aggregation:{aggr}", f"{name}_aggregation {aggr} weights {ws}")
                        if name == "e2v":
                            eq(call("e2v", xt, aggr, **kw), A, f"e2v:{aggr}", f"e2v {aggr} weights {ws}")
                        else:
                            eq(call("v2e", xt, aggr, **kw), W_e @ A if ne else A, f"v2e:{aggr}", f"v2e {aggr} weights {ws}")
                            if ne:
                                ew = wgt(ne, 7)
                                eq(call("v2e", xt, aggr, e_weight=T(ew), **kw), np.diag(ew) @ A, f"v2e:{aggr}:e_weight", f"v2e {aggr} weights {ws} e_weight {ew}")
                    stage[name, aggr, k] = P
            ctx.count(name + ("" if g is None else "_of_group"))
        eq(call("v2e_aggregation", tv), aggregate(H.T, H.T != 0, Xv, "mean"), "default", "v2e_aggregation default")
        eq(call("e2v_aggregation", te), aggregate(H, H != 0, Xe, "mean", deg=dv), "default", "e2v_aggregation default")
        eq(call("v2e_update", te), W_e @ np.array(Xe) if ne else np.array(Xe), "v2e_update", "v2e_update")
        eq(call("e2v_update", tv), np.array(Xv), "e2v_update", "e2v_update")

        def v2v(a1, k1, ew, a2, k2):
            Y = aggregate(stage["v2e", a1, k1], H.T != 0, Xv, a1)
            Y = (np.diag(ew) if ew is not None else W_e) @ Y if ne else Y
            return aggregate(stage["e2v", a2, k2], H != 0, Y, a2, deg=dv if k2 is None else None)

        combos = list(itertools.product(AG, AG)) if deep else [(a, a) for a in AG] + [("sum", "mean"), ("mean", "softmax_then_sum")]
        for a1, a2 in combos:
            for k1, ew, k2 in ((None, None, None), (0, None, None), (None, wgt(ne, 7), None), (None, None, 3), (3, wgt(ne, 2), 0)):
                if ne == 0 and (k1 is not None or ew is not None or k2 is not None):
                    continue
                if not deep and k1 is None and ew is None and k2 is not None:
                    continue
                kw = {}
                if k1 is not None:
                    kw["v2e_weight"] = T(wgt(npath, k1))
                if ew is not None:
                    kw["e_weight"] = T(ew)
                if k2 is not None:
                    kw["e2v_weight"] = T(wgt(npath, k2))
                exp = v2v(a1, k1, ew, a2, k2)
                if a1 == a2:
                    eq(call("v2v", tv, a1, **kw), exp, "v2v", f"v2v {a1} {kw}")
                eq(call("v2v", tv, v2e_aggr=a1, e2v_aggr=a2, **kw), exp, "v2v-stages", f"v2v stages {a1}/{a2} {kw}")
                other = AG[(AG.index(a2) + 1) % 3]
                eq(call("v2v", tv, aggr=a2, v2e_aggr=a1, **kw), exp, "v2v-override-first", f"v2v aggr {a2} v2e_aggr {a1} {kw}")
                eq(call("v2v", tv, aggr=a1, e2v_aggr=a2, **kw), exp, "v2v-override-second", f"v2v aggr {a1} e2v_aggr {a2} {kw}")
                if deep:
                    eq(call("v2v", tv, aggr=other, v2e_aggr=a1, e2v_aggr=a2, **kw), exp, "v2v-override-both", f"v2v aggr {other} stages {a1}/{a2} {kw}")
        eq(call("v2v", tv), v2v("mean", None, None, "mean", None), "default", "v2v default")
        # smoothing
        inv = lambda d, p: np.diag(structs.inv_pow(d, p))
        De = inv(H.sum(0), -1)
        core = H @ W_e @ De @ H.T if ne else np.zeros((n, n))
        Lh = inv(dv, -0.5) @ core @ inv(dv, -0.5)
        eq(call("smoothing_with_HGNN", tv), Lh @ np.array(Xv), "smoothing_with_HGNN", "smoothing_with_HGNN")
        for ln, L in (("L_HGNN", Lh), ("L_sym", np.eye(n) - Lh), ("L_rw", np.eye(n) - inv(dv, -1) @ core)):
            eq(obj.smoothing(tv, attr(ln), 0.5), np.array(Xv) + 0.5 * L @ np.array(Xv), "smoothing", f"smoothing {ln}")
        if ne:
            c = torch.arange(1.0, n * 2 + 1).reshape(n, 2)
            cn = dense(c)
            xg = tv.clone().requires_grad_(True)
            w1, w2 = T(wgt(npath, 0)).requires_grad_(True), T(wgt(npath, 3)).requires_grad_(True)
            we = T(wgt(ne, 2)).requires_grad_(True)
            (call("v2v", xg, "sum", v2e_weight=w1, e_weight=we, e2v_weight=w2) * c).sum().backward()
            P1, P2, E = stage["v2e", "sum", 0], stage["e2v", "sum", 3], np.diag(wgt(ne, 2))
            eq(xg.grad, P1.T @ E @ P2.T @ cn, "grad-X", "gradient of the features")
            back = E @ P2.T @ cn
            eq(w1.grad, np.array([back[r] @ np.array(Xv)[s] for r, s in v2e_idx]), "grad-v2e_weight", "gradient of v2e weights")
            Y = E @ P1 @ np.array(Xv)
            eq(w2.grad, np.array([cn[r] @ Y[s] for r, s in e2v_idx]), "grad-e2v_weight", "gradient of e2v weights")
            eq(we.grad, ((P2.T @ cn) * (P1 @ np.array(Xv))).sum(1), "grad-e_weight", "gradient of hyperedge weights")
            for (name, S, idx, xt, deg), aggr, given in itertools.product((("v2e_aggregation", H.T, v2e_idx, tv, None), ("e2v_aggregation", H, e2v_idx, te, dv)), AG, (False, True)):
                cc = torch.arange(1.0, S.shape[0] * 2 + 1).reshape(-1, 2)
                got, exp = grads(lambda x, **k: call(name, x, aggr, **k), name[:3] + "_weight", xt, wgt(npath, 3) if given else None, aggr, S, idx, cc, None if given else deg)
                for k, a, b in zip(("features", "weights"), got, exp):
                    ctx.check(a is not None and close(dense(a), dense(b), rtol=1e-3, atol=1e-4 * max(1.0, float(b.abs().max()))), f"{tag}:grad:{name}:{aggr}:{k}", lambda: f"{where}: {name} {aggr} {'given' if given else 'stored'} weights (group {g}; hyperedges {edges}): gradient of the {k} {a}, expected {b}")
            xg = tv.clone().requires_grad_(True)
            (call("smoothing_with_HGNN", xg) * c).sum().backward()
            eq(xg.grad, Lh.T @ cn, "grad-smoothing", "gradient of smoothing_with_HGNN")
            for bad in (dict(v2e_weight=T([1.0] * (npath + 1))), dict(e2v_weight=T([1.0] * (npath + 1))), dict(e_weight=T([1.0] * (ne + 1)))):
                try:
                    call("v2v", tv, **bad)
                except structs.REJECTED + (RuntimeError,):
                    continue
                ctx.fail("not-rejected", f"{where}: {list(bad)} of wrong length accepted (group {g})")
        ctx.check(close(dense(tv), np.array(Xv)) and (ne == 0 or close(dense(te), np.array(Xe))), "input-changed", where)


def masks(obj, m, ctx, where):
    import torch

    for g in [None] + list(obj.group_names):
        edges = structs.real_edges(obj, g)
        H = m.H(edges)
        idx = list(zip(*[a.tolist() for a in np.nonzero(H)]))
        n = len(idx)
        if not 1 <= n <= 5:
            continue
        fn = (lambda nm, *a, **k: getattr(obj, nm)(*a, **k)) if g is None else (lambda nm, *a, **k: getattr(obj, nm + "_of_group")(g, *a, **k))
        Xv = torch.tensor([[float(3 ** i)] for i in range(m.n)])
        Xe = torch.tensor([[float(3 ** i)] for i in range(len(edges))])
        w = np.array([x for _, x in edges])
        rate = 0.25
        D = lambda keep: sum(np.eye(1, H.size, i * H.shape[1] + j).reshape(H.shape) for (i, j), k in zip(idx, keep) if k) + np.zeros(H.shape)
        rd = lambda t: tuple(round(float(x), 3) for x in t.reshape(-1))
        probs = {keep: rate ** (n - sum(keep)) * (1 - rate) ** sum(keep) for keep in itertools.product((0, 1), repeat=n)}
        progs = [("v2e", lambda: fn("v2e", Xv, "sum", drop_rate=rate), lambda k: rd(np.diag(w) @ D(k).T @ dense(Xv))),
                 ("e2v", lambda: fn("e2v", Xe, "sum", drop_rate=rate), lambda k: rd(D(k) @ dense(Xe))),
                 ("v2v-first", lambda: fn("v2v", Xv, "sum", v2e_drop_rate=rate), lambda k: rd(H @ np.diag(w) @ D(k).T @ dense(Xv))),
                 ("v2v-second", lambda: fn("v2v", Xv, "sum", drop_rate=rate, v2e_drop_rate=0.0), lambda k: rd(D(k) @ np.diag(w) @ H.T @ dense(Xv))),
                 ("v2v-first-only", lambda: fn("v2v", Xv, "sum", drop_rate=rate, e2v_drop_rate=0.0), lambda k: rd(H @ np.diag(w) @ D(k).T @ dense(Xv)))]
        for name, call, model in progs:
            exp = {}
            for keep, p in probs.items():
                v = model(keep)
                exp[v] = exp.get(v, 0) + p
            r = rng.explore(lambda: rd(call()), grid=4, budget=400)
            ctx.step(r.execs)
            ctx.count("drop-masks", r.execs)
            for _, v in r.leaves:
                ctx.check(v in exp, f"{name}:drop", lambda: f"{where}: {name} drop_rate={rate} (group {g}): outcome {v} keeps no subset of the paths of that stage")
            if not r.uncontrolled:
                for v, p in r.dist().items():
                    ctx.check(abs(p - exp[v]) <= r.truncated + 1e-4, f"{name}:drop-probability", lambda: f"{where}: {name} outcome {v} has probability {p}, expected {exp[v]} (group {g})")


def more_masks(obj, m, ctx, where):
    """every drop outcome of each stage with mean and softmax and with given path weights, of the whole pass with both stages dropping, and of HGNN smoothing"""
    import torch

    ints = lambda t: [int(x) for x in t.reshape(-1)]
    T = torch.tensor
    for g in [None] + list(obj.group_names):
        edges = structs.real_edges(obj, g)
        H = m.H(edges)
        if not 1 <= H.sum() <= 4:
            continue
        fn = (lambda nm, *a, **k: getattr(obj, nm)(*a, **k)) if g is None else (lambda nm, *a, **k: getattr(obj, nm + "_of_group")(g, *a, **k))
        at = lambda nm: getattr(obj, nm) if g is None else getattr(obj, nm + "_of_group")(g)
        dv = (H * np.array([x for _, x in edges])).sum(1)
        ew = np.diag([x for _, x in edges])
        for nm, S, deg in (("v2e", H.T, None), ("e2v", H, dv)):
            idx = list(zip(ints(at(nm + "_dst")), ints(at(nm + "_src"))))
            given = wgt(len(idx), 3)
            P = np.zeros_like(S)
            for (a, b), x in zip(idx, given):
                P[a, b] = x
            I = torch.eye(S.shape[1])
            post = (lambda Y: ew @ Y) if nm == "v2e" else None
            for aggr in AG:
                for kw, Q, dg, tag in (({}, S, deg, "stored"), ({nm + "_weight": T(given)}, P, None, "given")):
                    for f, ps in ((nm, post),) if aggr != "mean" else ((nm + "_aggregation", None),):
                        if (aggr, tag) == ("sum", "stored"):
                            continue
                        drop_check(ctx, f"{f}:{aggr}:{tag}", f"{where}: {f} {aggr} {tag} weights (group {g})", lambda: fn(f, I, aggr, drop_rate=0.25, **kw), Q, idx, aggr, 0.25, post=ps, deg=dg)
        if H.sum() <= 3:
            # both stages drop, at different rates
            idx = list(zip(*[a.tolist() for a in np.nonzero(H)]))
            D = lambda keep: sum((np.eye(1, H.size, i * H.shape[1] + j).reshape(H.shape) for (i, j), k in zip(idx, keep) if k), np.zeros(H.shape))
            for kw, p1, p2 in ((dict(drop_rate=0.25), 0.25, 0.25), (dict(drop_rate=0.75, v2e_drop_rate=0.25, e2v_drop_rate=0.5), 0.25, 0.5), (dict(drop_rate=0.5, v2e_drop_rate=0.75), 0.75, 0.5), (dict(drop_rate=0.5, e2v_drop_rate=0.75), 0.5, 0.75))[g is None :: 2]:
                exp = {}
                for k1 in itertools.product((0, 1), repeat=len(idx)):
                    for k2 in itertools.product((0, 1), repeat=len(idx)):
                        v = tuple(np.round((D(k2) @ ew @ D(k1).T).reshape(-1), 3).tolist())
                        exp[v] = exp.get(v, 0) + (1 - p1) ** sum(k1) * p1 ** (len(idx) - sum(k1)) * (1 - p2) ** sum(k2) * p2 ** (len(idx) - sum(k2))
                r = rng.explore(lambda: tuple(np.round(dense(fn("v2v", torch.eye(m.n), "sum", **kw)).reshape(-1), 3).tolist()), grid=4, budget=400)
                ctx.step(r.execs)
                for _, v in r.leaves:
                    ctx.check(v in exp, "v2v-both:drop", lambda: f"{where}: v2v {kw} (group {g}): outcome {v} drops no subset of the paths of each stage")
                if not r.uncontrolled:
                    for v, p in r.dist().items():
                        ctx.check(abs(p - exp[v]) <= r.truncated + 1e-4, "v2v-both:drop-probability", lambda: f"{where}: v2v {kw} outcome {v} has probability {p}, expected {exp[v]} (group {g})")
        inv = lambda d, p: np.diag(structs.inv_pow(d, p))
        L = inv(dv, -0.5) @ H @ ew @ inv(H.sum(0), -1) @ H.T @ inv(dv, -0.5)
        L[np.abs(L) < 1e-12] = 0
        idx = list(zip(*[a.tolist() for a in np.nonzero(L)]))
        if len(idx) <= 5:
            drop_check(ctx, "smoothing_with_HGNN", f"{where}: smoothing_with_HGNN (group {g})", lambda: fn("smoothing_with_HGNN", torch.eye(m.n), 0.25), L, idx, "sum", 0.25)


def deviations(obj, m, ctx, where):
    import torch

    for g in [None] + list(obj.group_names)[:2]:
        edges = structs.real_edges(obj, g)
        H = m.H(edges)
        if not edges:
            continue
        fn = (lambda nm, *a, **k: getattr(obj, nm)(*a, **k)) if g is None else (lambda nm, *a, **k: getattr(obj, nm + "_of_group")(g, *a, **k))
        for name, call, S in (("v2e", lambda: dense(fn("v2e_aggregation", torch.eye(m.n), "sum", drop_rate=0.5)), H.T), ("e2v", lambda: dense(fn("e2v_aggregation", torch.eye(len(edges)), "sum", drop_rate=0.5)), H)):
            seen, controlled = [], True
            for base in ("first", "last", 3):
                for devs, got in rng.deviate(call, base, bound=1, stride=max(1, int(H.sum()) // 20)):
                    if devs is None:
                        controlled = False
                        continue
                    ctx.step()
                    ok = (np.abs(got) < 1e-6) | (np.abs(got - S) < 1e-4)
                    ctx.check(ok.all(), f"{name}:drop", lambda: f"{where}: {name} group {g}: entries neither kept nor dropped")
                    seen.append(np.abs(got) > 1e-6)
            if controlled:
                a = np.array(seen)
                stuck = (a.all(0) | ~a.any(0)) & (S != 0)
                ctx.check(not stuck.any(), f"{name}:drop-stuck", lambda: f"{where}: {name} group {g}: paths {np.argwhere(stuck)[:4].tolist()} are never or always dropped")


def run_big(case, ctx):
    _, n, s = case
    init, ops = big.base("Hypergraph", n, s, 6)
    obj, m = big.build(init, ops)
    where = f"{init} {ops}"
    base = structs.snapshot(obj, store_only=True)
    check(obj, m, ctx, where, deep=False)
    deviations(obj, m, ctx, where)
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "structure-changed", where)
    ctx.state(m.key())
    ctx.trace()


def run(case, ctx):
    if case[0] == "big":
        return run_big(case, ctx)
    if case[0] == "mag":
        obj, m = big.build(case[1], case[2])
        check(obj, m, ctx, str(case), deep=False)
        ctx.state(m.key())
        return ctx.trace()
    n, es, sp = case
    obj, m = structs.new(["Hypergraph", n, None])
    for i, (e, g) in enumerate(zip(es, sp)):
        op = ["add", [list(reversed(e))], [W[i % 4]], "mean", g]
        obj = structs.apply_real(obj, op)
        m.apply(op)
    where = f"hyperedges {es} in groups {sp}"
    base = structs.snapshot(obj, store_only=True)
    check(obj, m, ctx, where, deep=len(es) < 3)
    if sum(map(len, es)) <= 5 and len(es) < 3:
        masks(obj, m, ctx, where)
        more_masks(obj, m, ctx, where)
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "structure-changed", where)
    ctx.state(m.key())
    ctx.outcome(m.key())
    if es and (len(es) == 3 or len(es[0]) == 2):
        for ops in ([["remove", [es[0]], None]], [["add", [[0, n - 1]], [6.0], "sum", "a"]], [["rmgroup", "b"]], [["remove", [es[0]], sp[0]], ["add", [[0, 1, 2], es[-1]], [6.0, 0.5], "mean", "b"]]):
            o2, m2 = obj.clone(), m.copy()
            for op in ops:
                o2 = structs.apply_real(o2, op)
                m2.apply(op)
            check(o2, m2, ctx, f"{where} read, cloned, then {ops}", deep=False)
            ctx.state(m2.key())
    ctx.trace()


def shrink(case):
    if case[0] in ("big", "mag"):
        return
    n, es, sp = case
    for i in range(len(es)):
        yield [n, es[:i] + es[i + 1:], sp[:i] + sp[i + 1:]]
