"""Every convolution layer against its published formula, on every small structure and option setting."""
import itertools

import torch

from checks import C01
from mc import big, nnref, rng, structs
from mc.cmp import close, dense, show

PID = "N03"
LEVEL = "model_checking"
CHUNK = {"quick": 12, "thorough": 20}
BOUNDS = {
    "quick": "graphs: all on 3 vertices with loops, all on 4 vertices, 1-2 vertices, with and without implicit loops; hypergraphs: all sets of <=2 hyperedges on 4 vertices and of <=3 on 3 vertices, 1-2 vertices, weighted, in 1-2 groups: every layer x bias x batch norm (non-trivial statistics) x last flag x (learnable) eps x attention slope, with irregular parameters and features, output and gradients of every parameter and of the input; the same layer object on an edited structure and again on the first one; HyperGCN with/without mediator and cached graph under every outcome of its random projection on a 4x4 grid; 12 fixed structures of 9-18 vertices; every constructor with its options left out against the documented defaults, one by one and together, in both modes; fixed structures of 70 and 120 vertices",
    "thorough": "quick + all graphs with loops on 4 vertices, all sets of 3 hyperedges on 4 vertices, of 4 on 3 vertices, all groupings",
}
ASSUME = ["stored weights positive", "irregular parameters and features avoid ties and kinks; HyperGCN hyperedges have two or more vertices", "UniGAT attention scores use the hyperedge term only, as the paper's own implementation does (the vertex term is the same for all hyperedges of a vertex)"]
W = [2.0, 0.5, 3.0, 4.0, 1.5, 0.25, 5.0, 1.0, 2.5, 0.75]


def X(n, c, k=0):
    return torch.tensor([[(((17 * i + 29 * j + 5 * i * j + 13 * k) % 23) - 11.3) / 6.1 + i // 23 * 0.0173 * (j + 1) for j in range(c)] for i in range(n)])


def cases(tier):
    from mc import defaults

    for name in defaults.LAYERS:
        yield ["defaults", name]
    th = tier == "thorough"
    P = lambda n: list(itertools.combinations(range(n), 2))
    L = lambda n: [(a, b) for a in range(n) for b in range(a, n)]
    subs = lambda xs: itertools.chain.from_iterable(itertools.combinations(xs, k) for k in range(len(xs) + 1))
    for n, edges in ((1, L(1)), (2, L(2)), (3, L(3)), (4, L(4) if th else P(4))):
        for es in subs(edges):
            for extra in (False, True):
                if not (extra and any(a == b for a, b in es)):
                    yield [["Graph", n, extra], [list(e) for e in (es[1::2] + es[0::2])[::-1]], None]
    sub = lambda n: [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    for n, ks in ((1, (0, 1)), (2, (0, 1, 2, 3)), (3, (1, 2, 3, 4) if th else (1, 2, 3)), (4, (1, 2, 3) if th else (1, 2))):
        for k in ks:
            for es in itertools.combinations(sub(n), k):
                for sp in (itertools.product("ba", repeat=k) if th and k < 3 else [("b", "a", "b", "a")[:k]]):
                    yield [["Hypergraph", n, None], [list(e) for e in es], list(sp)]
    for kind in ("Graph", "Hypergraph"):
        for n in (9, 12, 18):
            for s in range(2 if not th else 8):
                es, sp = big.edge_lists(kind, n, s)
                yield [[kind, n, None if kind == "Hypergraph" else False], es, sp]
        for n in (70, 120):
            es, sp = big.edge_lists(kind, n, n % 7)
            yield [[kind, n, None if kind == "Hypergraph" else bool(n % 2)], es, sp]


def layer_space(kind):
    from dhg import nn

    O3 = list(itertools.product((True, False), repeat=3))
    std = dict(drop_rate=0.5)
    if kind == "Graph":
        for cls, ref in ((nn.GCNConv, nnref.gcn), (nn.GraphSAGEConv, nnref.sage)):
            for b, bnn, last in O3:
                yield cls.__name__, (3, 2), (lambda cls=cls, b=b, bnn=bnn, last=last: cls(3, 2, bias=b, use_bn=bnn, is_last=last, **std)), ref, dict(last=last)
        for b, bnn, last in O3:
            for slope in (0.2, 0.7):
                yield "GATConv", (3, 2), (lambda b=b, bnn=bnn, last=last, slope=slope: nn.GATConv(3, 2, bias=b, use_bn=bnn, is_last=last, atten_neg_slope=slope)), nnref.gat, dict(last=last, slope=slope)
        for eps, te in ((0.0, False), (0.5, False), (-1.5, True)):
            for chans in ([3, 2], [3, 4, 2]):
                for bnn, last in itertools.product((True, False), repeat=2):
                    yield "GINConv", (3, 2), (lambda eps=eps, te=te, bnn=bnn, last=last, chans=chans: nn.GINConv(nn.MLP(chans, use_bn=bnn, is_last=last), eps, te)), nnref.gin, dict(last=last, eps=eps)
        return
    for cls, ref, io in ((nn.HGNNConv, nnref.hgnn, (3, 2)), (nn.HGNNPConv, nnref.hgnnp, (3, 2)), (nn.HNHNConv, nnref.hnhn, (3, 2)), (nn.JHConv, nnref.jh, (2, 2)),
                         (nn.UniGCNConv, nnref.unigcn, (3, 2)), (nn.UniSAGEConv, nnref.unisage, (3, 2))):
        for b, bnn, last in O3:
            yield cls.__name__, io, (lambda cls=cls, io=io, b=b, bnn=bnn, last=last: cls(*io, bias=b, use_bn=bnn, is_last=last, **std)), ref, dict(last=last)
    for b, bnn, last in O3:
        for slope in (0.2, 0.7):
            yield "UniGATConv", (3, 2), (lambda b=b, bnn=bnn, last=last, slope=slope: nn.UniGATConv(3, 2, bias=b, use_bn=bnn, is_last=last, atten_neg_slope=slope)), nnref.unigat, dict(last=last, slope=slope)
        for eps, te in ((0.0, False), (0.5, False), (-1.5, True)):
            yield "UniGINConv", (3, 2), (lambda b=b, bnn=bnn, last=last, eps=eps, te=te: nn.UniGINConv(3, 2, eps=eps, train_eps=te, bias=b, use_bn=bnn, is_last=last)), nnref.unigin, dict(last=last, eps=eps)


def view(m):
    return nnref.GraphS(m) if m.kind == "Graph" else nnref.HyperS(m)


def check_layer(name, make, ref, kw, cin, objs, ctx, where, seed):
    """objs: list of (object, dense view, label); the same layer is applied to all of them in turn and to the first one again"""
    try:
        layer = nnref.fill(make(), seed).eval()
    except Exception as e:
        ctx.fail(f"{name}:construct:{type(e).__name__}", f"{name} {kw}: {e!r}")
    for r, (obj, S, label) in enumerate(objs + objs[:1] if len(objs) > 1 else objs):
        x = X(S.n, cin, r % 2)
        x0 = x.clone()
        try:
            got = layer(x, obj)
        except Exception as e:
            ctx.fail(f"{name}:raises:{type(e).__name__}", f"{where}{label}: {name} {kw} raised {e!r}")
        P = nnref.params(layer)
        xr = x0.double().requires_grad_(True)
        exp = ref(P, xr, S, **kw)
        ctx.step()
        ctx.check(close(dense(got), dense(exp)), f"{name}:output", lambda: f"{where}{label}: {name} {kw} bias/bn {[k for k in P]}\n   got {show(dense(got))}\n   expected {show(dense(exp))}")
        ctx.check(torch.equal(x, x0), f"{name}:input-changed", f"{where}{label}: {name} changed its input")
        if r == 0:
            xg = x0.clone().requires_grad_(True)
            layer.zero_grad()
            c = torch.tensor([[((7 * i + 3 * j) % 5) - 1.7 for j in range(got.shape[1])] for i in range(got.shape[0])])
            out = layer(xg, obj)
            ctx.check(close(dense(out), dense(exp)), f"{name}:second-call", lambda: f"{where}{label}: {name} second call differs")
            (out * c).sum().backward()
            (exp * c.double()).sum().backward()
            grads = [("input", xg.grad, xr.grad)] + [(k, p.grad, P[k].grad) for k, p in layer.named_parameters()]
            for k, g, e in grads:
                z = lambda v, like: torch.zeros_like(like, dtype=torch.double) if v is None else v
                gg, ee = z(g, xg if k == "input" else P[k]), z(e, xr if k == "input" else P[k])
                ctx.check(close(dense(gg), dense(ee), rtol=1e-3, atol=1e-4), f"{name}:gradient", lambda: f"{where}{label}: {name} {kw} gradient of {k}: got {show(dense(gg))}, expected {show(dense(ee))}")
    ctx.count(name)


def hypergcn(objs, ctx, where):
    import dhg
    from dhg import nn

    for med, b, bnn, last in itertools.product((False, True), (True, False), (True, False), (True, False)):
        for cout in (1, 2) if objs[0][1].n < 40 else (1,):
            kw = dict(use_mediator=med, bias=b, use_bn=bnn, is_last=last)
            layer = nnref.fill(nn.HyperGCNConv(3, cout, **kw), 5).eval()
            for obj, m, label in objs:
                edges = [e for e, _ in m.edges()]
                if any(len(e) < 2 for e in edges):
                    continue
                x = X(m.n, 3)
                P = {k: v.detach() for k, v in nnref.params(layer).items()}
                tx = nnref.lin(P, "theta.", x.double())
                dirs = [[1.0]] if cout == 1 else list(C01.directions(tx.tolist())) or [[1.0, 0.0]]
                exps = {}
                for d in dirs:
                    p = (tx @ torch.tensor(d, dtype=torch.double)).tolist()
                    S = nnref.GraphS(C01.hypergcn_model(m.n, edges, p, med))
                    exps[tuple(round(float(v), 4) + 0.0 for v in (nnref.post(P, "", S.Lgcn @ tx, last)).reshape(-1))] = 1

                def ok(v):
                    return any(all(abs(a - c) <= 2e-4 + 1e-4 * abs(c) for a, c in zip(v, e)) for e in exps)

                def call():
                    with torch.no_grad():
                        return tuple(round(float(v), 5) for v in layer(x.clone(), obj).reshape(-1))

                # the sign of a one-dimensional projection does not matter; two dimensions: every direction of the grid
                r = rng.explore(call, grid=4, budget=64)
                ctx.step(r.execs)
                for _, v in r.leaves:
                    ctx.check(len(v) == m.n * cout and ok(v), "HyperGCNConv:output", lambda: f"{where}{label}: HyperGCNConv {kw} out={cout}\n   got {v}\n   expected one of {list(exps)[:4]}")
                g = dhg.Graph(m.n, [[0, m.n - 1]] if m.n > 1 else None)
                gm = structs.GraphM(m.n)
                if m.n > 1:
                    gm.apply(["add", [[0, m.n - 1]], [1.0], "mean"])
                e = nnref.post(P, "", nnref.GraphS(gm).Lgcn @ tx, last)
                for _ in range(2):
                    with torch.no_grad():
                        got = layer(x.clone(), obj, g)
                    ctx.check(close(dense(got), dense(e)), "HyperGCNConv:cached", lambda: f"{where}{label}: HyperGCNConv {kw} with a given graph: got {show(dense(got))}, expected {show(dense(e))}")
            ctx.count("HyperGCNConv")


def run(case, ctx):
    if case[0] == "defaults":
        from mc import defaults

        defaults.check(defaults.LAYERS, case[1], ctx)
        return ctx.trace()
    init, es, sp = case
    obj, m = structs.new(init)
    if sp is None:
        ops = [["add", es, [W[i % len(W)] for i in range(len(es))], "mean"]] if es else []
    else:
        ops = [["add", [list(reversed(e))], [W[i % 10]], "mean", g] for i, (e, g) in enumerate(zip(es, sp))]
    for op in ops:
        obj = structs.apply_real(obj, op)
        m.apply(op)
    objs = [(obj, m, "")]
    n = init[1]
    eds = []
    if es:
        eds.append(["remove", [es[0]]] if sp is None else ["remove", [es[0]], None])
    if n > 1:
        eds.append(["add", [[0, n - 1]], [7.0], "sum"] if sp is None else ["add", [[0, n - 1]], [7.0], "sum", "b"])
    for op in eds:
        o2, m2 = obj.clone(), m.copy()
        o2 = structs.apply_real(o2, op)
        m2.apply(op)
        objs.append((o2, m2, f" then {op}"))
    where = str(case)
    base = structs.snapshot(obj, store_only=True)
    views = [(o, view(mm), lb) for o, mm, lb in objs]
    for i, (name, (cin, _), make, ref, kw) in enumerate(layer_space(init[0])):
        check_layer(name, make, ref, kw, cin, views, ctx, where, i)
    if init[0] == "Hypergraph":
        hypergcn(objs[:2], ctx, where)
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "structure-changed", where)
    for _, mm, _ in objs:
        ctx.state(mm.key())
    ctx.outcome(m.key())
    ctx.trace()


def shrink(case):
    init, es, sp = case
    for i in range(len(es)):
        yield [init, es[:i] + es[i + 1:], sp and sp[:i] + sp[i + 1:]]
