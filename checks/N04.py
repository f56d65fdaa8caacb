"""Models as compositions of their layers; relabelling; training-only randomness; building blocks."""
import copy
import itertools

import numpy as np
import torch

from checks import C01
from checks.N03 import W, X
from mc import big, nnref, rng, structs
from mc.cmp import close, dense, show

PID = "N04"
LEVEL = "model_checking"
CHUNK = {"quick": 6, "thorough": 10}
BOUNDS = {
    "quick": "GCN, GraphSAGE, GAT, GIN on all graphs with loops on 3 vertices (and implicit loops), HGNN, HGNN+, HNHN, UniGCN, UniGAT, UniSAGE, UniGIN, HyperGCN (fast or not, mediator or not) on all sets of <=2 hyperedges on 3 vertices (and 2 on 4 for a third), LightGCN, NGCF, BGNN (both) on all bipartite graphs up to 2x2 and 2x3, DHCF on all pairs of small hypergraphs; options: batch norm, heads 1-3, 0-3 layers, eps; all vertex permutations; every dropout mask (<=9 dropped elements) of every model in training mode; MLP / multi-head / discriminator blocks over all options; cascaded training of BGNN on all bipartite graphs up to 2x2; 10 fixed structures of 9-18 vertices; fixed structures of 5-20 vertices with up to 9 heads, 9 layers, 33 channels and extreme option values; read-outs over up to 13 heads of any sign, MLPs up to 6 layers; every constructor with its options left out against the documented defaults; fixed structures of 70 and 135 vertices",
    "thorough": "quick + all graphs on 4 vertices, all pairs of hyperedges on 4 vertices, all triples on 3 vertices",
}
ASSUME = ["stored weights positive", "HyperGCN hyperedges have two or more vertices; when projected values coincide any of the tied vertices may be the extreme one", "the fast HyperGCN caches the graph of its first input, as documented"]


def gspace(tier):
    L = [(a, b) for a in range(3) for b in range(a, 3)]
    subs = lambda xs: itertools.chain.from_iterable(itertools.combinations(xs, k) for k in range(len(xs) + 1))
    for es in subs(L):
        yield ["Graph", 3, False], [list(e) for e in es[::-1]], None
    for es in subs([e for e in L if e[0] != e[1]]):
        yield ["Graph", 3, True], [list(e) for e in es[::-1]], None
    for es in subs(list(itertools.combinations(range(4), 2))) if tier == "thorough" else ([[0, 1], [2, 3], [1, 3]], [[0, 3]]):
        yield ["Graph", 4, False], [list(e) for e in es], None


def hspace(tier):
    sub = lambda n: [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    for k in (0, 1, 2) + ((3,) if tier == "thorough" else ()):
        for es in itertools.combinations(sub(3), k):
            yield ["Hypergraph", 3, None], [list(e) for e in es], ["b", "a", "b"][:k]
    for i, es in enumerate(itertools.combinations(sub(4), 2)):
        if tier == "thorough" or i % 3 == 0:
            yield ["Hypergraph", 4, None], [list(e) for e in es], ["b", "a"]


def bspace(tier):
    subs = lambda xs: itertools.chain.from_iterable(itertools.combinations(xs, k) for k in range(len(xs) + 1))
    for nu, nv in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)):
        for es in subs(list(itertools.product(range(nu), range(nv)))):
            yield ["BiGraph", nu, nv], [list(e) for e in es], None


def cases(tier):
    from mc import defaults

    for name in defaults.MODELS:
        yield ["defaults", name]
    for s in gspace(tier):
        yield ["plain", *s]
    for s in hspace(tier):
        yield ["plain", *s]
    for s in bspace(tier):
        yield ["bi", *s]
    for kind in ("Graph", "Hypergraph"):
        for n in (9, 12):
            for k in range(2 if tier == "quick" else 6):
                es, sp = big.edge_lists(kind, n, k)
                yield ["plain", [kind, n, None if kind == "Hypergraph" else False], es, sp]
        for n in (70, 135):
            es, sp = big.edge_lists(kind, n, n % 7)
            yield ["plain", [kind, n, None if kind == "Hypergraph" else bool(n % 2)], es, sp]
    for nu, nv in ((7, 11), (12, 6), (70, 40), (30, 135)):
        yield ["bi", ["BiGraph", nu, nv], [[(i * 5) % nu, (i * 3 + i // nu) % nv] for i in range(nu + nv)], None]
    small = [([], []), ([[0, 1]], ["a"]), ([[0], [0, 1]], ["a", "b"])]
    for (e1, s1), (e2, s2) in itertools.product(small + [([[1]], ["a"])], [([], []), ([[0, 1, 2]], ["a"]), ([[0, 2], [1, 2]], ["b", "a"]), ([[1], [0, 1]], ["a", "a"])]):
        yield ["dhcf", [["Hypergraph", 2, None], e1, s1], [["Hypergraph", 3, None], e2, s2]]
    yield ["train", ["Graph", 2, False], [[0, 1]], None]
    yield ["train", ["Graph", 2, False], [[0, 0]], None]
    yield ["train", ["Hypergraph", 2, None], [[0, 1]], ["a"]]
    yield ["train", ["Hypergraph", 2, None], [[0], [0, 1]], ["a", "b"]]
    yield ["train", ["BiGraph", 1, 1], [[0, 0]], None]
    yield ["train", ["BiGraph", 1, 2], [[0, 0], [0, 1]], None]
    for heads in (1, 2, 3):
        for ro in ("concat", "mean", "max", "sum", "median"):
            yield ["heads", heads, ro]
    for chans in ([3, 2], [3, 4, 2], [2, 3, 4, 1]):
        for act, kw in (("ReLU", None), ("LeakyReLU", {"negative_slope": 0.3}), ("Tanh", None), ("ELU", {"alpha": 0.5})):
            yield ["mlp", chans, act, kw]
    yield ["disc"]
    th = tier == "thorough"
    for kind in ("Graph", "Hypergraph"):
        for n in (5, 10, 20) + ((33,) if th else ()):
            for k in range(2 if not th else 5):
                es, sp = big.edge_lists(kind, n, k)
                for dims in ([1, 1, 1], [5, 16, 7], [17, 33, 3]) + (([64, 8, 40],) if th else ()):
                    yield ["wide", [kind, n, None if kind == "Hypergraph" else bool(k)], es, sp, dims]
    for nu, nv in ((3, 4), (7, 11), (12, 6)):
        for dim in (1, 8, 33):
            yield ["deep", ["BiGraph", nu, nv], [[(i * 5) % nu, (i * 3 + i // nu) % nv] for i in range(nu + nv)], dim]
    for layer in ("linear", "gcn", "gat"):
        for k in (1, 2, 3, 4, 5, 8, 13):
            for ci, co in ((1, 1), (3, 5), (16, 8)):
                yield ["manyheads", layer, k, ci, co]
    for chans in ([1, 1], [5, 17, 33, 9, 4], [8] * 7, [64, 32, 16], [2, 3, 4, 5, 6, 7]):
        for act, kw in (("ReLU", None), ("LeakyReLU", {"negative_slope": 0.3}), ("Tanh", None), ("ELU", {"alpha": 0.5})):
            yield ["mlp", chans, act, kw]


def build(init, es, sp):
    obj, m = structs.new(init)
    if sp is None:
        ops = [["add", es, [W[i % len(W)] for i in range(len(es))], "mean"]] if es else []
    else:
        ops = [["add", [list(reversed(e))], [W[i % 10]], "mean", g] for i, (e, g) in enumerate(zip(es, sp))]
    for op in ops:
        obj = structs.apply_real(obj, op)
        m.apply(op)
    return obj, m


def relabel(init, es, sp, perm):
    """the same structure with vertex v renamed perm[v] (insertion order changed as well, weights kept)"""
    obj, m = structs.new(init)
    order = list(range(len(es)))[::-1]
    for i in order:
        e, w = [perm[v] for v in es[i]], W[i % 10]
        op = ["add", [e], [w], "mean"] if sp is None else ["add", [e], [w], "mean", sp[i]]
        obj = structs.apply_real(obj, op)
    return obj


def model_space(kind, cin=3, hid=2, ncls=2, dr=0.5, small=False):
    """name, constructor, reference f(P, X, S, drop)"""
    from dhg import models as M

    R = nnref
    bns = (False,) if small else (False, True)
    hs = (1,) if small else (1, 2, 3)
    if kind == "Graph":
        for b in bns:
            yield f"GCN bn={b}", (lambda b=b: M.GCN(cin, hid, ncls, use_bn=b, drop_rate=dr)), R.two_layers(R.gcn)
            yield f"GraphSAGE bn={b}", (lambda b=b: M.GraphSAGE(cin, hid, ncls, use_bn=b, drop_rate=dr)), R.two_layers(R.sage)
            for h in hs:
                yield f"GAT heads={h} bn={b}", (lambda b=b, h=h: M.GAT(cin, hid, ncls, h, use_bn=b, drop_rate=dr, atten_neg_slope=0.3)), R.attention_model(R.gat, h, 0.3)
            for nl, ml, eps, te in ((2, 1, 0.0, False),) if small else ((2, 2, 0.0, False), (3, 1, 0.4, True), (4, 2, 0.7, False)):
                yield f"GIN {nl} {ml} eps={eps} bn={b}", (lambda b=b, nl=nl, ml=ml, eps=eps, te=te: M.GIN(cin, hid, ncls, nl, ml, eps, te, use_bn=b, drop_rate=dr)), R.gin_model(nl, eps)
        return
    for b in bns:
        for cls, ref in ((M.HGNN, R.hgnn), (M.HGNNP, R.hgnnp), (M.HNHN, R.hnhn), (M.UniGCN, R.unigcn), (M.UniSAGE, R.unisage)):
            yield f"{cls.__name__} bn={b}", (lambda cls=cls, b=b: cls(cin, hid, ncls, use_bn=b, drop_rate=dr)), R.two_layers(ref)
        for eps, te in ((0.0, False), (0.4, False), (0.7, True)):
            yield f"UniGIN eps={eps} bn={b}", (lambda b=b, eps=eps, te=te: M.UniGIN(cin, hid, ncls, eps=eps, train_eps=te, use_bn=b, drop_rate=dr)), R.two_layers(R.unigin, eps=eps)
        for h in hs:
            yield f"UniGAT heads={h} bn={b}", (lambda b=b, h=h: M.UniGAT(cin, hid, ncls, h, use_bn=b, drop_rate=dr, atten_neg_slope=0.3)), R.attention_model(R.unigat, h, 0.3)


def agree(model, call, exp, name, where, ctx):
    """evaluation mode: same value every time, equal to the composition; training mode in between changes nothing"""
    model.eval()
    for r in range(2):
        got = call()
        ctx.step()
        ctx.check(close(dense(got), dense(exp)), f"{name.split()[0]}:output", lambda: f"{where}: {name} (call {r + 1})\n   got {show(dense(got))}\n   expected {show(dense(exp))}")


def plain(init, es, sp, ctx):
    obj, m = build(init, es, sp)
    where = f"{init} {es} {sp}"
    S = nnref.GraphS(m) if init[0] == "Graph" else nnref.HyperS(m)
    n = init[1]
    x = X(n, 3)
    x0 = x.clone()
    base = structs.snapshot(obj, store_only=True)
    with torch.no_grad():
        for i, (name, make, ref) in enumerate(model_space(init[0])):
            model = nnref.fill(make(), i).eval()
            P = nnref.params(model)
            exp = ref(P, x0.double(), S)
            agree(model, lambda: model(x, obj), exp, name, where, ctx)
            ctx.check(torch.equal(x, x0), f"{name.split()[0]}:input-changed", f"{where}: {name}")
            for perm in itertools.islice(itertools.permutations(range(n)), 1, 24, 1 if n < 4 else 5):
                o2 = relabel(init, es, sp, perm)
                inv = [perm.index(v) for v in range(n)]
                got = dense(model(x0[inv], o2))
                ctx.check(close(got, dense(exp)[inv]), f"{name.split()[0]}:relabel", lambda: f"{where}: {name} after renaming vertices by {perm}: got {show(got)}, expected {show(dense(exp)[inv])}")
                ctx.step()
            agree(model, lambda: model(x, obj), exp, name, where + " again", ctx)
            ctx.count(name.split()[0])
    # gradients reach every parameter as in the composition
    for i, (name, make, ref) in enumerate(model_space(init[0])):
        model = nnref.fill(make(), i).eval()
        P = nnref.params(model)
        c = X(n, 2, 3)
        (model(x, obj) * c).sum().backward()
        (ref(P, x0.double(), S) * c.double()).sum().backward()
        for k, p in model.named_parameters():
            g = torch.zeros_like(p) if p.grad is None else p.grad
            e = torch.zeros_like(P[k]) if P[k].grad is None else P[k].grad
            ctx.check(close(dense(g), dense(e), rtol=2e-3, atol=2e-4), f"{name.split()[0]}:gradient", lambda: f"{where}: {name} gradient of {k}: got {show(dense(g))}, expected {show(dense(e))}")
    if init[0] == "Hypergraph":
        hypergcn(obj, m, es, where, ctx)
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "structure-changed", where)
    ctx.state(m.key())
    ctx.outcome(m.key())


def hgcn_graphs(n, edges, proj, med):
    """dense GCN operators of every admissible reduction (ties within 1e-4 leave the choice open)"""
    opts = []
    for e in edges:
        hi, lo = max(proj[v] for v in e), min(proj[v] for v in e)
        opts.append([(a, b) for a in e if proj[a] > hi - 1e-4 for b in e if proj[b] < lo + 1e-4])
    for ch in itertools.product(*opts):
        p = [dict(proj) for _ in edges]
        es, ws = [], []
        for e, (a, b) in zip(edges, ch):
            w = 1 / (2 * len(e) - 3) if med else 1 / len(e)
            if a != b:
                es.append((a, b))
                ws.append(w)
            if med:
                for v in e:
                    if v not in (a, b):
                        for z in {a, b}:
                            es.append((z, v))
                            ws.append(w)
                            if a == b:
                                es.append((z, v))
                                ws.append(w)
        yield nnref.GraphS(C01.gmodel(n, es, ws, "sum"))


def hypergcn(obj, m, es, where, ctx):
    from dhg.models import HyperGCN

    edges = [e for e, _ in m.edges()]
    if any(len(e) < 2 for e in edges):
        return
    for med, bnn, fast in itertools.product((False, True), repeat=3):
        if len(edges) > 5 and not fast:
            continue  # rectified hidden values tie: the set of admissible graphs explodes
        name = f"HyperGCN mediator={med} bn={bnn} fast={fast}"
        model = nnref.fill(HyperGCN(1, 1, 2 if fast else 1, use_mediator=med, use_bn=bnn, fast=fast), 3).eval()
        P = {k: v.detach() for k, v in nnref.params(model).items()}
        x = X(m.n, 1)
        exps = []
        x1 = x.double() if fast else nnref.lin(P, "layers.0.theta.", x.double())
        for S1 in hgcn_graphs(m.n, edges, dict(enumerate(x1[:, 0].tolist())), med):
            Y = nnref.gcn(P, x.double(), S1, pre="layers.0.")
            if fast:
                exps.append(nnref.gcn(P, Y, S1, pre="layers.1.", last=True))
            else:
                t2 = nnref.lin(P, "layers.1.theta.", Y)
                exps += [nnref.gcn(P, Y, S2, pre="layers.1.", last=True) for S2 in hgcn_graphs(m.n, edges, dict(enumerate(t2[:, 0].tolist())), med)]
        outs = []

        def call():
            fresh = copy.deepcopy(model)
            with torch.no_grad():
                a = [round(float(v), 5) for v in fresh(x.clone(), obj).reshape(-1)]
                b = [round(float(v), 5) for v in fresh(x.clone(), obj).reshape(-1)]
            ctx.check(not fast or close(a, b), "HyperGCN:second-call", lambda: f"{where}: {name}: {a} then {b}")
            return tuple(a)

        r = rng.explore(call, grid=3, budget=12)
        ctx.step(r.execs)
        for _, v in r.leaves:
            ctx.check(any(len(v) == e.numel() and all(abs(a - b) < 2e-4 + 1e-4 * abs(b) for a, b in zip(v, e.reshape(-1).tolist())) for e in exps), "HyperGCN:output",
                      lambda: f"{where}: {name} got {v}, expected one of {[e.reshape(-1).tolist() for e in exps[:4]]}")
        ctx.count("HyperGCN")


def emb_models(nu, nv, dim, small=False):
    from dhg import models as M

    for L in (1,) if small else (0, 1, 2, 3):
        yield f"LightGCN layers={L}", (lambda L=L: M.LightGCN(nu, nv, dim, L, drop_rate=0.25)), nnref.lightgcn(L)
        yield f"NGCF layers={L}", (lambda L=L: M.NGCF(nu, nv, dim, L, drop_rate=0.25)), nnref.ngcf(L)


def bi(init, es, sp, ctx):
    from dhg import models as M

    obj, m = build(init, es, sp)
    _, nu, nv = init
    where = f"{init} {es}"
    S = nnref.GraphS(m)
    base = structs.snapshot(obj, store_only=True)
    for i, (name, make, ref) in enumerate(emb_models(nu, nv, 2)):
        model = nnref.fill(make(), i)
        P = nnref.params(model)
        exp = ref(P, S)
        with torch.no_grad():
            def call(o=obj, mod=model):
                u, v = mod(o)
                ctx.check(tuple(u.shape) == (nu, 2) and tuple(v.shape) == (nv, 2), f"{name.split()[0]}:shape", f"{where}: {name} {u.shape} {v.shape}")
                return torch.cat([u, v])
            agree(model, call, exp, name, where, ctx)
            if nu == 2:
                swapped = relabel_bi(init, es)
                m2 = nnref.fill(make(), i).eval()
                m2.u_embedding.weight.copy_(model.u_embedding.weight.flip(0))
                got = torch.cat(list(m2(swapped)))
                e2 = torch.cat([exp[:nu].flip(0), exp[nu:]])
                ctx.check(close(dense(got), dense(e2)), f"{name.split()[0]}:relabel", lambda: f"{where}: {name} with the users swapped")
        u, v = model.eval()(obj)
        c = X(nu + nv, 2, 1)
        (torch.cat([u, v]) * c).sum().backward()
        (exp * c.double()).sum().backward()
        for k, p in model.named_parameters():
            g = torch.zeros_like(p) if p.grad is None else p.grad
            e = torch.zeros_like(P[k]) if P[k].grad is None else P[k].grad
            ctx.check(close(dense(g), dense(e), rtol=2e-3, atol=2e-4), f"{name.split()[0]}:gradient", lambda: f"{where}: {name} gradient of {k}: got {show(dense(g))}, expected {show(dense(e))}")
        ctx.count(name.split()[0])
    Xu, Xv = X(nu, 3), X(nv, 2, 1)
    for depth in (0, 1, 2, 3, 4):
        for name, make, ref in ((f"BGNN_Adv depth={depth}", lambda: M.BGNN_Adv(3, 2, depth), nnref.bgnn(depth, False)),
                                (f"BGNN_MLP depth={depth}", lambda: M.BGNN_MLP(3, 2, 4, 2, 0.5, depth), nnref.bgnn(depth, True))):
            model = nnref.fill(make(), depth)
            with torch.no_grad():
                a, b = Xu.clone(), Xv.clone()
                agree(model, lambda: model(a, b, obj), ref(nnref.params(model), Xu.double(), Xv.double(), S), name, where, ctx)
                ctx.check(torch.equal(a, Xu) and torch.equal(b, Xv), f"{name.split()[0]}:input-changed", where)
            ctx.count(name.split()[0])
            if depth > 3 or nu + nv > 4:
                continue
            for ep in (0, 2):
                torch.manual_seed(7)
                model = nnref.fill(make(), depth)
                P0 = {k: v.clone() for k, v in model.state_dict().items()}
                a, b = Xu.clone(), Xv.clone()
                out = model.train_with_cascaded(a, b, obj, 0.01, 0.0, ep)
                model.eval()
                P = nnref.params(model)
                ctx.step()
                ctx.check(close(dense(out), dense(ref(P, Xu.double(), Xv.double(), S))), f"{name.split()[0]}:cascade",
                          lambda: f"{where}: {name} {ep} epochs of cascaded training return {show(dense(out))}, the trained model computes {show(dense(ref(P, Xu.double(), Xv.double(), S)))}")
                moved = [k for k in P0 if not torch.equal(P0[k], model.state_dict()[k])]
                ctx.check(not moved if ep == 0 or depth == 0 else (not es or all(any(f"s.{i}." in k[:11] for k in moved) for i in range(depth))), f"{name.split()[0]}:cascade-training", lambda: f"{where}: {name}: {ep} epochs changed {moved}")
                ctx.check(torch.equal(a, Xu) and torch.equal(b, Xv) and not out.requires_grad, f"{name.split()[0]}:input-changed", where)
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "structure-changed", where)
    ctx.state(m.key())
    ctx.outcome(m.key())


def relabel_bi(init, es):
    obj, _ = structs.new(init)
    for i in reversed(range(len(es))):
        u, v = es[i]
        obj = structs.apply_real(obj, ["add", [[1 - u, v]], [W[i % 10]], "mean"])
    return obj


def dhcf(a, b, ctx):
    from dhg.models import DHCF

    (o1, m1), (o2, m2) = build(*a), build(*b)
    S = nnref.Block(nnref.HyperS(m1), nnref.HyperS(m2))
    where = f"users {a}, items {b}"
    for L in (0, 1, 2, 3):
        model = nnref.fill(DHCF(2, 3, 2, L), L)
        P = nnref.params(model)
        exp = nnref.ngcf(L, dhcf=True)(P, S)
        with torch.no_grad():
            def call():
                u, v = model(o1, o2)
                ctx.check(tuple(u.shape) == (2, 2) and tuple(v.shape) == (3, 2), "DHCF:shape", where)
                return torch.cat([u, v])
            agree(model, call, exp, f"DHCF layers={L}", where, ctx)
        u, v = model(o1, o2)
        c = X(5, 2, 1)
        (torch.cat([u, v]) * c).sum().backward()
        (exp * c.double()).sum().backward()
        for k, p in model.named_parameters():
            g = torch.zeros_like(p) if p.grad is None else p.grad
            e = torch.zeros_like(P[k]) if P[k].grad is None else P[k].grad
            ctx.check(close(dense(g), dense(e), rtol=2e-3, atol=2e-4), "DHCF:gradient", lambda: f"{where}: gradient of {k}: got {show(dense(g))}, expected {show(dense(e))}")
        ctx.count("DHCF")
    ctx.state((m1.key(), m2.key()))
    ctx.outcome((m1.key(), m2.key()))


class Bits:
    """supplies dropout factors from a bit string; unlimited ones while recording"""

    def __init__(self, bits, rate, scale):
        self.bits, self.rate, self.pos, self.scale = bits, rate, 0, scale

    def __call__(self, shape):
        n = 1
        for s in shape:
            n *= int(s)
        r = [1.0] * n if self.bits is None else [float(b) for b in self.bits[self.pos: self.pos + n]]
        self.pos += n
        return torch.tensor(r, dtype=torch.double).reshape(tuple(shape)) * self.scale


def fdropout(input, p=0.5, training=True, inplace=False):
    if not training or p == 0:
        return input
    mask = torch.tensor([float(rng.TAPE.bern(1 - p)) for _ in range(input.numel())]).reshape(input.shape).to(input.dtype) / (1 - p)
    if inplace:
        return input.mul_(mask)
    return input * mask


def training(name, model, call, ref, rate, scale, where, ctx):
    """every outcome of the random source in training mode against every dropout mask, with probabilities"""
    import torch.nn.functional as F

    b = Bits(None, rate, scale)
    ref(b)
    n = b.pos
    assert n <= 10, (name, n)
    exp = []
    for bits in itertools.product((1, 0), repeat=n):
        v = dense(ref(Bits(bits, rate, scale))).reshape(-1)
        exp.append((v, (1 - rate) ** sum(bits) * rate ** (n - sum(bits))))
    model.train()
    saved = F.dropout
    F.dropout = fdropout
    try:
        r = rng.explore(lambda: tuple(float(v) for v in call().detach().reshape(-1)), grid=4, budget=3000)
    finally:
        F.dropout = saved
    ctx.step(r.execs)
    ctx.count("dropout-masks", r.execs)
    # cluster expected values
    cl = []
    for v, p in exp:
        for c in cl:
            if close(c[0], v, rtol=1e-6, atol=2e-6):
                c[1] += p
                break
        else:
            cl.append([v, p, 0.0])
    for p, v in r.leaves:
        c = min(cl, key=lambda c: float(abs(c[0] - np.array(v)).max())) if len(v) == len(cl[0][0]) else None
        if c is not None and close(v, c[0], rtol=1e-3, atol=3e-4):
            c[2] += p
        else:
            ctx.fail(f"{name.split()[0]}:dropout", f"{where}: {name} in training mode gives {v}, which no dropout mask of its layers explains")
    merged = []  # values closer than the tolerance are not told apart
    for c in cl:
        near = [g for g in merged if any(close(c[0], v, rtol=1e-3, atol=1e-3) for v in g[3])]
        new = [c[0], c[1] + sum(g[1] for g in near), c[2] + sum(g[2] for g in near), [c[0]] + [v for g in near for v in g[3]]]
        merged = [g for g in merged if all(g is not h for h in near)] + [new]
    if not r.uncontrolled:
        for c in merged:
            ctx.check(abs(c[1] - c[2]) <= r.truncated + 1e-4, f"{name.split()[0]}:dropout-probability", lambda: f"{where}: {name} in training mode gives {show(c[0])} with probability {c[2]}, expected {c[1]}")
    ctx.outcome((name, where, len(cl)))
    model.eval()
    e = dense(ref(None)).reshape(-1)
    with torch.no_grad():
        got = dense(call()).reshape(-1)
    ctx.check(close(got, e), f"{name.split()[0]}:eval-after-train", lambda: f"{where}: {name} back in evaluation mode gives {show(got)}, expected {show(e)}")


def train(init, es, sp, ctx):
    from dhg import models as M

    obj, m = build(init, es, sp)
    where = f"{init} {es} {sp}"
    rate = 0.25
    if init[0] == "BiGraph":
        S = nnref.GraphS(m)
        nu, nv = init[1:]
        for i, (name, make, ref) in enumerate(emb_models(nu, nv, 1, small=True)):
            model = nnref.fill(make(), i)
            P = {k: v.detach() for k, v in nnref.params(model).items()}
            training(name, model, lambda: torch.cat(list(model(obj))), lambda d: ref(P, S, d), rate, 1.0 if "Light" in name else 1 / (1 - rate), where, ctx)
        model = nnref.fill(M.BGNN_MLP(1, 1, 2, 2, rate, 2), 1)
        P = {k: v.detach() for k, v in nnref.params(model).items()}
        xu, xv = X(nu, 1), X(nv, 1, 1)
        training("BGNN_MLP", model, lambda: model(xu, xv, obj), lambda d: nnref.bgnn(2, True)(P, xu.double(), xv.double(), S, d), rate, 1 / (1 - rate), where, ctx)
    else:
        S = nnref.GraphS(m) if init[0] == "Graph" else nnref.HyperS(m)
        for cin, hid, ncls in ((1, 1, 1), (1, 2, 2)):
            x = X(2, cin, 2)
            for i, (name, make, ref) in enumerate(model_space(init[0], cin, hid, ncls, rate, small=True)):
                if hid == 2 and ("GAT" in name or "GIN" in name.split()[0] and "Uni" not in name):
                    continue
                model = nnref.fill(make(), i + 1)
                P = {k: v.detach() for k, v in nnref.params(model).items()}
                training(name, model, lambda: model(x.clone(), obj), lambda d: ref(P, x.double(), S, d), rate, 1 / (1 - rate), where, ctx)
    ctx.state(m.key())


def heads(k, ro, ctx):
    from dhg import nn

    obj, m = build(["Graph", 3, False], [[0, 1], [1, 2]], None)
    S = nnref.GraphS(m)
    x = X(3, 3)
    wrap = nn.MultiHeadWrapper(k, ro, nn.GCNConv, in_channels=3, out_channels=2, drop_rate=0.5)
    nnref.fill(wrap, 2).eval()
    P = nnref.params(wrap)
    try:
        with torch.no_grad():
            got = wrap(X=x, g=obj)
    except (ValueError, AssertionError, NotImplementedError):
        ctx.check(ro == "median", "heads:rejected", ro)
        return
    ctx.check(ro != "median", "heads:not-rejected", "unknown read-out accepted")
    outs = [nnref.gcn(P, x.double(), S, pre=f"layers.{h}.") for h in range(k)]
    st = torch.stack(outs)
    exp = {"concat": lambda: torch.cat(outs, 1), "mean": lambda: st.mean(0), "sum": lambda: st.sum(0), "max": lambda: st.max(0)[0]}[ro]()
    ctx.check(close(dense(got), dense(exp)), f"heads:{ro}", lambda: f"{k} heads, {ro}: got {show(dense(got))}, expected {show(dense(exp))}")
    ctx.check(len({p.data_ptr() for p in wrap.parameters()}) == 2 * k, "heads:shared", f"{k} heads share parameters")
    ctx.step()
    ctx.state((k, ro))
    ctx.outcome((k, ro))


def mlp(chans, act, kw, ctx):
    from dhg import nn

    F = torch.nn.functional
    f = {"ReLU": torch.relu, "LeakyReLU": lambda x: F.leaky_relu(x, 0.3), "Tanh": torch.tanh, "ELU": lambda x: F.elu(x, 0.5)}[act]
    for bnn, last in itertools.product((True, False), repeat=2):
        mod = nnref.fill(nn.MLP(chans, act_name=act, act_kwargs=kw, use_bn=bnn, drop_rate=0.4, is_last=last), 3).eval()
        x = X(4, chans[0])
        x0 = x.clone()
        P = {k: v.detach() for k, v in nnref.params(mod).items()}
        with torch.no_grad():
            for _ in range(2):
                got = mod(x)
                exp = nnref.mlp(P, x0.double(), "", f, last)
                ctx.check(close(dense(got), dense(exp)), "mlp", lambda: f"MLP {chans} {act} bn={bnn} last={last}: got {show(dense(got))}, expected {show(dense(exp))}")
                ctx.check(torch.equal(x, x0), "mlp:input-changed", act)
        ctx.check(len([k for k in P if P[k].ndim == 2]) == len(chans) - 1 and len([k for k in P if "running_mean" in k]) == (0 if not bnn else len(chans) - 1 - last), "mlp:layers", f"{list(P)}")
        n = chans[-1] if not last else 0
        n += sum(chans[1:-1])
        if n <= 9:
            x1 = X(1, chans[0])
            if not bnn:
                training(f"MLP {chans} {act} last={last}", mod, lambda: mod(x1.clone()), lambda d: nnref.mlp(P, x1.double(), "", f, last, d), 0.4, 1 / 0.6, "MLP", ctx)
        ctx.step()
    ctx.state((tuple(chans), act))


def near(got, exp):
    """equal up to rounding, relative to the largest entry"""
    got, exp = dense(got), dense(exp)
    return got.shape == exp.shape and bool(np.isfinite(got).all()) and (exp.size == 0 or float(np.abs(got - exp).max()) <= 1e-4 + 1e-3 * float(np.abs(exp).max()))


def wide_space(kind, cin, hid, ncls):
    from dhg import models as M

    R = nnref
    for b in (False, True):
        if kind == "Graph":
            for dr in (0.0, 0.9):
                yield f"GCN dr={dr} bn={b}", (lambda b=b, dr=dr: M.GCN(cin, hid, ncls, use_bn=b, drop_rate=dr)), R.two_layers(R.gcn)
                yield f"GraphSAGE dr={dr} bn={b}", (lambda b=b, dr=dr: M.GraphSAGE(cin, hid, ncls, use_bn=b, drop_rate=dr)), R.two_layers(R.sage)
            for h, sl in ((4, 0.2), (5, 0.01), (9, 0.9)):
                yield f"GAT heads={h} slope={sl} bn={b}", (lambda b=b, h=h, sl=sl: M.GAT(cin, hid, ncls, h, use_bn=b, atten_neg_slope=sl)), R.attention_model(R.gat, h, sl)
            for nl, ml, eps, te in ((2, 3, -0.5, False), (2, 5, 0.1, True), (5, 1, 2.0, True), (6, 2, 0.0, False), (9, 1, -1.0, False)):
                yield f"GIN {nl} {ml} eps={eps} bn={b}", (lambda b=b, nl=nl, ml=ml, eps=eps, te=te: M.GIN(cin, hid, ncls, nl, ml, eps, te, use_bn=b)), R.gin_model(nl, eps)
        else:
            for cls, ref in ((M.HGNN, R.hgnn), (M.HGNNP, R.hgnnp), (M.HNHN, R.hnhn), (M.UniGCN, R.unigcn), (M.UniSAGE, R.unisage)):
                for dr in (0.0, 0.9):
                    yield f"{cls.__name__} dr={dr} bn={b}", (lambda cls=cls, b=b, dr=dr: cls(cin, hid, ncls, use_bn=b, drop_rate=dr)), R.two_layers(ref)
            for eps, te in ((-0.5, False), (2.0, True), (-1.0, True), (3.5, False)):
                yield f"UniGIN eps={eps} bn={b}", (lambda b=b, eps=eps, te=te: M.UniGIN(cin, hid, ncls, eps=eps, train_eps=te, use_bn=b)), R.two_layers(R.unigin, eps=eps)
            for h, sl in ((4, 0.2), (5, 0.01), (9, 0.9)):
                yield f"UniGAT heads={h} slope={sl} bn={b}", (lambda b=b, h=h, sl=sl: M.UniGAT(cin, hid, ncls, h, use_bn=b, atten_neg_slope=sl)), R.attention_model(R.unigat, h, sl)


def wide(init, es, sp, dims, ctx):
    """many heads, layers, channels and option values"""
    obj, m = build(init, es, sp)
    where = f"{init} {es} {sp}"
    S = nnref.GraphS(m) if init[0] == "Graph" else nnref.HyperS(m)
    x = X(init[1], dims[0])
    x0 = x.clone()
    for i, (name, make, ref) in enumerate(wide_space(init[0], *dims)):
        model = nnref.fill(make(), i).eval()
        exp = ref(nnref.params(model), x0.double(), S).detach()
        with torch.no_grad():
            for r in range(2):
                got = model(x, obj)
                ctx.step()
                ctx.check(near(got, exp), f"{name.split()[0]}:output", lambda: f"{where}: {name} channels {dims} (call {r + 1})\n   got {show(dense(got))}\n   expected {show(dense(exp))}")
        ctx.check(torch.equal(x, x0), f"{name.split()[0]}:input-changed", f"{where}: {name}")
        ctx.count(name.split()[0])
    ctx.state((m.key(), tuple(dims)))


def deep(init, es, dim, ctx):
    from dhg import models as M

    obj, m = build(init, es, None)
    S = nnref.GraphS(m)
    _, nu, nv = init
    for L in (0, 1, 2, 3, 4, 5, 6, 9):
        for name, make, ref in ((f"LightGCN layers={L}", lambda: M.LightGCN(nu, nv, dim, L), nnref.lightgcn(L)), (f"NGCF layers={L}", lambda: M.NGCF(nu, nv, dim, L), nnref.ngcf(L))):
            model = nnref.fill(make(), L).eval()
            exp = ref(nnref.params(model), S).detach()
            with torch.no_grad():
                u, v = model(obj)
            ctx.step()
            ctx.check(near(torch.cat([u, v]), exp) and u.shape[0] == nu, f"{name.split()[0]}:output", lambda: f"{init} {es}: {name} of dimension {dim}: got {show(dense(torch.cat([u, v])))}, expected {show(dense(exp))}")
        for name, make, ref in ((f"BGNN_Adv depth={L}", lambda: M.BGNN_Adv(dim, 3, L), nnref.bgnn(L, False)), (f"BGNN_MLP depth={L}", lambda: M.BGNN_MLP(dim, 3, 5, 4, 0.5, L), nnref.bgnn(L, True))):
            model = nnref.fill(make(), L).eval()
            a, b = X(nu, dim), X(nv, 3, 1)
            exp = ref(nnref.params(model), a.double(), b.double(), S).detach()
            with torch.no_grad():
                got = model(a, b, obj)
            ctx.step()
            ctx.check(near(got, exp), f"{name.split()[0]}:output", lambda: f"{init} {es}: {name} of dimension {dim}: got {show(dense(got))}, expected {show(dense(exp))}")
    ctx.state((m.key(), dim))


def manyheads(layer, k, ci, co, ctx):
    from dhg import nn

    obj, m = build(["Graph", 6, False], [[0, 1], [1, 2], [3, 4], [0, 4], [2, 2]], None)
    S = nnref.GraphS(m)
    x = X(6, ci)
    for ro in ("concat", "mean", "max", "sum"):
        if layer == "linear":
            wrap = nn.MultiHeadWrapper(k, ro, torch.nn.Linear, in_features=ci, out_features=co)
            kw = {"input": x}
        else:
            cls = nn.GCNConv if layer == "gcn" else nn.GATConv
            wrap = nn.MultiHeadWrapper(k, ro, cls, in_channels=ci, out_channels=co, drop_rate=0.5, is_last=True)
            kw = {"X": x, "g": obj}
        nnref.fill(wrap, k).eval()
        P = nnref.params(wrap)
        f = {"linear": lambda h: nnref.lin(P, f"layers.{h}.", x.double()), "gcn": lambda h: nnref.gcn(P, x.double(), S, pre=f"layers.{h}.", last=True), "gat": lambda h: nnref.gat(P, x.double(), S, pre=f"layers.{h}.", last=True)}[layer]
        outs = [f(h).detach() for h in range(k)]
        st = torch.stack(outs)
        exp = {"concat": lambda: torch.cat(outs, 1), "mean": lambda: st.mean(0), "sum": lambda: st.sum(0), "max": lambda: st.max(0)[0]}[ro]()
        with torch.no_grad():
            got = wrap(**kw)
        ctx.step()
        ctx.check(near(got, exp), f"heads:{ro}", lambda: f"{k} heads of {layer} {ci}->{co}, {ro}: got {show(dense(got))}, expected {show(dense(exp))}")
    ctx.state((layer, k, ci, co))


def disc(ctx):
    from dhg.nn.convs.common import Discriminator

    mod = nnref.fill(Discriminator(3, 4, 2, 0.25), 1)
    P = {k: v.detach() for k, v in nnref.params(mod).items()}
    x = X(1, 3)
    acts = (lambda v: torch.nn.functional.leaky_relu(v, 0.01), torch.sigmoid)
    training("Discriminator", mod, lambda: mod(x.clone()), lambda d: nnref.seq(P, x.double(), "layers.", acts, d), 0.25, 1 / 0.75, "", ctx)


def run(case, ctx):
    k, *a = case
    if k == "defaults":
        from mc import defaults

        defaults.check(defaults.MODELS, a[0], ctx)
        return ctx.trace()
    {"plain": plain, "bi": bi, "dhcf": dhcf, "train": train, "heads": heads, "mlp": mlp, "disc": disc, "wide": wide, "deep": deep, "manyheads": manyheads}[k](*a, ctx)
    ctx.trace()
