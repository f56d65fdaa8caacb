"""A structure follows its device: contents, views and everything derived from it, through every history of moves, reads and edits.

The code under test runs inside mc.vdev.VDev (a second, virtual device); the reference is the model of the edit history and the
same computation on the CPU.
"""
import itertools

import torch

from mc import hist, structs
from mc.cmp import dense, same, show
from mc.vdev import CPU, DEV, VDev, norm

from checks import S07

PID = "X01"
LEVEL = "model_checking"
CHUNK = {"quick": 12, "thorough": 40}
BOUNDS = {
    "quick": "4 classes x 2-3 base histories: every single view (group views included) read before the move x every single edit or none after it x every view read alone or all views after it, there and back; every history of <=3 steps over {to device, to CPU, read all, 4 edits, clone, message passing and smoothing with features on either device}; every message-passing stage x aggregation x caller weights x group x both device placements, cold and warm; every derived structure (clone, drop, subgraph, switch, reverse, conversions and constructors with a device argument) on both devices",
    "thorough": "as quick with 4-step histories and every pair of views read before the move",
}
ASSUME = ["the second device is emulated: tensors carry a device tag, operations on tensors of different devices are refused as torch refuses them", "caller weights are on the features' device"]
D = norm(DEV)
HOMES = {"C": CPU, "D": D}
BASES = {
    "Graph": [(["Graph", 3, False], [["add", [[0, 1], [1, 2]], [2.0, 0.5], "mean"]]), (["Graph", 3, True], [["add", [[0, 1], [0, 0]], [2.0, 3.0], "mean"]]), (["Graph", 2, False], [])],
    "DiGraph": [(["DiGraph", 3, False], [["add", [[0, 1], [1, 2], [2, 2]], [2.0, 0.5, 3.0], "mean"]]), (["DiGraph", 3, True], [["add", [[1, 0], [2, 0]], [2.0, 3.0], "mean"]]), (["DiGraph", 2, False], [])],
    "BiGraph": [(["BiGraph", 3, 2], [["add", [[0, 1], [1, 0], [1, 1]], [2.0, 0.5, 3.0], "mean"]]), (["BiGraph", 2, 2], [])],
    "Hypergraph": [(["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]], [["add", [[0, 1], [1, 2, 3]], [2.0, 0.5], "mean", "main"], ["add", [[0, 1], [2]], [3.0, 4.0], "mean", "a"]]),
                   (["Hypergraph", 3, None], [["add", [[0, 1], [2]], None, "mean", "b"]]), (["Hypergraph", 2, None], [])],
}
EDIT = {
    "Graph": [["add", [0, 1], 4.0, "sum"], ["add", [1, 1], 2.0, "max"], ["remove", [0, 1]], ["xloop"], ["rmloop"], ["clear"]],
    "DiGraph": [["add", [0, 1], 4.0, "sum"], ["add", [1, 1], 2.0, "max"], ["remove", [0, 1]], ["rev"], ["xloop"], ["clear"]],
    "BiGraph": [["add", [0, 1], 4.0, "sum"], ["add", [0, 0], None, "mean"], ["remove", [1, 0]], ["switch"], ["clear"]],
    "Hypergraph": [["add", [[1, 0]], [4.0], "sum", "main"], ["add", [[1]], None, "mean", "a"], ["add", [[0, 1]], None, "mean", "c"], ["remove", [[0, 1]], None], ["rmgroup", "a"], ["clear"]],
}


def tensor_names(obj):
    """every observable of the class that hands out tensors: properties, and per-group methods for every group"""
    kind = type(obj).__name__
    out = list(structs.SNAP[kind])
    if kind == "Hypergraph":
        out += ["H_v2e", "H_e2v"]
        out += [f"{n}_of_group({g})" for n in sorted(VIEW) for g in obj.group_names]
    return out


VIEW = {"v2e_src", "v2e_dst", "v2e_weight", "e2v_src", "e2v_dst", "e2v_weight", "H", "H_T", "W_e", "D_v", "D_v_neg_1", "D_v_neg_1_2", "D_e", "D_e_neg_1", "L_sym", "L_rw", "L_HGNN", "H_v2e", "H_e2v"}


def read(obj, name):
    if "(" in name:
        n, g = name[:-1].split("(", 1)
        return getattr(obj, n)(g) if g in obj.group_names else None
    return getattr(obj, name)


def devs(x, out):
    if isinstance(x, torch.Tensor):
        out.append(x.device)
    elif isinstance(x, (list, tuple)):
        for v in x:
            devs(v, out)
    return out


def audit(obj, m, dev, ctx, where, only=None):
    """everything observable of obj is on dev and has the model's value"""
    ctx.check(norm(obj.device) == dev, "device-attribute", lambda: f"{where}: device is {obj.device}, expected {dev}")
    for n in [only] if only else tensor_names(obj):
        try:
            x = read(obj, n)
        except NotImplementedError:
            continue
        except Exception as e:
            ctx.fail(f"view-raises:{n.split('(')[0]}", f"{where}: reading {n} on {dev} raised {e!r}")
        for d in devs(x, []):
            ctx.check(d == dev, f"view-device:{n.split('(')[0]}", lambda: f"{where}: {n} is on {d}, the structure on {dev}")
    if not only:
        hist.observe(obj, m, ctx, where)
    else:
        hist.observe(obj, m, ctx, where, only=only.split("(")[0])


def cases(tier):
    for kind, bases in BASES.items():
        for b in range(len(bases)):
            yield ["mp", kind, b]
            yield ["derive", kind, b]
            yield ["probe", kind, b, tier == "thorough"]
    for kind, bases in BASES.items():
        ops = alphabet(kind)
        for b in range(len(bases)):
            L = 4 if tier == "thorough" and b == 0 else 3
            for h in itertools.product(range(len(ops)), repeat=L - 1):
                yield ["hist", kind, b, list(h)]


def alphabet(kind):
    return [["to", "D"], ["to", "C"], ["readall"], ["clone"]] + EDIT[kind][:4] + [["mp", 0, "D"], ["mp", 0, "C"], ["mp", 1, "D"], ["mp", 1, "C"]]


def base(kind, b, ctx):
    init, ops = BASES[kind][b]
    obj, m = structs.new(init)
    for op in ops:
        obj, m = hist.step(obj, m, op, ctx, "base")
    return obj, m


def build(kind, b, edits):
    """CPU twin by replay"""
    init, ops = BASES[kind][b]
    obj, m = structs.new(init)
    for op in list(ops) + list(edits):
        try:
            m2 = m.copy()
            m2.apply(op)
        except structs.Reject:
            continue
        obj, m = structs.apply_real(obj, op), m2
    return obj


def feats(n, c=2):
    return torch.tensor([[(((17 * i + 29 * j + 5 * i * j) % 23) - 11.3) / 6.1 for j in range(c)] for i in range(n)]).reshape(n, c)


def wts(n, k=0):
    return torch.tensor([0.5 + ((7 * i + 3 * k) % 5) * 0.75 for i in range(n)])


def stages(obj):
    """name -> (function of features and a mover, does it move the structure to the features' device)"""
    kind = type(obj).__name__
    out = {}
    A = ("mean", "sum", "softmax_then_sum")
    if kind == "Graph":
        out["smooth"] = lambda o, mv: o.smoothing_with_GCN(mv(feats(o.num_v)))
        for a in A:
            out[f"v2v:{a}"] = lambda o, mv, a=a: o.v2v(mv(feats(o.num_v)), aggr=a)
            out[f"v2v:{a}:w"] = lambda o, mv, a=a: o.v2v(mv(feats(o.num_v)), aggr=a, e_weight=mv(wts(o.e_weight.shape[0])))
        out["v2v:drop"] = lambda o, mv: o.v2v(mv(feats(o.num_v)), aggr="sum", drop_rate=0.5)
        out["smooth:drop"] = lambda o, mv: o.smoothing_with_GCN(mv(feats(o.num_v)), drop_rate=0.5)
    elif kind == "DiGraph":
        for dr in ("dst2src", "src2dst"):
            for a in A:
                out[f"v2v:{dr}:{a}"] = lambda o, mv, a=a, dr=dr: o.v2v(mv(feats(o.num_v)), aggr=a, direction=dr)
                out[f"v2v:{dr}:{a}:w"] = lambda o, mv, a=a, dr=dr: o.v2v(mv(feats(o.num_v)), aggr=a, direction=dr, e_weight=mv(wts(o.e_weight.shape[0])))
            out[f"v2v:{dr}:drop"] = lambda o, mv, dr=dr: o.v2v(mv(feats(o.num_v)), aggr="sum", direction=dr, drop_rate=0.5)
    elif kind == "BiGraph":
        out["smooth"] = lambda o, mv: o.smoothing_with_GCN(mv(feats(o.num_u + o.num_v)))
        for s, n in (("u2v", "num_u"), ("v2u", "num_v")):
            for a in A:
                out[f"{s}:{a}"] = lambda o, mv, a=a, s=s, n=n: getattr(o, s)(mv(feats(getattr(o, n))), aggr=a)
                out[f"{s}:{a}:w"] = lambda o, mv, a=a, s=s, n=n: getattr(o, s)(mv(feats(getattr(o, n))), aggr=a, e_weight=mv(wts(o.e_weight.shape[0])))
            out[f"{s}:drop"] = lambda o, mv, s=s, n=n: getattr(o, s)(mv(feats(getattr(o, n))), aggr="sum", drop_rate=0.5)
        out["smooth:drop"] = lambda o, mv: o.smoothing_with_GCN(mv(feats(o.num_u + o.num_v)), drop_rate=0.5)
    else:
        for g in [None] + list(obj.group_names):
            f = lambda o, n, g=g: (getattr(o, n) if g is None else (lambda *a, **k: getattr(o, n + "_of_group")(g, *a, **k)))
            ne = lambda o, g=g: o.num_e if g is None else o.num_e_of_group(g)
            cnt = lambda o, g=g: (o.v2e_weight if g is None else o.v2e_weight_of_group(g)).shape[0]
            s = "" if g is None else f":{g}"
            out["smooth" + s] = lambda o, mv, f=f: f(o, "smoothing_with_HGNN")(mv(feats(o.num_v)))
            out["smooth:drop" + s] = lambda o, mv, f=f: f(o, "smoothing_with_HGNN")(mv(feats(o.num_v)), drop_rate=0.5)
            for a in A:
                out[f"v2v:{a}{s}"] = lambda o, mv, a=a, f=f: f(o, "v2v")(mv(feats(o.num_v)), aggr=a)
                out[f"v2e:{a}{s}"] = lambda o, mv, a=a, f=f: f(o, "v2e")(mv(feats(o.num_v)), aggr=a)
                out[f"e2v:{a}{s}"] = lambda o, mv, a=a, f=f, ne=ne: f(o, "e2v")(mv(feats(ne(o))), aggr=a)
                out[f"v2e:{a}:w{s}"] = lambda o, mv, a=a, f=f, ne=ne, cnt=cnt: f(o, "v2e")(mv(feats(o.num_v)), aggr=a, v2e_weight=mv(wts(cnt(o))), e_weight=mv(wts(ne(o), 1)))
                out[f"e2v:{a}:w{s}"] = lambda o, mv, a=a, f=f, ne=ne, cnt=cnt: f(o, "e2v")(mv(feats(ne(o))), aggr=a, e2v_weight=mv(wts(cnt(o))))
                out[f"v2e_aggregation:{a}{s}"] = lambda o, mv, a=a, f=f: f(o, "v2e_aggregation")(mv(feats(o.num_v)), aggr=a)
                out[f"e2v_aggregation:{a}{s}"] = lambda o, mv, a=a, f=f, ne=ne: f(o, "e2v_aggregation")(mv(feats(ne(o))), aggr=a)
            out[f"v2e_update{s}"] = lambda o, mv, f=f, ne=ne: f(o, "v2e_update")(mv(feats(ne(o))))
            out[f"v2e_update:w{s}"] = lambda o, mv, f=f, ne=ne: f(o, "v2e_update")(mv(feats(ne(o))), mv(wts(ne(o))))
            out[f"e2v_update{s}"] = lambda o, mv, f=f: f(o, "e2v_update")(mv(feats(o.num_v)))
            out[f"v2v:drop{s}"] = lambda o, mv, f=f: f(o, "v2v")(mv(feats(o.num_v)), aggr="sum", drop_rate=0.5)
            out[f"v2e:drop{s}"] = lambda o, mv, f=f: f(o, "v2e")(mv(feats(o.num_v)), aggr="sum", drop_rate=0.5)
    return out


BRIEF = {"Graph": ["v2v:mean", "smooth"], "DiGraph": ["v2v:dst2src:mean", "v2v:src2dst:sum"], "BiGraph": ["u2v:mean", "smooth"], "Hypergraph": ["v2v:mean", "smooth"]}


def run_mp(obj, twin, name, xdev, ctx, where):
    """one message-passing call with features on xdev; returns the device the structure reports afterwards"""
    f = stages(twin)[name]
    torch.manual_seed(5)
    exp = dense(f(twin, lambda t: t))
    torch.manual_seed(5)
    before = norm(obj.device)
    try:
        y = f(obj, lambda t: t.to(xdev))
    except Exception as e:
        ctx.fail(f"mp-raises:{name.split(':')[0]}", f"{where}: {name} with features on {xdev} and structure on {before} raised {e!r}")
    ctx.step()
    now = norm(obj.device)
    ctx.check(now in (before, xdev), "mp-device", lambda: f"{where}: {name} put the structure on {now}")
    ctx.check(y.device in (before, xdev), "mp-device", lambda: f"{where}: {name}: result on {y.device}")
    if not name.startswith("smooth"):
        ctx.check(now == xdev and y.device == xdev, "mp-device", lambda: f"{where}: {name} with features on {xdev}: structure on {now}, result on {y.device}")
    ctx.check(same(dense(y), exp), f"mp-value:{name.split(':')[0]}", lambda: f"{where}: {name}: got {show(dense(y))}, on the CPU {show(exp)}")
    return now


def do_hist(case, ctx):
    _, kind, b, h = case
    ops = [alphabet(kind)[k] for k in h]
    for last in alphabet(kind):
        obj, m = base(kind, b, ctx)
        dev, edits = CPU, []
        for i, op in enumerate(ops + [last]):
            where = f"{BASES[kind][b]} then {ops + [last]}"
            if op[0] == "to":
                dev = HOMES[op[1]]
                r = obj.to(torch.device(dev.type) if i % 2 else dev)  # with and without an index
                ctx.step()
                ctx.check(r is obj, "to-returns-self", f"{where}: to() returned another object")
            elif op[0] == "readall":
                structs.snapshot(obj)
                ctx.step()
            elif op[0] == "mp":
                name = BRIEF[kind][op[1]]
                if m_empty(obj):
                    continue
                dev = run_mp(obj, build(kind, b, edits), name, HOMES[op[2]], ctx, where)
            else:
                obj, m = hist.step(obj, m, op, ctx, where)
                edits.append(op)
            ctx.state((m.key(), str(dev)))
        audit(obj, m, dev, ctx, where)
        ctx.trace()
        ctx.outcome((m.key(), str(dev)))


def m_empty(obj):
    return obj.num_e == 0


def do_probe(case, ctx):
    _, kind, b, pairs = case
    obj, m = base(kind, b, ctx)
    names = tensor_names(obj)
    pre = [[]] + [[n] for n in names] + ([[n, k] for n in names for k in names if n < k] if pairs else []) + [names]
    for p in pre:
        for home, away in ((CPU, D), (D, CPU)):
            for op in [None] + EDIT[kind]:
                if op is not None and pairs and len(p) == 2:
                    continue
                for post in [None] + (names if op is None and len(p) in (0, 1, len(names)) else []):
                    obj, m = base(kind, b, ctx)
                    where = f"{BASES[kind][b]} on {home}: read {p}, move to {away}, {op}, read {post or 'all'}"
                    obj.to(home)
                    for n in p:
                        try:
                            read(obj, n)
                        except NotImplementedError:
                            pass
                    obj.to(away)
                    ctx.step(len(p) + 2)
                    if op is not None:
                        obj, m = hist.step(obj, m, op, ctx, where)
                    audit(obj, m, away, ctx, where, only=post)
                    ctx.trace()
                    ctx.state((m.key(), tuple(p), str(away), post))
                    ctx.outcome((m.key(), str(away)))


def do_mp(case, ctx):
    _, kind, b = case
    obj, m = base(kind, b, ctx)
    if m_empty(obj):
        return
    for name in stages(obj):
        for sdev, xdev in itertools.product(HOMES.values(), repeat=2):
            for warm in (0, 1):
                obj, m = base(kind, b, ctx)
                where = f"{BASES[kind][b]} on {sdev}{' with all views read' if warm else ''}"
                if warm:
                    structs.snapshot(obj)
                obj.to(sdev)
                now = run_mp(obj, build(kind, b, []), name, xdev, ctx, where)
                audit(obj, m, now, ctx, f"{where}, then {name} with features on {xdev}")
                # and once more after an edit, from the other side
                op = EDIT[kind][0]
                obj, m = hist.step(obj, m, op, ctx, where)
                if name in stages(obj):
                    other = D if xdev == CPU else CPU
                    now = run_mp(obj, build(kind, b, [op]), name, other, ctx, f"{where}, then {name} with features on {xdev}, {op}")
                    audit(obj, m, now, ctx, f"{where}, then {name} with features on {xdev}, {op}, {name} with features on {other}")
                ctx.trace()
                ctx.state((kind, b, name, str(sdev), str(xdev), warm))
                ctx.outcome((kind, b, name))


def derived(kind):
    """name -> (function(structure, device argument), where the result lives: "self" = on the structure's device, "arg" = on the device asked for, "cpu")"""
    import dhg

    out = {"clone": (lambda o, d: o.clone(), "self"), "from_state_dict": (lambda o, d: type(o).from_state_dict(o.state_dict).to(d), "arg"),
           "save/load": (lambda o, d: structs._rt_save(o).to(d), "arg")}
    if kind == "Hypergraph":
        F = lambda o: feats(o.num_v)
        for n in ("from_hypergraph_star", "from_hypergraph_clique"):
            for w in (False, True):
                out[f"{n}:{w}"] = (lambda o, d, n=n, w=w: getattr(dhg.Graph, n)(o, weighted=w, device=d), "arg")
        for w, vu in itertools.product((False, True), repeat=2):
            out[f"BiGraph.from_hypergraph:{w}{vu}"] = (lambda o, d, w=w, vu=vu: dhg.BiGraph.from_hypergraph(o, vertex_as_U=vu, weighted=w, device=d), "arg")
        for med in (False, True):
            for fd in HOMES:
                out[f"hypergcn:{med}:{fd}"] = (lambda o, d, med=med, fd=fd: dhg.Graph.from_hypergraph_hypergcn(o, F(o).to(HOMES[fd]), with_mediator=med, device=d), "arg")
        out["drop"] = (lambda o, d: o.drop_hyperedges(0.4), "self")
        out["drop_group"] = (lambda o, d: o.drop_hyperedges_of_group(o.group_names[0], 0.4), "self")
        out["subgraph"] = (lambda o, d: o.subgraph([0, 1]), "self")
        for fd in HOMES:
            out[f"from_feature_kNN:{fd}"] = (lambda o, d, fd=fd: dhg.Hypergraph.from_feature_kNN(F(o).to(HOMES[fd]), 2, device=d), "arg")
            out[f"add_kNN:{fd}"] = (lambda o, d, fd=fd: S07._do(o.clone(), "add_hyperedges_from_feature_kNN", F(o).to(HOMES[fd]), 2, group_name="k"), "self")
        out["constructor"] = (lambda o, d: dhg.Hypergraph(o.num_v, *o.e, v_weight=o.v_weight, device=d), "arg")
    elif kind == "Graph":
        for k in (1, 2):
            for only in (False, True):
                out[f"kHop:{k}{only}"] = (lambda o, d, k=k, only=only: dhg.Hypergraph.from_graph_kHop(o, k, only_kHop=only, device=d), "arg")
                out[f"add_kHop:{k}{only}"] = (lambda o, d, k=k, only=only: S07._do(dhg.Hypergraph(o.num_v, device=d), "add_hyperedges_from_graph_kHop", o, k, only), "arg")
        out["from_graph"] = (lambda o, d: dhg.Hypergraph.from_graph(o, device=d), "arg")
        out["add_from_graph"] = (lambda o, d: S07._do(dhg.Hypergraph(o.num_v, device=d), "add_hyperedges_from_graph", o), "arg")
        out["drop"] = (lambda o, d: o.drop_edges(0.4), "self")
        out["constructor"] = (lambda o, d: dhg.Graph(o.num_v, *o.e, device=d), "arg")
        out["from_adj_list"] = (lambda o, d: dhg.Graph.from_adj_list(3, [[0, 1, 2], [2, 1]], device=d), "arg")
    elif kind == "DiGraph":
        out["drop"] = (lambda o, d: o.drop_edges(0.4), "self")
        out["reverse"] = (lambda o, d: S07._do(o.clone(), "reverse_direction"), "self")
        out["constructor"] = (lambda o, d: dhg.DiGraph(o.num_v, *o.e, device=d), "arg")
        out["from_adj_list"] = (lambda o, d: dhg.DiGraph.from_adj_list(3, [[0, 1, 2], [2, 1]], device=d), "arg")
        for fd in HOMES:
            for w in (False, True):
                out[f"from_feature_kNN:{fd}{w}"] = (lambda o, d, fd=fd, w=w: dhg.DiGraph.from_feature_kNN(feats(4).to(HOMES[fd]), 1, distance2weight=w, device=d), "arg")
    else:
        out["drop"] = (lambda o, d: o.drop_edges(0.4), "self")
        out["switch"] = (lambda o, d: o.switch_uv(), "self")
        out["constructor"] = (lambda o, d: dhg.BiGraph(o.num_u, o.num_v, *o.e, device=d), "arg")
        out["from_adj_list"] = (lambda o, d: dhg.BiGraph.from_adj_list(3, 2, [[0, 1], [2, 0, 1]], device=d), "arg")
        for u in (False, True):
            out[f"from_bigraph:{u}"] = (lambda o, d, u=u: dhg.Hypergraph.from_bigraph(o, U_as_vertex=u, device=d), "arg")
            n = lambda o, u=u: o.num_u if u else o.num_v
            out[f"add_from_bigraph:{u}"] = (lambda o, d, u=u, n=n: S07._do(dhg.Hypergraph(n(o), device=d), "add_hyperedges_from_bigraph", o, U_as_vertex=u), "arg")
    return out


def do_derive(case, ctx):
    import random

    _, kind, b = case
    import numpy as np

    def seed():
        random.seed(3), np.random.seed(3), torch.manual_seed(3)

    for name, (f, home) in derived(kind).items():
        seed()
        try:
            ref = f(build(kind, b, []), CPU)
        except (AssertionError, ValueError, KeyError, IndexError, RuntimeError):
            continue  # not applicable to this structure (decided on the CPU)
        mask = None
        if isinstance(ref, tuple):
            ref, mask = ref
        want = structs.snapshot(ref)
        for sdev, adev in itertools.product(HOMES.values(), repeat=2):
            for warm in (0, 1):
                obj, m = base(kind, b, ctx)
                where = f"{BASES[kind][b]} on {sdev}{' with all views read' if warm else ''}, {name} (device argument {adev})"
                if warm:
                    structs.snapshot(obj)
                obj.to(sdev)
                if warm:
                    structs.snapshot(obj)
                seed()
                try:
                    res = f(obj, adev)
                except Exception as e:
                    ctx.fail(f"derive-raises:{name.split(':')[0]}", f"{where} raised {e!r}")
                ctx.step()
                dev = sdev if home == "self" else adev
                if isinstance(res, tuple):
                    res, mk = res
                    ctx.check(mk.device == dev and same(dense(mk), dense(mask)), f"derive-mask:{name.split(':')[0]}", lambda: f"{where}: mask {mk} on {mk.device}")
                if name == "switch" and res is not obj:
                    pass
                ctx.check(norm(res.device) == dev, f"derive-device:{name.split(':')[0]}", lambda: f"{where}: the result reports {res.device}, expected {dev}")
                for n in tensor_names(res):
                    try:
                        x = read(res, n)
                    except NotImplementedError:
                        continue
                    for d in devs(x, []):
                        ctx.check(d == dev, f"derive-view-device:{name.split(':')[0]}", lambda: f"{where}: {n} of the result is on {d}, the result on {dev}")
                diff = structs.snap_diff(want, structs.snapshot(res))
                ctx.check(diff is None, f"derive-value:{name.split(':')[0]}", lambda: f"{where}: {diff} differs from the CPU result")
                audit(obj, m, sdev, ctx, f"{where}: the source afterwards")
                ctx.trace()
                ctx.state((kind, b, name, str(sdev), str(adev), warm))
                ctx.outcome((kind, b, name, str(dev)))


def run(case, ctx):
    with VDev() as v:
        {"hist": do_hist, "probe": do_probe, "mp": do_mp, "derive": do_derive}[case[0]](case, ctx)
        ctx.count("device-moves", v.moves)


def shrink(case):
    if case[0] == "hist":
        yield from hist.shrink_history(case, 3)
