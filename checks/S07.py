"""Copies evolve independently; caller-owned containers, tensors, state dictionaries and source structures are untouched.

Part A explores interleaved histories over two live objects (original and copy), each in lock step with its own model.
Part B executes every container-taking call, compares the arguments with a snapshot, then mutates the arguments and
compares the structure with a snapshot.
"""
import copy
import itertools

import numpy as np

from mc import big, hist, structs
from mc.cmp import same, show

PID = "S07"
LEVEL = "model_checking"
CHUNK = {"quick": 100, "thorough": 300}
BOUNDS = {
    "quick": "4 classes x 5-6 base histories x {clone, state dict, save/load, zero-rate drop, side switch / full subgraph} x {nothing, everything} read before the copy x all interleaved histories of 2 edits on either object (all views of both compared); the same copies of fixed structures of 11 and 14 vertices x every edit on either object; 44 container-taking calls with argument mutation afterwards; 13 conversions with source and result mutated afterwards; fixed structures of 140 vertices",
    "thorough": "quick + all interleaved histories of 3 edits on either object for clone and state dict, over 2 bases per class",
}
ASSUME = ["CPU device", "containers handed out by the library are not mutated by the caller, containers handed in are"]

BASES = {
    "Graph": (["Graph", 3, False], [[], [["add", [[0, 1], [1, 2]], [2.0, 0.5], "mean"]], [["add", [[0, 1], [1, 1]], [2.0, 3.0], "mean"], ["xloop"]],
                                    [["add", [[0, 2], [2, 2]], None, "mean"], ["rmloop"]], [["xloop"], ["add", [0, 0], 4.0, "mean"]]]),
    "DiGraph": (["DiGraph", 3, False], [[], [["add", [[0, 1], [1, 2]], [2.0, 0.5], "mean"]], [["add", [[0, 1], [1, 1]], [2.0, 3.0], "mean"], ["xloop"]],
                                        [["add", [[0, 2], [2, 2]], None, "mean"], ["rev"]], [["xloop"], ["add", [0, 0], 4.0, "mean"]]]),
    "BiGraph": (["BiGraph", 3, 2], [[], [["add", [[0, 1], [1, 0]], [2.0, 0.5], "mean"]], [["add", [[0, 0], [0, 1], [2, 1]], None, "mean"]],
                                    [["add", [[0, 1], [1, 1]], [2.0, 3.0], "mean"], ["remove", [0, 1]]]]),
    "Hypergraph": (["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]], [[], [["add", [[0, 1], [1, 2, 3]], [2.0, 0.5], "mean", "main"]],
                                                         [["add", [[0, 1], [3]], [2.0, 0.5], "mean", "main"], ["add", [[0, 1]], [3.0], "mean", "a"]],
                                                         [["add", [[0, 1]], None, "mean", "a"], ["add", [[2, 3]], None, "mean", "b"], ["rmgroup", "a"]]]),
}
G_EDIT = [["add", [0, 1], 4.0, "sum"], ["add", [[1, 2]], None, "mean"], ["add", [1, 1], 2.0, "max"], ["remove", [0, 1]], ["rmloop"], ["xloop"], ["clear"]]
EDITS = {
    "Graph": G_EDIT, "DiGraph": G_EDIT[:6] + [["rev"], ["clear"]],
    "BiGraph": [["add", [0, 1], 4.0, "sum"], ["add", [[1, 1]], None, "mean"], ["add", [1, 0], 2.0, "max"], ["remove", [0, 1]], ["clear"]],
    "Hypergraph": [["add", [[1, 0]], [4.0], "sum", "main"], ["add", [[2, 3]], None, "mean", "a"], ["add", [[0]], None, "mean", "b"], ["remove", [[0, 1]], None],
                   ["remove", [[1, 2, 3]], None], ["rmgroup", "a"], ["clear"]],
}
COPIES = {"Graph": ["clone", "sd", "save", "drop0"], "DiGraph": ["clone", "sd", "save", "drop0"], "BiGraph": ["clone", "sd", "save", "drop0", "switch"],
          "Hypergraph": ["clone", "sd", "save", "drop0", "sub"]}


def cases(tier):
    for kind, (init, bases) in BASES.items():
        E = EDITS[kind]
        for base in bases:
            for cp in COPIES[kind]:
                for warm in (0, 1):
                    for k1, k2 in itertools.product((0, 1), repeat=2):
                        for a, b in itertools.product(E, repeat=2):
                            if (k1, k2) == (1, 1) and tier == "quick" and cp not in ("clone", "sd"):
                                continue
                            yield ["copy", kind, init, base, cp, warm, [[k1, a], [k2, b]]]
    for kind in BASES:
        for n, sd in ((11, 1), (14, 2)) + (((24, 3), (40, 4)) if tier == "thorough" else ()):
            init, ops = big.base(kind, n, sd, 5)
            for cp in COPIES[kind]:
                for warm in (0, 1):
                    for k in (0, 1):
                        for op in EDITS[kind]:
                            yield ["copy", kind, init, ops, cp, warm, [[k, op]]]
        init, ops = big.base(kind, 140, 3, 4)
        for cp in COPIES[kind]:
            for k, op in enumerate(EDITS[kind][:4]):
                yield ["copy", kind, init, ops, cp, k // 2, [[k % 2, op]]]
        for init, ops in big.odd_states(kind):
            for cp in COPIES[kind]:
                yield ["oddcopy", kind, init, ops, cp]
    for name in CALLS:
        yield ["call", name]
    for name in CONV:
        for k in range(len(CONV_SRC[name.split(":")[0]])):
            yield ["conv", name, k]
    if tier == "thorough":
        for kind, (init, bases) in BASES.items():
            E = EDITS[kind]
            for base in bases[1:3]:
                for cp in COPIES[kind][:2]:
                    for ks in itertools.product((0, 1), repeat=3):
                        for ops in itertools.product(E, repeat=3):
                            yield ["copy", kind, init, base, cp, 1, [[k, o] for k, o in zip(ks, ops)]]


def make_copy(obj, m, how):
    if how == "drop0":
        c = obj.drop_hyperedges(0.0) if m.kind == "Hypergraph" else obj.drop_edges(0.0)
        return c, m.copy()
    if how == "sub":
        return obj.subgraph(list(range(m.n))), m.copy()
    m2 = m.copy()
    m2.apply([how])
    return structs.apply_real(obj, [how]), m2


def run_copy(case, ctx):
    _, kind, init, base, cp, warm, sched = case
    obj, m = structs.new(init)
    for op in base:
        obj, m = hist.step(obj, m, op, ctx, "base")
    if warm:
        hist.observe(obj, m, ctx, "before copying")
    try:
        c, mc_ = make_copy(obj, m, cp)
    except Exception as e:
        ctx.fail(f"copy-raises:{cp}", repr(e))
    objs, ms = [obj, c], [m, mc_]
    ctx.step()
    ctx.count("copy:" + cp)
    if warm:
        hist.observe(c, mc_, ctx, f"the copy made by {cp}")
    for i, (k, op) in enumerate(sched):
        where = f"{kind} {base} copied by {cp} (warm={warm}); schedule {sched[:i + 1]} (0 = original, 1 = copy)"
        objs[k], ms[k] = hist.step(objs[k], ms[k], op, ctx, where)
        ctx.state((kind, ms[0].key(), ms[1].key()))
        hist.observe(objs[1 - k], ms[1 - k], ctx, where + f": the untouched {'copy' if k == 0 else 'original'}",
                     store_only=(i + 1 < len(sched) and not warm))
    for k in (0, 1):
        hist.observe(objs[k], ms[k], ctx, where + f": finally the {['original', 'copy'][k]}")
    ctx.trace()
    ctx.outcome((kind, ms[0].key(), ms[1].key()))


def run_oddcopy(case, ctx):
    """unusual stored weights: the copy carries exactly the same ones, and losing an edge in one leaves the other alone"""
    _, kind, init, ops, cp = case
    obj, m = big.build(init, ops)
    c, mc_ = make_copy(obj, m, cp)
    where = f"{init} {ops} copied by {cp}"
    hist.observe(c, mc_, ctx, where, store_only=True)
    hist.observe(obj, m, ctx, where + ": the original", store_only=True)
    hyper = kind == "Hypergraph"
    op = ["remove", [[0, 1]], None] if hyper else ["remove", [[1, 0] if cp == "switch" else [0, 1]]]
    c, mc_ = hist.step(c, mc_, op, ctx, where)
    hist.observe(obj, m, ctx, where + ": the untouched original", store_only=True)
    hist.observe(c, mc_, ctx, where + ": the edited copy", store_only=True)
    ctx.state((kind, m.key(), mc_.key()))
    ctx.trace()
    ctx.outcome((kind, m.key(), mc_.key()))


# ---- part B: containers --------------------------------------------------------------------
def wreck(x):
    """Mutate a caller-owned container in place, deeply."""
    import torch

    if isinstance(x, torch.Tensor):
        x.mul_(0).add_(7)
    elif isinstance(x, np.ndarray):
        x[...] = 7
    elif isinstance(x, dict):
        for v in list(x.values()):
            wreck(v)
        for k in list(x):
            if isinstance(x[k], float):
                x[k] = 77.0
        if x:
            x.pop(next(iter(x)))
    elif isinstance(x, list):
        for v in x:
            wreck(v)
        if x and isinstance(x[0], (int, float)):
            x[0] = x[0] + 1
            x.append(x[0])
        elif x:
            x.pop(0)
        x.reverse()


def eq(a, b):
    import torch

    if isinstance(a, torch.Tensor):
        return torch.equal(a.to_dense(), b.to_dense()) and a.dtype == b.dtype
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def _calls():
    import dhg
    import torch

    L = lambda: [[2, 1], [0, 1], [1, 1]]
    W = lambda: [1.0, 2.0, 3.0]
    T = lambda: [(2, 1), (0, 1), (1, 1)]
    HL = lambda: [[3, 1, 0], [2, 1], [3]]
    # name -> (args factory, function(args) -> structure)
    c = {}
    for nm in ("Graph", "DiGraph"):
        C = getattr(dhg, nm)
        c[f"{nm}(list)"] = (lambda: [L(), W()], lambda a, C=C: C(3, a[0], a[1]))
        c[f"{nm}(tuples)"] = (lambda: [T(), W()], lambda a, C=C: C(3, a[0], a[1]))
        c[f"{nm}(single)"] = (lambda: [[2, 1]], lambda a, C=C: C(3, a[0], 2.0))
        c[f"{nm}.add_edges"] = (lambda: [L(), W()], lambda a, C=C: _do(C(3, [[0, 1]]), "add_edges", *a))
        c[f"{nm}.add_edges(single)"] = (lambda: [[2, 1]], lambda a, C=C: _do(C(3, [[0, 1]]), "add_edges", *a))
        c[f"{nm}.add_edges(merge)"] = (lambda: [L(), W()], lambda a, C=C: _do(C(3, [[0, 1], [1, 1]]), "add_edges", *a, merge_op="sum"))
        c[f"{nm}.remove_edges"] = (lambda: [L()], lambda a, C=C: _do(C(3, [[0, 1], [1, 2], [2, 0]]), "remove_edges", *a))
        c[f"{nm}.from_adj_list"] = (lambda: [[[0, 1, 2], [2, 1]]], lambda a, C=C: C.from_adj_list(3, a[0]))
        c[f"{nm}.from_state_dict"] = (lambda C=C: [copy.deepcopy(C(3, L(), W(), extra_selfloop=True).state_dict)], lambda a, C=C: C.from_state_dict(a[0]))
        c[f"{nm}(e of another)"] = (lambda C=C: list(C(3, L(), W()).e), lambda a, C=C: _do(C(3, a[0], a[1]), "add_edges", [[0, 2]], [3.0]))
    C = dhg.BiGraph
    BL = lambda: [[2, 1], [0, 1], [1, 0]]
    c["BiGraph(list)"] = (lambda: [BL(), W()], lambda a, C=C: C(3, 2, a[0], a[1]))
    c["BiGraph.add_edges"] = (lambda: [BL(), W()], lambda a, C=C: _do(C(3, 2, [[0, 1]]), "add_edges", *a))
    c["BiGraph.add_edges(single)"] = (lambda: [[2, 1]], lambda a, C=C: _do(C(3, 2, [[0, 1]]), "add_edges", *a))
    c["BiGraph.remove_edges"] = (lambda: [BL()], lambda a, C=C: _do(C(3, 2, [[0, 1], [0, 0]]), "remove_edges", *a))
    c["BiGraph.from_adj_list"] = (lambda: [[[0, 1], [2, 0, 1]]], lambda a, C=C: C.from_adj_list(3, 2, a[0]))
    c["BiGraph.from_state_dict"] = (lambda: [copy.deepcopy(dhg.BiGraph(3, 2, BL(), W()).state_dict)], lambda a, C=C: C.from_state_dict(a[0]))
    C = dhg.Hypergraph
    c["Hypergraph(list)"] = (lambda: [HL(), W(), [1.0, 2.0, 3.0, 4.0]], lambda a, C=C: C(4, a[0], a[1], v_weight=a[2]))
    c["Hypergraph(v_weight only)"] = (lambda: [[1.0, 2.0, 3.0, 4.0]], lambda a, C=C: C(4, v_weight=a[0]))
    c["Hypergraph(single)"] = (lambda: [[3, 1, 0]], lambda a, C=C: C(4, a[0]))
    c["Hypergraph(tuples)"] = (lambda: [[(3, 1, 0), (2, 1)], [1.0, 2.0]], lambda a, C=C: C(4, a[0], a[1]))
    for g in ("main", "a"):
        c[f"Hypergraph.add_hyperedges({g})"] = (lambda: [HL(), W()], lambda a, C=C, g=g: _do(C(4, [[1, 2], [0, 3]]), "add_hyperedges", *a, group_name=g))
        c[f"Hypergraph.add_hyperedges({g},single)"] = (lambda: [[3, 1, 0]], lambda a, C=C, g=g: _do(C(4, [[1, 2], [0, 3]]), "add_hyperedges", *a, group_name=g))
    c["Hypergraph.add_hyperedges(merge)"] = (lambda: [HL(), W()], lambda a, C=C: _do(C(4, [[1, 2], [0, 1, 3]]), "add_hyperedges", *a, merge_op="max"))
    c["Hypergraph.remove_hyperedges"] = (lambda: [[[2, 1], [3]]], lambda a, C=C: _do(C(4, [[1, 2], [0, 3], [3]]), "remove_hyperedges", *a))
    c["Hypergraph.remove_hyperedges(group)"] = (lambda: [[[2, 1], [3]]], lambda a, C=C: _do(C(4, [[1, 2], [0, 3], [3]]), "remove_hyperedges", *a, group_name="main"))
    c["Hypergraph.from_state_dict"] = (lambda: [copy.deepcopy(_grouped().state_dict)], lambda a, C=C: C.from_state_dict(a[0]))
    c["Hypergraph(e of another)"] = (lambda: list(_grouped().e), lambda a, C=C: _do(C(4, a[0], a[1]), "add_hyperedges", [[0, 2]], [3.0]))
    c["Hypergraph(v_weight of another)"] = (lambda: [_grouped().v_weight], lambda a, C=C: C(4, [[0, 1]], v_weight=a[0]))
    c["Hypergraph.subgraph(list)"] = (lambda: [[3, 0, 1]], lambda a: _grouped().subgraph(a[0]))
    c["Hypergraph.subgraph(set)"] = (lambda: [{3, 0, 1}], lambda a: _grouped().subgraph(a[0]))
    F = lambda: torch.tensor([[0.0, 1.0], [2.0, 2.5], [7.0, 0.0], [1.5, 9.0]])
    c["Hypergraph.from_feature_kNN"] = (lambda: [F()], lambda a: dhg.Hypergraph.from_feature_kNN(a[0], 2))
    c["Hypergraph.add_hyperedges_from_feature_kNN"] = (lambda: [F()], lambda a: _do(_grouped(), "add_hyperedges_from_feature_kNN", a[0], 2))
    c["Graph.from_hypergraph_hypergcn"] = (lambda: [F()], lambda a: dhg.Graph.from_hypergraph_hypergcn(dhg.Hypergraph(4, [[0, 1], [1, 2, 3]]), a[0]))
    c["DiGraph.from_feature_kNN"] = (lambda: [F()], lambda a: dhg.DiGraph.from_feature_kNN(a[0].double(), 2))
    return c


def _do(obj, meth, *a, **k):
    getattr(obj, meth)(*a, **k)
    return obj


def _grouped():
    import dhg

    hg = dhg.Hypergraph(4, [[0, 1], [1, 2, 3]], [2.0, 0.5], v_weight=[1.0, 2.0, 0.5, 3.0])
    hg.add_hyperedges([[0, 1], [2]], [3.0, 4.0], group_name="a")
    return hg


CALLS = ["%s%s" % (n, s) for n in ("Graph", "DiGraph") for s in
         ("(list)", "(tuples)", "(single)", ".add_edges", ".add_edges(single)", ".add_edges(merge)", ".remove_edges", ".from_adj_list", ".from_state_dict", "(e of another)")] + [
    "BiGraph(list)", "BiGraph.add_edges", "BiGraph.add_edges(single)", "BiGraph.remove_edges", "BiGraph.from_adj_list", "BiGraph.from_state_dict",
    "Hypergraph(list)", "Hypergraph(v_weight only)", "Hypergraph(single)", "Hypergraph(tuples)", "Hypergraph.add_hyperedges(main)", "Hypergraph.add_hyperedges(a)",
    "Hypergraph.add_hyperedges(main,single)", "Hypergraph.add_hyperedges(a,single)", "Hypergraph.add_hyperedges(merge)", "Hypergraph.remove_hyperedges",
    "Hypergraph.remove_hyperedges(group)", "Hypergraph.from_state_dict", "Hypergraph(e of another)", "Hypergraph(v_weight of another)", "Hypergraph.subgraph(list)", "Hypergraph.subgraph(set)",
    "Hypergraph.from_feature_kNN", "Hypergraph.add_hyperedges_from_feature_kNN", "Graph.from_hypergraph_hypergcn", "DiGraph.from_feature_kNN"]


def run_call(case, ctx):
    name = case[1]
    mk, fn = _calls()[name]
    for warm in (False, True):
        args = mk()
        before = copy.deepcopy(args)
        import random
        random.seed(1)
        import torch
        torch.manual_seed(1)
        obj = fn(args)
        ctx.step()
        ctx.check(eq(before, args), f"argument-modified:{name}", lambda: f"{name} changed its argument\n   before {before}\n   after  {args}")
        snap = structs.snapshot(obj, store_only=not warm)
        ctx.check(eq(before, args), f"argument-modified:{name}", lambda: f"reading the result of {name} changed the argument\n   before {before}\n   after  {args}")
        ctx.state((name, "called"))
        if not any(isinstance(a, set) for a in args):
            wreck(args)
        d = structs.snap_diff(snap, structs.snapshot(obj, store_only=not warm))
        ctx.check(d is None, f"argument-aliased:{name}", lambda: f"mutating the argument of {name} after the call changed view {d} of the structure")
        # editing the structure must not reach the (fresh) argument
        args = mk()
        before = copy.deepcopy(args)
        obj = fn(args)
        edit_hard(obj)
        ctx.step(2)
        ctx.check(eq(before, args), f"argument-aliased-back:{name}", lambda: f"editing the structure built by {name} changed the argument\n   before {before}\n   after  {args}")
        # and the unmutated-argument structure seen cold after wrecking equals the snapshot
        args = mk()
        random.seed(1)
        torch.manual_seed(1)
        obj = fn(args)
        if not any(isinstance(a, set) for a in args):
            wreck(args)
        d = structs.snap_diff(snap, structs.snapshot(obj, store_only=not warm))
        ctx.check(d is None, f"argument-aliased:{name}", lambda: f"mutating the argument of {name} before the first read changed view {d}")
        ctx.state((name, "edited"))
        ctx.trace(3)
        ctx.outcome((name, warm))


def edit_hard(obj):
    k = type(obj).__name__
    if k == "Hypergraph":
        el, _ = obj.e
        if el:
            obj.add_hyperedges([list(el[0])], 9.0, merge_op="sum")
            obj.remove_hyperedges([list(el[-1])])
        obj.add_hyperedges([[0]], 5.0, merge_op="sum")
        for g in obj.group_names:
            obj.add_hyperedges([[0]], 5.0, merge_op="sum", group_name=g)
    else:
        el, _ = obj.e
        if el:
            obj.add_edges([list(el[0])], [9.0], merge_op="sum")
            obj.remove_edges([list(el[-1])])
        obj.add_edges([[0, 0]], [5.0], merge_op="sum")
        if k == "DiGraph":
            obj.reverse_direction()
    structs.snapshot(obj)


# ---- part C: conversions --------------------------------------------------------------------
CONV_SRC = {
    "hg": [(["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]], [["add", [[0, 1], [1, 2, 3]], [2.0, 0.5], "mean", "main"], ["add", [[0, 1], [2, 3]], [3.0, 4.0], "mean", "a"]]),
           (["Hypergraph", 4, None], [["add", [[0, 1, 2]], [2.0], "mean", "a"]])],
    "g": [(["Graph", 4, False], [["add", [[0, 1], [1, 2], [2, 3]], [2.0, 0.5, 3.0], "mean"]]), (["Graph", 4, True], [["add", [[0, 1], [2, 2]], [2.0, 0.5], "mean"]])],
    "b": [(["BiGraph", 4, 3], [["add", [[0, 1], [1, 1], [3, 0], [2, 2]], [2.0, 0.5, 3.0, 1.0], "mean"]]), (["BiGraph", 4, 4], [["add", [[0, 1], [2, 3]], None, "mean"]])],
}


def _convs():
    import dhg
    import torch

    F = torch.tensor([[0.0, 1.0], [2.0, 2.5], [7.0, 0.0], [1.5, 9.0]])
    H4 = lambda n=4: dhg.Hypergraph(n, [[0, 1], [2]], [2.0, 3.0])
    return {
        "hg:star": lambda s: dhg.Graph.from_hypergraph_star(s)[0], "hg:star_w": lambda s: dhg.Graph.from_hypergraph_star(s, weighted=True)[0],
        "hg:clique": lambda s: dhg.Graph.from_hypergraph_clique(s), "hg:clique_w": lambda s: dhg.Graph.from_hypergraph_clique(s, weighted=True, miu=0.5),
        "hg:hypergcn": lambda s: dhg.Graph.from_hypergraph_hypergcn(s, F), "hg:hypergcn_m": lambda s: dhg.Graph.from_hypergraph_hypergcn(s, F, with_mediator=True),
        "hg:bigraph": lambda s: dhg.BiGraph.from_hypergraph(s), "hg:bigraph_w": lambda s: dhg.BiGraph.from_hypergraph(s, vertex_as_U=False, weighted=True),
        "hg:subgraph": lambda s: s.subgraph([0, 1, 3]), "hg:drop_group": lambda s: s.drop_hyperedges_of_group("a", 0.0),
        "g:hypergraph": lambda s: dhg.Hypergraph.from_graph(s), "g:khop": lambda s: dhg.Hypergraph.from_graph_kHop(s, 2),
        "g:khop_only": lambda s: dhg.Hypergraph.from_graph_kHop(s, 2, only_kHop=True), "g:add_from_graph": lambda s: _do(H4(), "add_hyperedges_from_graph", s),
        "g:add_from_khop": lambda s: _do(H4(), "add_hyperedges_from_graph_kHop", s, 2, group_name="x"),
        "b:hypergraph_u": lambda s: dhg.Hypergraph.from_bigraph(s), "b:hypergraph_v": lambda s: dhg.Hypergraph.from_bigraph(s, U_as_vertex=False),
        "b:add_from_bigraph": lambda s: _do(H4(), "add_hyperedges_from_bigraph", s, U_as_vertex=True), "b:switch": lambda s: s.switch_uv(),
    }


CONV = ["hg:star", "hg:star_w", "hg:clique", "hg:clique_w", "hg:hypergcn", "hg:hypergcn_m", "hg:bigraph", "hg:bigraph_w", "hg:subgraph", "hg:drop_group", "g:hypergraph", "g:khop",
        "g:khop_only", "g:add_from_graph", "g:add_from_khop", "b:hypergraph_u", "b:hypergraph_v", "b:add_from_bigraph", "b:switch"]


def run_conv(case, ctx):
    _, name, k = case
    init, base = CONV_SRC[name.split(":")[0]][k]
    fn = _convs()[name]
    import torch

    for warm in (False, True):
        for which in (0, 1):  # edit the source / the result afterwards
            obj, m = structs.new(init)
            for op in base:
                obj, m = hist.step(obj, m, op, ctx, "base")
            if warm:
                structs.snapshot(obj)
            torch.manual_seed(3)
            res = fn(obj)
            ctx.step()
            hist.observe(obj, m, ctx, f"source of conversion {name} (source {base}, warm={warm})")
            torch.manual_seed(3)
            o2, m2 = structs.new(init)
            for op in base:
                o2, m2 = hist.step(o2, m2, op, ctx, "base")
            ref = structs.snapshot(fn(o2))
            if which == 0:
                edit_hard(obj)
                d = structs.snap_diff(ref, structs.snapshot(res))
                ctx.check(d is None, f"result-aliases-source:{name}", lambda: f"editing the source after {name} changed view {d} of the result")
            else:
                edit_hard(res)
                hist.observe(obj, m, ctx, f"source of {name} after editing the result (warm={warm})")
            ctx.state((name, k, warm, which))
            ctx.trace()
            ctx.outcome((name, k))


def run(case, ctx):
    {"copy": run_copy, "oddcopy": run_oddcopy, "call": run_call, "conv": run_conv}[case[0]](case, ctx)


def shrink(case):
    if case[0] == "copy":
        for pos in (6, 3):
            yield from hist.shrink_history(case, pos)
