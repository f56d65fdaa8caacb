"""Constructors called with their required arguments only behave as with the documented defaults spelled out."""
import copy
import itertools

import torch

from checks import N04
from mc import nnref
from mc.cmp import close, dense, show

CONV = dict(bias=True, use_bn=False, drop_rate=0.5, is_last=False)
MODEL = dict(use_bn=False, drop_rate=0.5)
SLOPE = dict(atten_neg_slope=0.2)
EPS = dict(eps=0.0, train_eps=False)
# name -> (positional arguments, documented defaults, input)
LAYERS = {
    "GCNConv": ((3, 2), CONV, "g"), "GATConv": ((3, 2), {**CONV, **SLOPE}, "g"), "GraphSAGEConv": ((3, 2), {**CONV, "aggr": "mean"}, "g"), "GINConv": (("mlp",), EPS, "g"),
    "HGNNConv": ((3, 2), CONV, "h"), "HGNNPConv": ((3, 2), CONV, "h"), "HNHNConv": ((3, 2), CONV, "h"), "JHConv": ((3, 3), CONV, "h"), "HyperGCNConv": ((3, 2), {**CONV, "use_mediator": False}, "h"),
    "UniGCNConv": ((3, 2), CONV, "h"), "UniGATConv": ((3, 2), {**CONV, **SLOPE}, "h"), "UniGINConv": ((3, 2), {**CONV, **EPS}, "h"), "UniSAGEConv": ((3, 2), CONV, "h"),
    "MLP": (([3, 4, 2],), dict(act_name="ReLU", act_kwargs=None, use_bn=True, drop_rate=0.5, is_last=False), "x"), "Discriminator": ((3, 4, 2), dict(drop_rate=0.5), "x"),
}
MODELS = {
    "GCN": ((3, 4, 2), MODEL, "g"), "GAT": ((3, 4, 2, 2), {**MODEL, **SLOPE}, "g"), "GraphSAGE": ((3, 4, 2), {**MODEL, "aggr": "mean"}, "g"), "GIN": ((3, 4, 2, 3), {**MODEL, **EPS, "num_mlp_layers": 2}, "g"),
    "HGNN": ((3, 4, 2), MODEL, "h"), "HGNNP": ((3, 4, 2), MODEL, "h"), "HNHN": ((3, 4, 2), MODEL, "h"), "HyperGCN": ((3, 4, 2), {**MODEL, "use_mediator": False, "fast": True}, "h"),
    "UniGCN": ((3, 4, 2), MODEL, "h"), "UniGAT": ((3, 4, 2, 2), {**MODEL, **SLOPE}, "h"), "UniGIN": ((3, 4, 2), {**MODEL, **EPS}, "h"), "UniSAGE": ((3, 4, 2), MODEL, "h"),
    "LightGCN": ((2, 3, 4), dict(num_layers=3, drop_rate=0.0), "b"), "NGCF": ((2, 3, 4), dict(num_layers=3, drop_rate=0.5), "b"),
    "BGNN_Adv": ((3, 2), dict(layer_depth=3), "uv"), "BGNN_MLP": ((3, 2, 4, 4), dict(drop_rate=0.5, layer_depth=3), "uv"), "DHCF": ((2, 3, 4), dict(num_layers=3, drop_rate=0.5), "hh"),
}


# documented order of the options, where it is not the order of the table
ORDER = {
    "GATConv": ("bias", "use_bn", "drop_rate", "atten_neg_slope", "is_last"), "UniGATConv": ("bias", "use_bn", "drop_rate", "atten_neg_slope", "is_last"), "GraphSAGEConv": ("aggr", "bias", "use_bn", "drop_rate", "is_last"),
    "HyperGCNConv": ("use_mediator", "bias", "use_bn", "drop_rate", "is_last"), "UniGINConv": ("eps", "train_eps", "bias", "use_bn", "drop_rate", "is_last"), "GraphSAGE": ("aggr", "use_bn", "drop_rate"),
    "GIN": ("num_mlp_layers", "eps", "train_eps", "use_bn", "drop_rate"), "UniGIN": ("eps", "train_eps", "use_bn", "drop_rate"), "HyperGCN": ("use_mediator",),
}
OTHER = dict(bias=False, use_bn=True, drop_rate=0.25, is_last=True, atten_neg_slope=0.45, aggr="mean", use_mediator=True, eps=0.75, train_eps=True, num_mlp_layers=3, act_name="Sigmoid", act_kwargs={}, num_layers=2, layer_depth=2)


def structure(kind):
    if kind == "g":
        return [N04.build(["Graph", 4, False], [[0, 1], [1, 2], [0, 2]], None)[0]]
    if kind == "h":
        return [N04.build(["Hypergraph", 4, None], [[0, 1, 2], [1, 3]], ["a", "b"])[0]]
    if kind in ("b", "uv"):
        return [N04.build(["BiGraph", 2, 3], [[0, 0], [1, 2], [0, 2]], None)[0]]
    if kind == "hh":
        return [N04.build(["Hypergraph", 2, None], [[0, 1]], ["a"])[0], N04.build(["Hypergraph", 3, None], [[0, 2], [1, 2]], ["a", "b"])[0]]
    return []


def maker(table, name):
    from dhg import models, nn

    from checks.N03 import X

    args, defs, kind = table[name]
    cls = getattr(nn, name, None) or getattr(models, name)
    S = structure(kind)
    feats = lambda r: {"uv": [X(2, 3, r), X(3, 2, 1 + r)], "b": [], "hh": []}.get(kind, [X(4, 3, r)])
    real = lambda: tuple(nnref.fill(nn.MLP([3, 2], use_bn=False), 3) if a == "mlp" else copy.deepcopy(a) for a in args)

    def life(*more, **kw):
        torch.manual_seed(5)
        m = cls(*real(), *more, **kw)
        keys = [(k, tuple(v.shape)) for k, v in m.state_dict().items()]
        learn = [k for k, p in m.named_parameters() if p.requires_grad]
        first = [v.clone() for v in m.state_dict().values()]
        nnref.fill(m, 4)
        out = []
        for r, mode in enumerate((True, True, False)):
            m.train(mode)
            torch.manual_seed(9)
            y = m(*feats(r), *S)
            out += [o.detach() for o in (y if isinstance(y, tuple) else (y,))]
        return keys, learn, first, out

    return life


def order(table, name, ctx):
    """Options given positionally in the documented order mean what they mean by keyword, whatever their number."""
    args, defs, kind = table[name]
    opts = ORDER.get(name, tuple(defs))
    life = maker(table, name)
    names = {k: OTHER[k] if not (name == "MLP" and k == "use_bn") else False for k in opts}
    for n in range(1, len(opts) + 1):
        for picked in itertools.product((False, True), repeat=n):
            if sum(picked) > 2 and not all(picked):
                continue
            kw = {k: names[k] if p else defs[k] for k, p in zip(opts, picked)}
            a, b = life(*copy.deepcopy(list(kw.values()))), life(**copy.deepcopy(dict(reversed(kw.items()))))
            c = life(**copy.deepcopy({k: v for k, v in kw.items() if v != defs[k]}))
            ctx.step(3)
            for how, o in (("positionally", a), ("with the defaults left out", c)):
                same = o[:2] == b[:2] and all(close(dense(x), dense(y)) for i in (2, 3) for x, y in zip(o[i], b[i]))
                ctx.check(same, f"{name}:{how}", lambda: f"{name}{args} with {kw} given {how} differs from the same given by keyword")
            ctx.state((name, tuple(picked)))
    ctx.outcome(name)


def check(table, name, ctx):
    args, defs, kind = table[name]
    life = maker(table, name)
    base = life()
    tries = [defs] + [{k: v} for k, v in defs.items()]  # all spelled out, and one by one
    for kw in tries:
        got = life(**copy.deepcopy(kw))
        ctx.step()
        ctx.check(base[0] == got[0] and base[1] == got[1], f"{name}:default-shape", lambda: f"{name}{args} has parameters {base[0]} ({base[1]} learnable), with {kw} spelled out {got[0]} ({got[1]})")
        ctx.check(all(close(dense(a), dense(b)) for a, b in zip(base[2], got[2])), f"{name}:default-initialisation", lambda: f"{name}{args} starts from other parameters than with {kw} spelled out")
        ctx.check(all(close(dense(a), dense(b)) for a, b in zip(base[3], got[3])), f"{name}:default-output", lambda: f"{name}{args} gives {[show(dense(a)) for a in base[3]]}, with {kw} spelled out {[show(dense(a)) for a in got[3]]}")
        ctx.state((name, str(kw)))
    # the dropout rate that is left out is the documented one: an obviously different rate does make a difference in training
    if "drop_rate" in defs and not (name == "LightGCN"):
        other = life(drop_rate=0.0)
        ctx.check(not all(close(dense(a), dense(b)) for a, b in zip(base[3], other[3])) or kind == "uv", f"{name}:default-drop", lambda: f"{name}{args} in training is the same as without dropout")
        k = len(base[3]) // 3
        ctx.check(all(close(dense(a), dense(b)) for a, b in zip(base[3][2 * k:], other[3][2 * k:])) or defs.get("use_bn"), f"{name}:drop-evaluation", lambda: f"{name}{args}: the dropout rate changes the output in evaluation mode")
    ctx.count(name)
    ctx.outcome(name)
