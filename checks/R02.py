"""Seeding: every short sequence of random operations repeats exactly after the seed is set again."""
import hashlib
import itertools
import json
import os
import random
import subprocess
import sys

import numpy as np
import torch

from mc import env, structs

PID = "R02"
LEVEL = "model_checking"
CHUNK = {"quick": 30, "thorough": 200}
BOUNDS = {
    "quick": "seeds 0..2^31-1 differing in any single bit separate all three sources; 6 composite operations at larger sizes (40-300 items), all pairs; alphabet of 32 operations that use randomness (all generators, dropping on all four structure classes, sparse dropout, message passing with a drop rate, splits, negative sampling, random features, parameter initialisation and training-mode forward passes of models and layers, raw draws from the three sources): every sequence of length <=2 from seeds 0, 1, 2^31-1, repeated after every other operation ran and after noise draws; reported seed; outcomes over 20 seeds differ for every operation alone and as second of a pair; same results in fresh processes with different hash seeds",
    "thorough": "as quick with every sequence of length 3 over 20 operations",
}
ASSUME = ["single thread, CPU", "the seed is set through dhg.random.set_seed only"]


def val(x):
    if isinstance(x, torch.Tensor):
        x = x.detach()
        x = x.to_dense() if x.layout != torch.strided else x
        return ("t", tuple(x.shape), tuple(x.reshape(-1).tolist()))
    if isinstance(x, np.ndarray):
        return ("a", x.shape, tuple(x.reshape(-1).tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(val(y) for y in x)
    if hasattr(x, "state_dict") and hasattr(x, "e"):
        return (type(x).__name__, repr(x.e))
    if isinstance(x, torch.nn.Module):
        return tuple((k, val(v)) for k, v in x.state_dict().items())
    return x


def fixtures():
    import dhg

    g = dhg.Graph(5, [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (0, 2), (1, 3)])
    d = dhg.DiGraph(5, [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (2, 0), (1, 3)])
    b = dhg.BiGraph(3, 4, [(0, 1), (1, 2), (2, 3), (0, 0), (0, 2), (1, 3), (2, 0), (1, 0)])
    h = dhg.Hypergraph(5, [[0, 1, 2], [1, 3], [2, 4, 0], [3, 4], [0, 4], [1, 2, 3, 4], [0, 3]])
    h.add_hyperedges([[0, 1], [1, 2], [2, 3], [3, 4], [1, 4]], group_name="g")
    return g, d, b, h


FIX = None


def ops():
    import dhg
    import dhg.random as R
    from dhg import models as M, nn
    from dhg.utils import UserItemDataset, split_by_num, split_by_num_for_UI_bigraph, split_by_ratio, split_by_ratio_for_UI_bigraph
    from dhg.utils.sparse import sparse_dropout

    global FIX
    if FIX is None:
        FIX = fixtures()
    g, d, b, h = FIX
    x5, x1 = torch.arange(15.0).reshape(5, 3), torch.ones(5, 1)
    G2 = dhg.Graph(40, [(i, (i * 7 + 3) % 40) for i in range(40) if i != (i * 7 + 3) % 40])
    H2 = dhg.Hypergraph(40, [[i, (i * 3 + 1) % 40, (i * 5 + 2) % 40, (i + 9) % 40] for i in range(40)])
    B2 = dhg.BiGraph(30, 50, [(u, (u * k * 3 + k) % 50) for u in range(30) for k in range(1, 9)])
    val2 = torch.tensor([[((i * 37 + j * 11) % 101) / 50 - 1 for j in range(4)] for i in range(40)])
    lab = [0, 1, 2, 0, 1, 2, 0, 1, 0, 1, 2, 2]
    full = torch.ones(4, 4).to_sparse()

    def forward(cls, hg, *a, **k):
        def f():
            m = cls(*a, **k)
            m.train()
            return val(m), val(m(x5, hg))
        return f

    def emb(cls, *a, st=None):
        def f():
            m = cls(*a)
            m.train()
            return val(m), val(m(*st))
        return f

    ds = UserItemDataset(3, 9, [(0, 1), (1, 2), (2, 3), (0, 3)])
    ds2 = UserItemDataset(3, 9, [(0, 1), (1, 2), (2, 3), (0, 3)], strict_link=False)
    hu = dhg.Hypergraph(3, [[0, 1], [1, 2]])
    hi = dhg.Hypergraph(4, [[0, 1, 3], [1, 2]])
    D2 = dhg.DiGraph(40, [(i, (i * 7 + 3) % 40) for i in range(40)])
    LOOPS, DLOOPS = dhg.Graph(30, [(i, i) for i in range(30)]), dhg.DiGraph(30, [(i, i) for i in range(30)])
    H3 = dhg.Hypergraph(40, [[i] for i in range(20)])
    H3.add_hyperedges([[i, 39 - i] for i in range(15)], group_name="g")
    V = (3, 16, 2)
    MODELS = [(M.GCN, V, {}), (M.GraphSAGE, V, {}), (M.GraphSAGE, V, dict(use_bn=True)), (M.GAT, (3, 16, 2, 2), {}), (M.GIN, (3, 16, 2, 2), {}), (M.GIN, (3, 16, 2, 3), dict(train_eps=True, use_bn=True)),
              (M.HGNN, V, {}), (M.HGNNP, V, {}), (M.HNHN, V, {}), (M.HyperGCN, V, {}), (M.HyperGCN, V, dict(fast=False, use_mediator=True)), (M.UniGCN, V, {}), (M.UniGAT, (3, 16, 2, 2), {}), (M.UniSAGE, V, {}),
              (M.UniGIN, V, {}), (M.UniGIN, V, dict(train_eps=True)), (M.HGNNP, V, dict(drop_rate=0.9)), (M.GCN, V, dict(drop_rate=0.1)), (M.NGCF, (5, 4, 6), dict(drop_rate=0.5)), (M.LightGCN, (5, 4, 6), dict(drop_rate=0.5)),
              (M.DHCF, (3, 4, 6), dict(num_layers=2)), (M.BGNN_MLP, (3, 4, 6, 5), {}), (M.BGNN_Adv, (3, 4), {})]
    g5 = dhg.Graph(40, [(i, (i * 7 + 3) % 40) for i in range(40) if i != (i * 7 + 3) % 40])
    b5 = dhg.BiGraph(5, 4, [(0, 1), (1, 2), (2, 3), (0, 0), (3, 1), (4, 2), (4, 0)])
    x40 = torch.arange(120.0).reshape(40, 3).sin().abs() + 0.2

    def passes():
        # fixed parameters: what differs from seed to seed is the dropout of the training-mode pass only
        out = []
        for c, a, k in MODELS:
            if c in (M.BGNN_MLP, M.BGNN_Adv):
                continue
            m = c(*a, **k)
            with torch.no_grad():
                for i, p in enumerate(m.parameters()):
                    p.copy_((torch.arange(p.numel(), dtype=torch.float32) * 0.37 + i).sin().abs().reshape(p.shape) * 0.3 + 0.05)
            m.train()
            if c in (M.NGCF, M.LightGCN):
                out.append(val(m(b5)))
            elif c is M.DHCF:
                out.append(val(m(hu, hi)))
            else:
                out.append(val(m(x40, g5 if c in (M.GCN, M.GraphSAGE, M.GAT, M.GIN) else H2)))
        return out

    return {
        "graph_Gnp": lambda: R.graph_Gnp(6, 0.5), "graph_Gnp_fast": lambda: R.graph_Gnp_fast(8, 0.5), "graph_Gnm": lambda: R.graph_Gnm(6, 7),
        "digraph_Gnp": lambda: R.digraph_Gnp(5, 0.5), "digraph_Gnp_fast": lambda: R.digraph_Gnp_fast(6, 0.5), "digraph_Gnm": lambda: R.digraph_Gnm(6, 9),
        "bigraph_Gnp": lambda: R.bigraph_Gnp(4, 5, 0.5), "bigraph_Gnm": lambda: R.bigraph_Gnm(4, 5, 9),
        "uniform_hypergraph_Gnp": lambda: R.uniform_hypergraph_Gnp(3, 6, 0.5), "uniform_hypergraph_Gnm": lambda: R.uniform_hypergraph_Gnm(3, 6, 7), "hypergraph_Gnm": lambda: R.hypergraph_Gnm(7, 8),
        "normal_features": lambda: R.normal_features([1, 3, 1, 2]),
        "drop graph": lambda: g.drop_edges(0.5), "drop digraph": lambda: d.drop_edges(0.5), "drop bigraph": lambda: b.drop_edges(0.5),
        "drop hypergraph": lambda: h.drop_hyperedges(0.5), "drop group": lambda: h.drop_hyperedges_of_group("g", 0.5),
        "sparse_dropout": lambda: sparse_dropout(full, 0.5),
        "v2v drop": lambda: (g.v2v(x5, drop_rate=0.5), h.v2v(x5, drop_rate=0.5), b.smoothing_with_GCN(torch.ones(7, 2), drop_rate=0.5)),
        "split_by_num": lambda: split_by_num(12, lab, 2, 1), "split_by_ratio": lambda: split_by_ratio(12, lab, 0.5, 0.25),
        "split UI": lambda: split_by_num_for_UI_bigraph(b, 1) + split_by_ratio_for_UI_bigraph(b, 0.5),
        "dataset": lambda: [ds[i] for i in range(4)] + [ds2[0]],
        "hypergcn": lambda: dhg.Graph.from_hypergraph_hypergcn(h, torch.tensor([[1.0, -2.0, 0.5], [-1.5, 1.0, 0.7], [0.4, 0.3, -2.0], [2.0, -1.0, -1.1], [-0.9, 0.2, 1.6]])),
        "GCN": forward(M.GCN, g, 3, 4, 2), "GAT": forward(M.GAT, g, 3, 2, 2, 2), "UniGAT": forward(M.UniGAT, h, 3, 2, 2, 2), "HNHN": forward(M.HNHN, h, 3, 4, 2),
        "LightGCN": emb(M.LightGCN, 3, 4, 2, 2, 0.5, st=(b,)), "DHCF": emb(M.DHCF, 3, 4, 2, st=(hu, hi)),
        "big generators": lambda: (R.graph_Gnp(40, 0.2), R.graph_Gnp_fast(70, 0.1), R.graph_Gnm(60, 150), R.digraph_Gnp(25, 0.3), R.digraph_Gnp_fast(40, 0.1), R.digraph_Gnm(40, 130), R.bigraph_Gnp(20, 40, 0.2), R.bigraph_Gnm(30, 20, 200)),
        "big hypergraphs": lambda: (R.uniform_hypergraph_Gnp(3, 15, 0.2), R.uniform_hypergraph_Gnm(12, 40, 150), R.hypergraph_Gnm(30, 120), R.hypergraph_Gnm(12, 200, "uniform"), R.hypergraph_Gnm(20, 130, "high_order_first")),
        "big drop": lambda: (G2.drop_edges(0.3), H2.drop_hyperedges(0.3), val(G2.v2v(torch.ones(40, 2), drop_rate=0.3)), val(H2.v2v(torch.ones(40, 2), v2e_drop_rate=0.4, e2v_drop_rate=0.2)), val(sparse_dropout(G2.A, 0.3))),
        "big split": lambda: split_by_num(300, [i % 7 for i in range(300)], 20, 5) + split_by_ratio(300, [i % 3 for i in range(300)], 0.5, 0.3) + split_by_ratio_for_UI_bigraph(B2, 0.4),
        "big model": lambda: (lambda m: (val(m), val(m.train()(torch.ones(40, 9), H2))))(M.HGNNP(9, 64, 3, drop_rate=0.3)),
        "big hypergcn": lambda: (dhg.Graph.from_hypergraph_hypergcn(H2, val2), R.normal_features([i % 5 for i in range(200)])),
        "odd features": lambda: (R.normal_features([4]), R.normal_features([2, 2, 2]), R.normal_features(np.array([0, 0, 0, 0, 0, 0])), R.normal_features(torch.tensor([7, 7])), R.normal_features([3, 9, 3], 0.01),
                                 R.normal_features([-1, 5, 0, 5], noise=40.0), R.normal_features(list(range(30))), R.normal_features([0, 1] * 70, 2.0)),
        "odd generators": lambda: (R.graph_Gnp(9, 0.07), R.graph_Gnp(9, 0.93), R.graph_Gnp_fast(9, 0.9), R.graph_Gnm(7, 1), R.graph_Gnm(7, 20), R.digraph_Gnp(9, 0.06), R.digraph_Gnp(7, 0.95), R.digraph_Gnp_fast(9, 0.9),
                                   R.digraph_Gnm(5, 1), R.digraph_Gnm(5, 19), R.bigraph_Gnp(2, 30, 0.3), R.bigraph_Gnp(30, 2, 0.7), R.bigraph_Gnm(2, 20, 2), R.bigraph_Gnm(20, 2, 37),
                                   R.uniform_hypergraph_Gnp(2, 8, 0.4), R.uniform_hypergraph_Gnp(5, 7, 0.7), R.uniform_hypergraph_Gnm(2, 9, 5), R.uniform_hypergraph_Gnm(6, 8, 20), R.hypergraph_Gnm(9, 2),
                                   R.hypergraph_Gnm(9, 9, "low_order_first"), R.hypergraph_Gnm(9, 9, "high_order_first"), R.hypergraph_Gnm(9, 9, "uniform"), R.hypergraph_Gnm(9, 9, "custom", [0.5, 1.0, 0.25, 0, 0, 0, 0, 1.0])),
        "odd drops": lambda: (G2.drop_edges(0.04), G2.drop_edges(0.96), D2.drop_edges(0.04), D2.drop_edges(0.95), B2.drop_edges(0.02), B2.drop_edges(0.98), H2.drop_hyperedges(0.05), H2.drop_hyperedges(0.95), LOOPS.drop_edges(0.5),
                              DLOOPS.drop_edges(0.5), H3.drop_hyperedges(0.5), H3.drop_hyperedges_of_group("g", 0.5), val(sparse_dropout(G2.A, 0.05)), val(sparse_dropout(G2.A, 0.95)), val(sparse_dropout(torch.eye(40).to_sparse(), 0.5, fill_value=0.5))),
        "model parameters": lambda: [val(c(*a, **k)) for c, a, k in MODELS],
        "model passes": passes,
        "python": lambda: [random.random(), random.sample(range(99), 3)], "numpy": lambda: np.random.rand(3), "torch": lambda: (torch.rand(3), torch.randperm(9)),
    }


BIG = ["big generators", "big hypergraphs", "big drop", "big split", "big model", "big hypergcn", "odd features", "odd generators", "odd drops", "model parameters", "model passes"]
PARTS = ["big generators", "big hypergraphs", "big drop", "big hypergcn", "odd features", "odd generators", "odd drops", "model parameters", "model passes"]


def cases(tier):
    names = [n for n in ops() if n not in BIG]
    yield ["report"]
    yield ["processes"]
    for bit in range(31):
        yield ["bit", bit]
    for a in PARTS:
        yield ["parts", a]
    for a in BIG:
        yield ["seq", [a]]
        for b in BIG:
            yield ["seq", [a, b]]
    for a in names:
        yield ["seq", [a]]
    for s in itertools.product(names, repeat=2):
        yield ["seq", list(s)]
    if tier == "thorough":
        core = [n for i, n in enumerate(names) if i % 3 != 1]
        for s in itertools.product(core, repeat=3):
            yield ["seq", list(s)]


def play(O, seq, seed):
    import dhg

    dhg.random.set_seed(seed)
    return [val(O[n]()) for n in seq]


def noise(k):
    [random.random() for _ in range(k)]
    np.random.rand(3 * k)
    np.random.normal(size=2 * k + 1)
    torch.rand(5 * k)


def digest():
    O = ops()
    out = {}
    for n in O:
        for s in (0, 5):
            out[f"{n}/{s}"] = hashlib.sha1(repr(play(O, [n], s)).encode()).hexdigest()
    return out


def run(case, ctx):
    import dhg

    O = ops()
    if case[0] == "report":
        for s in (0, 1, 7, 2 ** 31 - 1):
            dhg.random.set_seed(s)
            ctx.check(dhg.random.seed() == s, "seed", f"set_seed({s}) then seed() = {dhg.random.seed()}")
            for n in O:
                O[n]()
                ctx.check(dhg.random.seed() == s, "seed", f"set_seed({s}), {n}, then seed() = {dhg.random.seed()}")
                ctx.step()
            ctx.state(s)
        ctx.trace()
        return
    if case[0] == "bit":
        # seeds that differ in one bit only lead each of the three sources to different draws
        draw = {"python": lambda: [random.random() for _ in range(4)], "numpy": lambda: np.random.rand(4).tolist(), "torch": lambda: torch.rand(4).tolist()}
        for base in (0, 3, 1000003, 0x55555555, 0x2AAAAAAA, 0x7FFFFFFF):
            out = []
            for s in (base & 0x7FFFFFFF, (base ^ (1 << case[1])) & 0x7FFFFFFF):
                dhg.random.set_seed(s)
                ctx.check(dhg.random.seed() == s, "seed", f"set_seed({s}) then seed() = {dhg.random.seed()}")
                a = {k: f() for k, f in draw.items()}
                dhg.random.set_seed(s)
                b = {k: f() for k, f in reversed(draw.items())}
                ctx.check(a == b, "not-reproducible", f"seed {s}: {a} then {b}")
                dhg.random.set_seed(s)
                c = {k: (dhg.random.seed(), f())[1] for k, f in draw.items()}
                ctx.check(a == c, "not-reproducible", f"seed {s}: reading the seed changes the draws: {a} then {c}")
                out.append(a)
                ctx.step(3)
                ctx.state(s)
            for k in draw:
                ctx.check(out[0][k] != out[1][k], "seed-ignored", f"{k} draws the same numbers from seeds {base} and {base ^ (1 << case[1])}")
        ctx.trace()
        return
    if case[0] == "parts":
        # every single part of a composite operation follows the seed: equal for equal seeds, not the same for all seeds
        n = case[1]
        runs = {s: [repr(x) for x in play(O, [n], s)[0]] for s in range(11, 31)}
        noise(3)
        for s in (11, 12):
            again = [repr(x) for x in play(O, [n], s)[0]]
            for i, (a, b) in enumerate(zip(runs[s], again)):
                ctx.check(a == b, "not-reproducible", f"part {i} of {n} from seed {s}: {a[:300]} then {b[:300]}")
        for i in range(len(runs[11])):
            ctx.check(len({r[i] for r in runs.values()}) > 1, "seed-ignored", f"part {i} of {n} gives the same result for seeds 11-30: {runs[11][i][:300]}")
            ctx.step()
        ctx.state(("parts", n))
        ctx.outcome(n)
        ctx.trace()
        return
    if case[0] == "processes":
        here = digest()
        for hs in ("1", "77"):
            e = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=f"{env.REPO}:{os.getcwd()}")
            p = subprocess.run([sys.executable, "-c", "import json; from checks.R02 import digest; print(json.dumps(digest()))"], env=e, capture_output=True, text=True, timeout=80)
            ctx.check(p.returncode == 0, "process", p.stderr[-800:])
            there = json.loads(p.stdout.strip().splitlines()[-1])
            for k in here:
                ctx.check(here[k] == there.get(k), "other-process", f"operation/seed {k} gives another result in a fresh process (PYTHONHASHSEED={hs})")
            ctx.step(len(here))
        ctx.trace()
        return
    seq = case[1]
    first = {}
    for s in (0, 1, 2 ** 31 - 1):
        noise(1)
        first[s] = play(O, seq, s)
        ctx.state((tuple(seq), s))
        ctx.outcome(repr(first[s]))
    for s, exp in first.items():
        noise(s % 5 + 2)
        got = play(O, seq, s)
        ctx.step(len(seq))
        ctx.check(got == exp, "not-reproducible", lambda: f"sequence {seq} from seed {s}: {str(exp)[:400]} the first time, {str(got)[:400]} the second")
    # the last operation still depends on the seed
    vals = set()
    for s in range(11, 31):
        vals.add(repr(play(O, seq, s)[-1]))
        if len(vals) > 1:
            break
    ctx.check(len(vals) > 1, "seed-ignored", lambda: f"sequence {seq}: {seq[-1]} gives the same result for seeds 11-30")
    if len(seq) == 1:
        # repeated without reseeding the operation does not repeat itself
        dhg.random.set_seed(3)
        vals = {repr(val(O[seq[0]]())) for _ in range(20)}
        ctx.check(len(vals) > 1, "stuck", lambda: f"{seq[0]} repeated 20 times always gives the same result")
        other = play(O, seq, 21)
        for n in O:
            noise(1)
            O[n]()
            got = play(O, seq, 21)
            ctx.check(got == other, "not-reproducible", lambda: f"{seq} from seed 21 differs after {n} ran")
            ctx.step()
    ctx.count("sequences")
    ctx.trace()
