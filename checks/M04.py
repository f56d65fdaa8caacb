"""Evaluators over every history of batch additions, epoch closings and full-set evaluations."""
import copy
import itertools

import numpy as np
import torch

from checks.M01 import close
from mc import metref as R
from mc.big import Lcg

PID = "M04"
LEVEL = "model_checking"
CHUNK = {"quick": 150, "thorough": 400}
BOUNDS = {
    "quick": "every history of depth 4 (depth 5 on two configurations) over {add validation batch A/B, close validation, add test batch A/B, close test} and of depth 4 over {add, close, full-set validate/test} interleaved on two evaluators; batches of 1-3 queries over 4 items; 8 metric configurations (recommender and retrieval, single and multi-parameter, curve metric, share cut-off), every validate index; classification evaluators (3 classes) with every history of depth 3 over full-set calls; six consecutive epochs of 1-70 batches of 1-40 queries over 4-37 items",
    "thorough": "the same histories with depth 6 on two configurations, depth 5 on all",
}
ASSUME = ["metric configurations have distinct names (two parameterisations that print the same share one name)", "the validation metric is scalar-valued", "classification evaluators are full-set only (their metrics have no batch form)", "closing an epoch that never had data raises"]
F = {"precision": R.precision, "recall": R.recall, "ndcg": R.ndcg, "map": R.ap, "mrr": R.rr, "pr_curve": R.pr_curve}
CONFIGS = [
    ["user_item_recommender", ["precision", {"recall": {"k": 2}}, {"ndcg": {"k": 3}}], 0],
    ["user_item_recommender", ["precision", {"recall": {"k": 2}}, {"ndcg": {"k": 3}}], 2],
    ["user_item_recommender", [{"recall": {"k": 1}}, {"recall": {"k": 3}}, {"recall": {"ratio": 0.5}}, "recall"], 1],
    ["retrieval", ["map", {"mrr": {"k": 2}}, "pr_curve"], 0],
    ["retrieval", [{"pr_curve": {"k": 3, "method": "legacy", "n_points": 4}}, {"map": {"k": 3, "method": "legacy"}}, "precision"], 1],
    ["retrieval", [{"ndcg": {"k": 2}}, {"ndcg": {"ratio": 0.75}}, "mrr"], 2],
    ["retrieval", ["mrr"], 0],
    ["user_item_recommender", [{"ndcg": {"k": 1}}], 0],
]
Y = [[[1, 0, 0, 1]], [[0, 1, 0, 0], [0, 0, 0, 0]], [[1, 1, 0, 1], [0, 0, 1, 0], [0, 1, 1, 0]]]
S = [[[0.1, 0.9, 0.3, 0.5]], [[0.8, 0.2, 0.5, 0.4], [0.1, 0.2, 0.3, 0.4]], [[0.4, 0.1, 0.9, 0.2], [0.9, 0.3, 0.2, 0.1], [0.3, 0.6, 0.5, 0.9]]]
OPS = ["va0", "va1", "vc", "ta0", "ta1", "tc"]
OPS2 = ["va0", "vc", "ta2", "tc", "vf", "tf"]


def cases(tier):
    th = tier == "thorough"
    for i, c in enumerate(CONFIGS):
        d = (6 if i in (0, 3) else 5) if th else (5 if i in (0, 3) else 4)
        ops = ["va%d" % (i % 3), "va%d" % ((i + 1) % 3), "vc", "ta%d" % ((i + 2) % 3), "ta%d" % (i % 3), "tc"]
        for h in itertools.product(ops, repeat=d):
            yield [i, [[o, 0] for o in h]]
    for i in (1, 4):
        for h in itertools.product(["va0", "vc", "ta2", "tc", "vf", "tf"], repeat=4):
            for who in ([0, 1, 0, 1], [0, 0, 1, 0]):
                yield [i, [[o, w] for o, w in zip(h, who)]]
    for j in range(3):
        for v in range(4):
            for h in itertools.product(["vf0", "tf0", "vf1", "tf1", "vf2", "tf2"], repeat=3):
                yield ["cls", j, v, list(h)]
    for k in range(6):
        yield ["bad", k]
    for i in range(len(CONFIGS)):
        for s in range(8 if th else 3):
            yield ["long", i, s]


def marker(c):
    if isinstance(c, str):
        return c
    (name, ps), = c.items()
    return f"{name} -> " + " | ".join(f"{k}@{v:.4f}" if isinstance(v, float) else f"{k}@{v}" for k, v in ps.items())


def values(c, b):
    name, ps = (c, {}) if isinstance(c, str) else list(c.items())[0]
    ps = dict(ps)
    k = R.cutoff(4, ps.pop("k", None), ps.pop("ratio", None))
    return [F[name](y, s, k, **ps) for y, s in zip(Y[b], S[b])]


def mean(vals):
    if isinstance(vals[0], tuple):
        return [[sum(v[j][i] for v in vals) / len(vals) for i in range(len(vals[0][j]))] for j in range(2)]
    return sum(vals) / len(vals)


def build(task, cfg, vi):
    from dhg.metrics import RetrievalEvaluator, build_evaluator

    cfg = copy.deepcopy(cfg)
    snap = copy.deepcopy(cfg)
    e = RetrievalEvaluator(cfg, vi) if task == "retrieval" else build_evaluator(task, cfg, validate_index=vi)
    return e, cfg, snap


def batch(b):
    return torch.tensor(Y[b]), torch.tensor(S[b])


def run(case, ctx):
    ctx.trace()
    if case[0] == "bad":
        return bad(case[1], ctx)
    if case[0] == "long":
        return long(case, ctx)
    if case[0] == "cls":
        return classification(case, ctx)
    ci, hist = case
    task, cfg, vi = CONFIGS[ci]
    ctx.count(f"config {ci}")
    evs = [build(task, cfg, vi) for _ in range(2)]
    names = [marker(c) for c in cfg]
    val = [[], []]
    tst = [[], []]
    last = [[None, None], [None, None]]
    given = []
    for op, w in hist:
        e = evs[w][0]
        ctx.step()
        if op[:2] in ("va", "ta"):
            b = int(op[2])
            y, s = batch(b)
            y0, s0 = y.clone(), s.clone()
            (e.validate_add_batch if op[0] == "v" else e.test_add_batch)(y, s)
            ctx.check(torch.equal(y, y0) and torch.equal(s, s0), "input-changed", f"{op} changed the batch")
            y.zero_()
            s.zero_()
            (val if op[0] == "v" else tst)[w].append(b)
        elif op == "vc":
            got = closing(e.validate_epoch_res, ctx, val[w], last[w][0], case)
            if got is None:
                continue
            if val[w]:
                last[w][0] = mean([x for b in val[w] for x in values(cfg[vi], b)])
                val[w] = []
            ctx.check(close(got, last[w][0]), "validate-epoch", lambda: f"{case}: validation epoch result {got}, defined {last[w][0]}")
        elif op == "tc":
            got = closing(e.test_epoch_res, ctx, tst[w], last[w][1], case)
            if got is None:
                continue
            if tst[w]:
                last[w][1] = {n: mean([x for b in tst[w] for x in values(c, b)]) for n, c in zip(names, cfg)}
                tst[w] = []
            judge(got, last[w][1], ctx, "test-epoch", case)
            given.append((got, copy.deepcopy(got)))
        elif op == "vf":
            y, s = batch(1)
            got = e.validate(y, s)
            want = mean(values(cfg[vi], 1))
            ctx.check(close(got, want), "validate", lambda: f"{case}: validate() gives {got}, defined {want}")
        elif op == "tf":
            y, s = batch(2)
            got = e.test(y, s)
            judge(got, {n: mean(values(c, 2)) for n, c in zip(names, cfg)}, ctx, "test", case)
            given.append((got, copy.deepcopy(got)))
        for g, snap in given:
            ctx.check(g == snap, "result-changed", lambda: f"{case}: after {op} a result reported earlier changed from {snap} to {g}")
        ctx.state((ci, tuple(tuple(v) for v in val), tuple(tuple(t) for t in tst), str(last)))
    for w in range(2):
        ctx.check(evs[w][1] == evs[w][2], "config-changed", f"{case}: the metric configuration is now {evs[w][1]}")
    ctx.outcome((ci, str(last)))


def long(case, ctx):
    """several epochs of many batches of different sizes; validation and test batches interleaved"""
    _, ci, s = case
    task, cfg, vi = CONFIGS[ci]
    e, _, _ = build(task, cfg, vi)
    names = [marker(c) for c in cfg]
    r = Lcg(ci * 50 + s)
    ni = [4, 12, 37][s % 3]

    def vals(c, ys, ss):
        name, ps = (c, {}) if isinstance(c, str) else list(c.items())[0]
        ps = dict(ps)
        k = R.cutoff(ni, ps.pop("k", None), ps.pop("ratio", None))
        return [F[name](y, sc, k, **ps) for y, sc in zip(ys, ss)]

    for epoch, nb in enumerate((1, 12, 3, 2, 70, 5)):
        pv, pt = [], []
        for b in range(nb):
            q = 1 + r([1, 3, 40][r(3)])
            ys = [[int(r(3) == 0) for _ in range(ni)] for _ in range(q)]
            ss = [[float((i * 7 + j * 13) % ni) - b % 3 for i in range(ni)] for j in range(q)] if ni != 4 else [[float(((i + j) * 3) % 4) for i in range(4)] for j in range(q)]
            if epoch != 3:
                e.validate_add_batch(torch.tensor(ys), torch.tensor(ss))
                pv += vals(cfg[vi], ys, ss)
            if epoch != 2:
                e.test_add_batch(torch.tensor(ys), torch.tensor(ss))
                pt.append([vals(c, ys, ss) for c in cfg])
            ctx.step(2)
        if epoch != 3:
            got, lastv = e.validate_epoch_res(), mean(pv)
        else:
            got = e.validate_epoch_res()
        ctx.check(close(got, lastv), "validate-epoch", lambda: f"{case} epoch {epoch} ({nb} batches): {got}, defined {lastv}")
        if epoch != 2:
            lastt = {n: mean([x for b in pt for x in b[j]]) for j, n in enumerate(names)}
        judge(e.test_epoch_res(), lastt, ctx, "test-epoch", f"{case} epoch {epoch} ({nb} batches)")
        ctx.state((ci, s, epoch))
    ctx.outcome((ci, s, str(lastt)))


def closing(f, ctx, pending, last, case):
    if pending or last is not None:
        return f()
    try:
        r = f()
    except (AssertionError, ValueError, RuntimeError):
        return None
    ctx.fail("empty-epoch", f"{case}: closing an epoch without data returned {r}")


def judge(got, want, ctx, sig, case):
    ctx.check(isinstance(got, dict) and list(got) == list(want), sig + "-names", lambda: f"{case}: metric names {list(got)}, expected {list(want)}")
    for n in want:
        ctx.check(close(got[n], want[n]), sig, lambda: f"{case}: {n} is {got[n]}, defined {want[n]}")


CLS = [["accuracy", "f1_score", "confusion_matrix"], [{"f1_score": {"average": "micro"}}, {"f1_score": {"average": "weighted"}}, "accuracy"], ["f1_score", "accuracy"]]
CY = [[0, 1, 2, 1], [2, 2, 0], [1, 0, 1, 1, 2]]
CP = [[0, 2, 2, 1], [2, 1, 1], [1, 0, 0, 1, 2]]


def classification(case, ctx):
    from dhg.metrics import VertexClassificationEvaluator, build_evaluator

    _, j, v, hist = case
    cfg = CLS[j]
    ctx.count("classification")
    mk = [lambda: build_evaluator("graph_vertex_classification", copy.deepcopy(cfg), vi), lambda: build_evaluator("hypergraph_vertex_classification", copy.deepcopy(cfg), vi), lambda: VertexClassificationEvaluator(copy.deepcopy(cfg), vi)]
    vi = (0 if j else v % 2) if v < 3 else len(cfg) - 1 - (j == 0)
    e = mk[v % 3]()

    def val(c, y, p):
        name, ps = (c, {}) if isinstance(c, str) else list(c.items())[0]
        if name == "accuracy":
            return sum(a == b for a, b in zip(y, p)) / len(y)
        return R.confusion(y, p) if name == "confusion_matrix" else R.f1(y, p, **ps)

    for op in hist:
        b = int(op[2])
        y, p = torch.tensor(CY[b]), torch.tensor(CP[b])
        pred = p if v % 2 else torch.nn.functional.one_hot(p, 3).float() * 0.7 - 0.2
        ctx.step()
        if op[0] == "v":
            got, want = e.validate(y, pred), val(cfg[vi], CY[b], CP[b])
            ctx.check(close(got, want), "validate", lambda: f"{case}: validate {got}, defined {want}")
        else:
            got = e.test(y, pred)
            got = {k: (x.tolist() if isinstance(x, np.ndarray) else x) for k, x in got.items()}
            judge(got, {marker(c): val(c, CY[b], CP[b]) for c in cfg}, ctx, "test", case)
        ctx.state((j, v, b, op[0], str(got)))
    ctx.outcome((j, v, str(hist)))


def bad(k, ctx):
    from dhg.metrics import build_evaluator, RetrievalEvaluator

    tries = [lambda: build_evaluator("unknown", ["accuracy"]), lambda: build_evaluator("user_item_recommender", ["mrr"]), lambda: build_evaluator("graph_vertex_classification", ["ndcg"]),
             lambda: RetrievalEvaluator(["ndcg"], 1), lambda: RetrievalEvaluator(["ndcg", "map"], -1), lambda: RetrievalEvaluator([{"accuracy": {}}])]
    ctx.count("rejected")
    ctx.step()
    try:
        tries[k]()
    except (AssertionError, ValueError, KeyError, AttributeError):
        return
    ctx.fail("not-rejected", f"invalid evaluator configuration {k} accepted")
