"""Layers, models, losses, metrics, splits and tasks work wholly on the chosen device, with the results of the CPU.

Everything runs inside mc.vdev.VDev (a second, virtual device); the reference is the same computation on the CPU.
"""
import copy
import itertools
import os
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch

from checks import E02, N03, N04
from checks.X01 import D
from mc import nnref, structs
from mc.cmp import close, dense, same, show
from mc.vdev import CPU, DEV, VDev, norm

PID = "X02"
LEVEL = "model_checking"
CHUNK = {"quick": 6, "thorough": 20}
BOUNDS = {
    "quick": "every layer option setting, every model, BGNN training, MLP, heads, discriminator and loss on every loop-free graph of 3 vertices / set of <=2 hyperedges on 3 vertices / bipartite graph of 2x2: forward in both modes, gradients, two optimiser steps and the way back to the CPU; every metric and evaluator over all score rows of a 3-letter alphabet with both arguments on either device; every split with labels on the device; 5 task kinds x {run, run and move, move and run, test on data of either device} x schedules of <=3 epochs and <=2 trials",
    "thorough": "as quick on all graphs of 4 vertices, all sets of <=3 hyperedges on 3 vertices, all bipartite graphs of 3x2",
}
ASSUME = ["the second device is emulated (see X01); both devices draw the same random numbers", "model, features and structure are on one device, as the layers' documentation has it"]


def subs(xs, k=None):
    return itertools.chain.from_iterable(itertools.combinations(xs, r) for r in range((len(xs) if k is None else k) + 1))


def spaces(tier):
    th = tier == "thorough"
    for n in (3, 4) if th else (3,):
        for es in subs(list(itertools.combinations(range(n), 2))):
            yield ["Graph", n, False], [list(e) for e in es]
    yield ["Graph", 3, True], [[0, 1]]
    sub = [list(s) for k in range(1, 4) for s in itertools.combinations(range(3), k)]
    for es in subs(sub, 3 if th else 2):
        yield ["Hypergraph", 3, None], [list(e) for e in es]
    for nu, nv in ((2, 2), (3, 2)) if th else ((2, 2),):
        for es in subs(list(itertools.product(range(nu), range(nv)))):
            yield ["BiGraph", nu, nv], [list(e) for e in es]


def cases(tier):
    for init, es in spaces(tier):
        yield ["nets", init, es]
    for what in ("mlp", "heads", "disc", "loss", "reg", "dhcf"):
        yield [what]
    for yd, pd in itertools.product("CD", repeat=2):
        for fn in METRICS:
            yield ["metric", fn, yd, pd]
        for task in ("user_item_recommender", "graph_vertex_classification", "hypergraph_vertex_classification", "retrieval"):
            yield ["evaluator", task, yd, pd]
    yield ["split"]
    for kind in ("vertex", "graph", "hyper", "recommender", "plain"):
        for d in ("maximize", "minimize"):
            for E, T in ((1, 1), (2, 1), (3, 1), (2, 2)) + (((4, 3),) if tier == "thorough" else ()):
                yield ["task", kind, d, E, T]


METRICS = ["classification.accuracy", "classification.f1_score", "classification.confusion_matrix", "recommender.precision", "recommender.recall", "recommender.ndcg",
           "retrieval.precision", "retrieval.recall", "retrieval.ap", "retrieval.map", "retrieval.ndcg", "retrieval.rr", "retrieval.mrr", "retrieval.pr_curve"]


def seed(k=7):
    random.seed(k), np.random.seed(k), torch.manual_seed(k)


def flat(x, out=None):
    out = [] if out is None else out
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            flat(v, out)
    return out


def agree(name, got, exp, dev, ctx, where):
    got, exp = flat(got), flat(exp)
    ctx.check(len(got) == len(exp), f"{name}:shape", where)
    for g, e in zip(got, exp):
        ctx.check(g.device == dev, f"{name}:device", lambda: f"{where}: result on {g.device}, expected {dev}")
        ctx.check(close(dense(g), dense(e)), f"{name}:value", lambda: f"{where}: on {dev} {show(dense(g))}, on the CPU {show(dense(e))}")


def state(m):
    return {k: v.detach().clone().cpu() for k, v in m.state_dict().items()} | {"grad " + k: p.grad.detach().clone().cpu() for k, p in m.named_parameters() if p.grad is not None}


def agree_state(name, a, b, ctx, where):
    ctx.check(list(a) == list(b), f"{name}:state", lambda: f"{where}: {list(a)} / {list(b)}")
    for k in a:
        ctx.check(close(dense(a[k]), dense(b[k]), rtol=1e-3, atol=1e-4), f"{name}:state", lambda: f"{where}: {k} is {show(dense(a[k]))}, on the CPU {show(dense(b[k]))}")


def placed(name, m, dev, ctx, where):
    for k, p in list(m.named_parameters()) + list(m.named_buffers()):
        ctx.check(p.device == dev, f"{name}:parameter-device", lambda: f"{where}: {k} is on {p.device}, the module on {dev}")
        if getattr(p, "grad", None) is not None:
            ctx.check(p.grad.device == dev, f"{name}:gradient-device", lambda: f"{where}: gradient of {k} is on {p.grad.device}")


def exercise(name, make, call, ctx, where, train=True, fill=True):
    """make() -> module; call(module, mover) -> tensor(s).  The whole life of a module on the CPU and on the device."""
    seed()
    ref = make()
    if fill:
        nnref.fill(ref, 3)
    mod = copy.deepcopy(ref)
    seed(), ref.eval()
    exp = call(ref, lambda t: t)
    try:
        mod = mod.to(D)
        placed(name, mod, D, ctx, where)
        mv = lambda t: t.to(D)
        seed(), mod.eval()
        agree(name, call(mod, mv), exp, D, ctx, f"{where}: {name} (evaluation mode)")
        if train:
            ref.train(), mod.train()
            for step, cls in enumerate((torch.optim.SGD, torch.optim.Adam)):
                outs = []
                for m, f in ((ref, lambda t: t), (mod, mv)):
                    ps = list(m.parameters())
                    opt = cls(ps, lr=0.1) if ps else None
                    seed(step)
                    out = call(m, f)
                    outs.append([o.detach().clone() for o in flat(out)])
                    loss = sum((o * o).sum() + o.sum() for o in flat(out))
                    if ps and loss.requires_grad:
                        opt.zero_grad()
                        loss.backward()
                        opt.step()
                agree(name, outs[1], outs[0], D, ctx, f"{where}: {name} (training step {step})")
                placed(name, mod, D, ctx, where)
                agree_state(name, state(mod), state(ref), ctx, f"{where}: {name} after training step {step}")
        mod, ref = mod.eval().to(CPU), ref.eval()
        placed(name, mod, CPU, ctx, where)
        seed()
        got = call(mod, lambda t: t)
        seed()
        agree(name, got, call(ref, lambda t: t), CPU, ctx, f"{where}: {name} back on the CPU")
    except RuntimeError as e:
        ctx.fail(f"{name}:raises", f"{where}: {name}: {e!r}")
    except TypeError as e:
        ctx.fail(f"{name}:raises", f"{where}: {name}: {e!r}")
    ctx.step(4)
    ctx.trace()
    ctx.count(name)


def placed_structure(init, es):
    """(mover -> structure on the mover's device); a structure keeps following its caller"""
    made = {}
    sp = ["main" if i % 2 else "x" for i in range(len(es))] if init[0] == "Hypergraph" else None

    def get(mv):
        d = mv(torch.zeros(1)).device
        if d not in made:
            obj, _ = N04.build(init, es, sp)
            made[d] = obj.to(d)
        return made[d].to(d)

    return get


def do_nets(case, ctx):
    from dhg import models as M, nn

    _, init, es = case
    kind = init[0]
    where = f"{init} {es}"
    S = placed_structure(init, es)
    X = N03.X
    if kind == "BiGraph":
        nu, nv = init[1:]
        for name, make, _ in N04.emb_models(nu, nv, 2):
            exercise(name.split()[0], make, lambda m, mv: m(S(mv)), ctx, where)
        for depth in (1, 2, 3):
            for cls, make in ((M.BGNN_Adv, lambda: M.BGNN_Adv(3, 2, depth)), (M.BGNN_MLP, lambda: M.BGNN_MLP(3, 2, 4, 2, 0.5, depth))):
                exercise(cls.__name__, make, lambda m, mv: m(mv(X(nu, 3)), mv(X(nv, 2, 1)), S(mv)), ctx, where)
                if depth < 3:
                    for sdev, xdev, dn in itertools.product((CPU, D), (CPU, D), (D, str(D))):
                        outs = []
                        for dev, a, b in (("cpu", CPU, CPU), (dn, sdev, xdev)):
                            seed()
                            m = nnref.fill(make(), depth)
                            g = N04.build(init, es, None)[0].to(a)
                            seed()
                            try:
                                out = m.train_with_cascaded(X(nu, 3).to(b), X(nv, 2, 1).to(b), g, 0.01, 0.0, 2, device=dev)
                            except (RuntimeError, TypeError) as e:
                                ctx.fail(f"{cls.__name__}:training-raises", f"{where}: cascaded training on {dev!r} with the graph on {a} and features on {b}: {e!r}")
                            outs.append((out, state(m), m))
                        agree(cls.__name__, outs[1][0], outs[0][0], D, ctx, f"{where}: {cls.__name__} cascaded training")
                        agree_state(cls.__name__, outs[1][1], outs[0][1], ctx, f"{where}: {cls.__name__} cascaded training")
                        placed(cls.__name__, outs[1][2], D, ctx, where)
                        ctx.step()
    else:
        n = init[1]
        for name, (cin, _), make, _, kw in N03.layer_space(kind):
            exercise(name, make, lambda m, mv: m(mv(X(n, cin)), S(mv)), ctx, where, train=n > 1)
        for name, make, _ in N04.model_space(kind):
            exercise(name.split()[0], make, lambda m, mv: m(mv(X(n, 3)), S(mv)), ctx, where, train=n > 1)
        if kind == "Hypergraph" and all(len(e) > 1 for e in es):
            for med, last in itertools.product((False, True), repeat=2):
                exercise("HyperGCNConv", lambda: nn.HyperGCNConv(3, 2, use_mediator=med, use_bn=True, is_last=last), lambda m, mv: m(mv(X(n, 3)), S(mv)), ctx, where)
                exercise("HyperGCN", lambda: M.HyperGCN(3, 2, 2, use_mediator=med, use_bn=last, fast=False), lambda m, mv: m(mv(X(n, 3)), S(mv)), ctx, where)
                exercise("HyperGCN-fast", lambda: M.HyperGCN(3, 2, 2, use_mediator=med, use_bn=last, fast=True), lambda m, mv: m(mv(X(n, 3)), S(mv)), ctx, where)
    for d in (CPU, D):
        mv = lambda t: t.to(d)
        ctx.check(norm(S(mv).device) == d, "structure-device", f"{where}: the structure is on {S(mv).device}")
    ctx.state(str(case))
    ctx.outcome(str(case))


def do_mlp(case, ctx):
    from dhg import nn

    for chans, act, b, last in itertools.product(([3, 2], [3, 4, 2], [3, 3, 3, 1]), ("ReLU", "LeakyReLU", "Tanh", "ELU"), (True, False), (True, False)):
        exercise("MLP", lambda: nn.MLP(chans, act_name=act, use_bn=b, drop_rate=0.4, is_last=last), lambda m, mv: m(mv(N03.X(4, 3))), ctx, f"{chans} {act} {b} {last}")
        ctx.state((tuple(chans), act, b, last))
    ctx.outcome("mlp")


def do_heads(case, ctx):
    from dhg import nn

    for k, ro in itertools.product((1, 2, 3), ("concat", "mean", "sum", "max")):
        for kind, init, es, key in (("GAT", ["Graph", 3, False], [[0, 1], [1, 2]], "g"), ("UniGAT", ["Hypergraph", 3, None], [[0, 1], [0, 1, 2]], "hg")):
            S = placed_structure(init, es)
            cls = nn.GATConv if key == "g" else nn.UniGATConv
            exercise(f"MultiHead{kind}", lambda: nn.MultiHeadWrapper(k, ro, cls, in_channels=3, out_channels=2, drop_rate=0.5), lambda m, mv: m(**{"X": mv(N03.X(3, 3)), key: S(mv)}), ctx, f"{k} {ro}")
            ctx.state((k, ro, kind))
    ctx.outcome("heads")


def do_disc(case, ctx):
    from dhg import nn

    for n in (1, 2, 3):
        exercise("Discriminator", lambda: nn.Discriminator(3, 4, n, drop_rate=0.3), lambda m, mv: m(mv(N03.X(4, 3))), ctx, f"{n}")
        ctx.state(n)
    ctx.outcome("disc")


def do_loss(case, ctx):
    from dhg import nn

    for act, a, b in itertools.product(("sigmoid_then_log", "softplus"), (1.0, 0.5), (1.0, 2.0)):
        for n in (1, 2, 3):
            exercise("BPRLoss", lambda: nn.BPRLoss(a, b, act), lambda m, mv: m(mv(N03.X(n, 1).view(-1)), mv(N03.X(n, 1, 1).view(-1))), ctx, f"{act} {a} {b} {n}", fill=False)
        ctx.state((act, a, b))
    ctx.outcome("loss")


def do_reg(case, ctx):
    from dhg import nn

    for p, w, k in itertools.product((1, 2, 3), (1e-4, 0.5), (1, 2, 3)):
        exercise("EmbeddingRegularization", lambda: nn.EmbeddingRegularization(p, w), lambda m, mv: m(*[mv(N03.X(3, 2, i)) for i in range(k)]), ctx, f"{p} {w} {k}", fill=False)
        ctx.state((p, w, k))
    ctx.outcome("reg")


def do_dhcf(case, ctx):
    from dhg.models import DHCF

    for ue, ie in itertools.product(([], [[0, 1]], [[0], [0, 1]]), ([], [[0, 2]], [[0, 1, 2], [1]])):
        A, B = placed_structure(["Hypergraph", 2, None], ue), placed_structure(["Hypergraph", 3, None], ie)
        for L in (0, 1, 2, 3):
            exercise("DHCF", lambda: DHCF(2, 3, 2, L, drop_rate=0.25), lambda m, mv: m(A(mv), B(mv)), ctx, f"{ue} {ie} layers={L}")
        ctx.state((str(ue), str(ie)))
    ctx.outcome("dhcf")


# ------------------------------------------------------------------------------- metrics
HOME = {"C": CPU, "D": D}


def rows(n, vals):
    return [list(r) for r in itertools.product(vals, repeat=n)]


def do_metric(case, ctx):
    import dhg.metrics as MM
    import importlib

    _, fn, yd, pd = case
    mod, f = fn.split(".")
    f = getattr(importlib.import_module(f"dhg.metrics.{mod}"), f)
    if mod != "classification" and yd != pd:
        ctx.trace()  # the two arguments of a ranking metric are on one device
        ctx.step()
        ctx.state(str(case))
        ctx.outcome(fn)
        return
    inputs = []
    if mod == "classification":
        for y in rows(3, (0, 1, 2)):
            P = torch.tensor([[0.1, 0.5, 0.3], [0.7, 0.2, 0.1], [0.3, 0.3, 0.9]])
            inputs += [(torch.tensor(y), P, {}), (torch.tensor(y), P.argmax(1), {})]
            if "f1" in fn:
                inputs += [(torch.tensor(y), P, {"average": a}) for a in ("micro", "weighted")]
    else:
        ks = [{}, {"k": 1}, {"k": 2}, {"k": 3}]
        if mod == "retrieval":
            ks += [{"ratio": 0.5}, {"ratio": 1.0}]
        if "ap" in fn.split(".")[1]:
            ks += [{"k": 2, "method": "pascal_voc"}, {"method": "pascal_voc"}]
        for y in rows(3, (0, 1)):
            for p in ([0.3, 0.2, 0.1], [0.1, 0.5, 0.3], [0.2, 0.1, 0.6]):
                one = fn in ("retrieval.ap", "retrieval.rr")
                yy, pp = (torch.tensor(y), torch.tensor(p)) if one else (torch.tensor([y, [1, 0, 1]]), torch.tensor([p, [0.2, 0.4, 0.3]]))
                for kw in ks:
                    if fn.endswith("pr_curve"):
                        kw = {k: v for k, v in kw.items() if k != "method"} | {"n_points": 5}
                    inputs.append((yy.float() if mod == "retrieval" else yy, pp, kw))
    for y, p, kw in inputs:
        try:
            exp = f(y, p, **kw)
        except Exception as e:
            exp = e
        for extra in ({}, {"ret_batch": True}) if mod == "recommender" or fn in ("retrieval.precision", "retrieval.recall", "retrieval.ndcg", "retrieval.map", "retrieval.mrr") else ({},):
            if isinstance(exp, Exception):
                continue
            try:
                e = f(y, p, **kw, **extra)
            except Exception:
                continue
            yv, pv = y.to(HOME[yd]), p.to(HOME[pd])
            try:
                got = f(yv, pv, **kw, **extra)
            except Exception as ex:
                ctx.fail(f"{fn}:raises", f"{fn}({y.tolist()} on {yd}, {p.tolist()} on {pd}, {kw} {extra}) raised {ex!r}")
            norm_ = lambda v: [norm_(t) for t in v] if isinstance(v, (list, tuple)) else (dense(v) if isinstance(v, torch.Tensor) else v)
            ctx.check(same(norm_(got), norm_(e)), f"{fn}:value", lambda: f"{fn}({y.tolist()}, {p.tolist()}, {kw} {extra}): on the device {got}, on the CPU {e}")
            ctx.step()
        ctx.state((fn, str(y.tolist()), str(p.tolist()), str(kw)))
    ctx.trace()
    ctx.outcome(fn)


def do_evaluator(case, ctx):
    from dhg.metrics import build_evaluator

    _, task, yd, pd = case
    cls = "classification" in task
    cfgs = {True: [["accuracy"], ["accuracy", "f1_score", {"f1_score": {"average": "micro"}}, "confusion_matrix"]],
            False: [["precision"], ["recall", {"recall": {"k": 2}}, {"ndcg": {"k": 3}}, "precision"] + (["map", "mrr", {"pr_curve": {"n_points": 3}}] if task == "retrieval" else [])]}[cls]
    if not cls and yd != pd:
        yd = pd
    if task == "retrieval":
        from dhg.metrics.retrieval import RetrievalEvaluator as make_ev
    else:
        make_ev = lambda cfg: build_evaluator(task, cfg)
    for cfg in cfgs:
        for sizes in ((1,), (2,), (1, 2), (2, 2, 1)):
            outs = []
            for a, b in ((CPU, CPU), (HOME[yd], HOME[pd])):
                ev = make_ev(cfg)
                res = []
                for part in ("validate", "test"):
                    bs = []
                    for i, s in enumerate(sizes):
                        if cls:
                            y, p = torch.tensor([(i + j) % 3 for j in range(s)]), N03.X(s, 3, i)
                        else:
                            y, p = torch.tensor([[float((i + j + k) % 2) for k in range(3)] for j in range(s)]), N03.X(s, 3, i)
                        bs.append((y.to(a), p.to(b)))
                    try:
                        if cls:
                            for y, p in bs:
                                res.append(getattr(ev, part)(y, p))
                            continue
                        for y, p in bs:
                            getattr(ev, part + "_add_batch")(y, p)
                        res.append(getattr(ev, part + "_epoch_res")())
                    except (RuntimeError, TypeError) as e:
                        if (a, b) == (CPU, CPU):
                            raise
                        ctx.fail(f"evaluator:{task}:raises", f"{task} {cfg} batches {sizes} on {a}/{b}: {e!r}")
                outs.append(res)
                ctx.step()
            ctx.check(same(plain(outs[0]), plain(outs[1])), f"evaluator:{task}:value", lambda: f"{task} {cfg} batches {sizes}: on the device {outs[1]}, on the CPU {outs[0]}")
            ctx.state((task, str(cfg), sizes, yd, pd))
    ctx.trace()
    ctx.outcome(task)


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, torch.Tensor):
        return dense(x)
    return x


def do_split(case, ctx):
    from dhg.utils import split_by_num, split_by_ratio

    for y in rows(5, (0, 1)):
        for f, args in ((split_by_num, (1,)), (split_by_num, (1, 1)), (split_by_num, (1, 0, 1)), (split_by_ratio, (0.5,)), (split_by_ratio, (0.4, 0.4)), (split_by_ratio, (0.4, 0.2, 0.2))):
            a = args[:1] + (args[2:] + args[1:2] if len(args) > 2 else args[1:])
            t = torch.tensor(y)
            outs = []
            for dev in (CPU, D):
                seed()
                kw = {"train_num": args[0]} if f is split_by_num else {"train_ratio": args[0]}
                s = "num" if f is split_by_num else "ratio"
                if len(args) > 1:
                    kw[f"test_{s}"] = args[1]
                if len(args) > 2:
                    kw[f"val_{s}"] = args[2]
                try:
                    outs.append([m.tolist() for m in f(5, t.to(dev), **kw)])
                except (AssertionError, ValueError) as e:
                    outs.append(type(e).__name__)
                ctx.step()
            ctx.check(outs[0] == outs[1], "split", lambda: f"{f.__name__} {y} {args}: {outs}")
        ctx.state(tuple(y))
    ctx.trace()
    ctx.outcome("split")


# ------------------------------------------------------------------------------- tasks
class Seen:
    """Evaluator that records what it is shown and where it lives."""

    def __init__(self):
        self.v, self.x, self.pend, self.devs = [], [], [], set()

    def _rec(self, y, p):
        self.devs |= {y.device, p.device}
        return [y.cpu().tolist(), [[round(v, 4) for v in r] for r in p.detach().cpu().tolist()]]

    def _score(self, rec):
        return float(np.mean(rec[1]))

    def validate(self, y, p):
        self.v.append(self._rec(y, p))
        return self._score(self.v[-1])

    def test(self, y, p):
        self.x.append(self._rec(y, p))
        return {"s": self._score(self.x[-1])}

    def validate_add_batch(self, y, p):
        self.pend.append(self._rec(y, p))

    test_add_batch = validate_add_batch

    def validate_epoch_res(self):
        self.v.append(self.pend)
        self.pend = []
        return float(np.mean([self._score(r) for r in self.v[-1]]))

    def test_epoch_res(self):
        self.x.append(self.pend)
        self.pend = []
        return {"s": float(np.mean([self._score(r) for r in self.x[-1]]))}


def make_task(kind, dev, d, root, name):
    import dhg
    import dhg.experiments as Xp
    from dhg import models as M

    ev = Seen()
    log = []
    W = lambda t: float(t.number + 1)

    def mb(t):
        t.suggest_float("lr", 0.01, 0.2)
        seed(11)
        if kind == "plain":
            class E(torch.nn.Module):
                def __init__(self):
                    super().__init__()
                    self.U, self.I = torch.nn.Parameter(N03.X(2, 2)), torch.nn.Parameter(N03.X(3, 2, 1))

                def forward(self):
                    log.append({self.U.device})
                    return self.U * 1.0, self.I * 1.0
            return E()
        m = {"recommender": lambda: M.NGCF(2, 3, 2, 2, drop_rate=0.0), "hyper": lambda: M.HGNNP(2, 3, 2, use_bn=True, drop_rate=0.0)}.get(kind, lambda: M.GCN(2, 3, 2, use_bn=True, drop_rate=0.0))()
        nnref.fill(m, 2)
        m.register_forward_pre_hook(lambda mod, args: log.append({a.device for a in args if isinstance(a, torch.Tensor)} | {norm(a.device) for a in args if not isinstance(a, torch.Tensor)} | {p.device for p in mod.parameters()}))
        return m

    def tb(t, m):
        opt = torch.optim.Adam(m.parameters(), lr=t.params["lr"])
        if kind in ("recommender", "plain"):
            bpr = __import__("dhg").nn.BPRLoss()
            loss = lambda u, i, users, pos, neg, model=None: bpr((u[users] * i[pos]).sum(1), (u[users] * i[neg]).sum(1))
        else:
            loss = torch.nn.CrossEntropyLoss()

        def crit(*a, **k):
            log.append({x.device for x in a})
            return loss(*a, **k)

        return {"optimizer": opt, "criterion": crit, "scheduler": torch.optim.lr_scheduler.ExponentialLR(opt, 0.9)}

    def sb(t):
        if kind == "hyper":
            return dhg.Hypergraph(4, [(0, 1, 2), (2, 3)], e_weight=[W(t), 0.5])
        if kind == "recommender":
            return dhg.BiGraph(2, 3, [(0, 0), (1, 2), (1, 1)], e_weight=[W(t), 0.5, 2.0])
        return dhg.Graph(4, [(0, 1), (1, 2)], e_weight=[W(t), 0.5])

    kw = dict(device=dev, study_name=name, overwrite=True)
    data = make_data(kind)
    cls = {"vertex": Xp.VertexClassificationTask, "graph": Xp.GraphVertexClassificationTask, "hyper": Xp.HypergraphVertexClassificationTask}.get(kind, Xp.UserItemRecommenderTask)
    if kind in ("graph",):
        data["structure"] = sb(type("T", (), {"number": 0}))
    elif kind != "plain":
        kw["structure_builder"] = sb
    return cls(root, data, mb, tb, ev, **kw), ev, log


def make_data(kind, dev=CPU, full=False):
    import dhg

    u = torch.tensor([0, 1])
    if kind in ("recommender", "plain"):
        data = {"train_loader": [(u.to(dev), torch.tensor([0, 1]).to(dev), torch.tensor([2, 0]).to(dev)), (u[:1].to(dev), torch.tensor([1]).to(dev), torch.tensor([2]).to(dev))],
                "test_loader": [(u.to(dev), torch.tensor([[-9.0, 0, 0], [0, 0, -9.0]]).to(dev), torch.tensor([[0, 1.0, 0], [1.0, 0, 0]]).to(dev)), (u[1:].to(dev), torch.zeros(1, 3).to(dev), torch.tensor([[0, 1.0, 1.0]]).to(dev))]}
        if full and kind == "recommender":
            data["structure"] = dhg.BiGraph(2, 3, [(0, 1), (1, 0)]).to(dev)
        return data
    t = lambda *b: torch.tensor(b)
    data = {"features": N03.X(4, 2).to(dev), "labels": t(0, 1, 1, 0).to(dev), "train_mask": t(True, True, False, False).to(dev), "val_mask": t(False, True, True, False).to(dev), "test_mask": t(True, False, True, True).to(dev)}
    if full:
        data["structure"] = (dhg.Hypergraph(4, [(0, 3), (1, 2, 3)]) if kind == "hyper" else dhg.Graph(4, [(0, 3), (1, 3)])).to(dev)
    return data


def do_task(case, ctx):
    import optuna
    from checks import E01

    optuna.logging.disable_default_handler()
    _, kind, d, E, T = case
    root = Path(tempfile.mkdtemp(prefix="x02-", dir=os.environ["HOME"]))
    try:
        outs = {}
        for plan in ("C", "D", "C>D", "D>C"):
            import dhg

            dhg.random.set_seed(2024)
            start, end = HOME[plan[0]], HOME[plan[-1]]
            task, ev, log = make_task(kind, start, d, root, "s" + plan.replace(">", ""))
            where = f"{case} on {plan}"
            try:
                if plan == "D>C":
                    task.to(end)
                    task.run(E, T, d)
                elif plan == "C>D":
                    task.run(E, T, d)
                    task.to(end)
                else:
                    task.run(E, T, d)
                res = [task.test()]
                for home in (CPU, D):
                    res.append(task.test(make_data(kind, home, full=True)))
                    res.append(task.test(make_data(kind, home, full=True), copy.deepcopy(task.best_model).to(home)))
                    res.append(task.test(None, copy.deepcopy(task.best_model).to(home)))
            except (RuntimeError, TypeError) as e:
                if plan == "C":
                    raise
                import traceback
                ctx.fail(f"task:{kind}:raises", f"{where}: {e!r} {traceback.format_exc(limit=-3)}")
            ctx.step(1 + len(res))
            if plan != "C>D":
                # everything the model was given in training, validation and tests was on the task's device
                ctx.check(all(s == {end} for s in log), f"task:{kind}:device", lambda: f"{where}: the model saw {[sorted(map(str, s)) for s in log if s != {end}][:2]}")
                ctx.check(ev.devs == {end}, f"task:{kind}:evaluator-device", lambda: f"{where}: the evaluator saw {ev.devs}")
            for p in task.best_model.parameters():
                ctx.check(p.device == end, f"task:{kind}:best-model-device", lambda: f"{where}: best model on {p.device}")
            outs[plan] = (task.study.best_value, res, [ev.v, ev.x], task.study.best_trial.number, {k: v.cpu() for k, v in task.best_model.state_dict().items()})
            ctx.trace()
            ctx.state((kind, d, E, T, plan))
            E01.close_logs()
        for plan in outs:
            for i in range(4):
                ctx.check(same(plain(outs[plan][i]), plain(outs["C"][i])), f"task:{kind}:value", lambda: f"{case}: on {plan} {outs[plan][i]}, on the CPU {outs['C'][i]}")
            agree_state(f"task:{kind}", outs[plan][4], outs["C"][4], ctx, f"{case} on {plan}")
        ctx.outcome((kind, d, E, T))
    finally:
        E01.close_logs()
        shutil.rmtree(root, ignore_errors=True)


def run(case, ctx):
    with VDev() as v:
        globals()["do_" + case[0]](case, ctx)
        ctx.count("device-moves", v.moves)


def shrink(case):
    if case[0] == "nets":
        for i in range(len(case[2])):
            yield [case[0], case[1], case[2][:i] + case[2][i + 1:]]
