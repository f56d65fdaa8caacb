"""Automatic experiments: best trial / best epoch selection over every score history."""
import itertools
import math
import os
import shutil
import tempfile
from pathlib import Path

from mc.big import Lcg

PID = "E01"
LEVEL = "model_checking"
CHUNK = {"quick": 120, "thorough": 240}
KINDS = ("graph", "hyper", "vertex", "recommender", "plain")
INF = float("inf")
BOUNDS = {
    "quick": "every score table over {-1,0,1} for trials x epochs in 1x1..1x4, 2x1, 2x2, 3x1 for all five task forms and 2x3 and 3x2 spread over them, over {-inf,0,inf} for 1x3 and 2x2, both directions, with and without a learning-rate schedule; every pruning position of every trial for every 2x2 and (spread over the forms) 2x3 and 3x2 table; the real median pruner after five fixed trials for every 2x2 table; repeated runs of one task and same-name studies with and without overwriting for every pair of 2x1 tables; every metric of the evaluators; studies of 1-23 trials x 1-60 epochs with the best score at every other position",
    "thorough": "as quick with 2x3 and 3x2 in full for all forms, 1x5 and 4x1 tables, all pruning positions of 2x3 and 3x2 tables for two forms in full",
}
ASSUME = ["scores are numbers (no NaN)", "at least one epoch and one trial that is not pruned", "among equal best scores any trial and epoch may be kept", "model and training builders are deterministic functions of the trial"]


def tables(T, E, vals=(-1, 0, 1)):
    for s in itertools.product(vals, repeat=T * E):
        yield [list(s[i * E:(i + 1) * E]) for i in range(T)]


def cases(tier):
    th = tier == "thorough"
    D = ("maximize", "minimize")
    n = 0
    for T, E in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (2, 2)) + (((1, 5), (4, 1)) if th else ()):
        for tb in tables(T, E):
            for d in D:
                for k in KINDS:
                    n += 1
                    if not th and k != "graph" and T * E > 3 and n % 3:
                        continue
                    yield ["run", k, d, n % 2, tb, None]
    for T, E in ((1, 3), (2, 2)):
        for tb in tables(T, E, ("-inf", 0, "inf")):
            for d in D:
                n += 1
                yield ["run", KINDS[n % 5], d, n % 2, tb, None]
    for T, E in ((2, 3), (3, 2)):
        for i, tb in enumerate(tables(T, E)):
            for d in D:
                for j in range(5 if th else 1):
                    yield ["run", KINDS[(i + j) % 5], d, i // 5 % 2, tb, None]
    for T, E in ((2, 2),) + ((2, 3), (3, 2)):
        prs = [p for p in itertools.product(range(E + 1), repeat=T) if any(x == E for x in p) and min(p) < E]
        for i, tb in enumerate(tables(T, E)):
            for j, p in enumerate(prs):
                for d in D:
                    n += 1
                    if T * E > 4 and not th and (i + j) % 4:
                        continue
                    for r in range(2 if th else 1):
                        yield ["run", KINDS[(n + r) % 5], d, n // 5 % 2, tb, list(p)]
    for i, tb in enumerate(tables(2, 2)):
        for d in D:
            yield ["median", KINDS[i % 5], d, 0, [[1, 0], [0, 1], [0, 0], [1, 1], [-1, 1]] + tb, None]
    for a, b in itertools.product(list(tables(2, 1)), repeat=2):
        for how in ("again", "overwrite", "keep", "other"):
            n += 1
            yield ["twice", KINDS[n % 5], D[n % 2], 0, a, b, how]
    # long studies: the best score at one position, among close, plateau, rising and falling scores
    r = Lcg(7)
    for T, E in ((12, 3), (23, 1), (3, 14), (1, 60), (2, 33), (11, 8)) + (((105, 2), (4, 150)) if th else ()):
        pos = [(t, e) for t in range(T) for e in range(E)]
        for i, (t, e) in enumerate(pos if th or len(pos) <= 36 else pos[::2] + pos[-2:]):
            for d in D:
                sg = 1 if d == "maximize" else -1
                base = [[[0, 0.5, -3][i % 3] for _ in range(E)] for _ in range(T)] if i % 4 else [[sg * (-1 - r(50)) * [1e-6, 1.0, 1e4][i % 3] for _ in range(E)] for _ in range(T)]
                base[t][e] = max(max(row) for row in base) + [1e-7, 1.0, 1e6][i % 3] if sg > 0 else min(min(row) for row in base) - [1e-7, 1.0, 1e6][i % 3]
                n += 1
                plan = [E] * T if T > 5 else None
                if i % 5 == 2 and T > 1:
                    plan = [E if x == t or r(3) else r(E) for x in range(T)]
                yield ["run", KINDS[n % 5], d, 0, base, plan]
        for d in D:
            for shape in range(4):
                f = [lambda t, e: t * E + e, lambda t, e: -t * E - e, lambda t, e: (t * 7 + e * 3) % 11, lambda t, e: -abs(t - T // 2) - abs(e - E // 2)][shape]
                n += 1
                yield ["median" if T > 5 else "run", KINDS[n % 5], d, 0, [[f(t, e) / 8 for e in range(E)] for t in range(T)], None]
    for k in KINDS:
        for d in D:
            yield ["metrics", k, d]
    yield ["roots"]


# ----------------------------------------------------------------- scripted models, evaluators


def env():
    import torch
    import torch.nn as nn
    import optuna
    import dhg

    optuna.logging.disable_default_handler()

    class Model(nn.Module):
        def __init__(self, number, a, kind):
            super().__init__()
            self.kind, self.a = kind, a
            self.w = nn.Parameter(torch.tensor(1024.0 * number))
            self.extra = nn.Parameter(torch.zeros(a % 3 + 1))  # the shape depends on the parameter
            self.register_buffer("seen", torch.tensor(0.0))

        def forward(self, *args):
            s = args[-1] if args else None
            if self.training:
                self.seen += 1
            code = 0.0 if s is None else float(s.e[1][0])
            if self.kind in ("recommender", "plain"):
                u = torch.stack([self.w, torch.ones(())]).repeat(2, 1)
                i = torch.stack([torch.stack([torch.ones(()), torch.zeros(())]), torch.tensor([0.0, code]), torch.stack([torch.zeros(()), self.seen * 1.0]), torch.tensor([0.0, float(self.a)])])
                return u, i
            row = torch.stack([self.w, torch.tensor(code), self.seen * 1.0, torch.tensor(float(self.a))])
            return row.repeat(3, 1)

    return torch, nn, optuna, dhg, Model


def nearest(W, w):
    i = min(range(len(W)), key=lambda i: abs(W[i] - w))
    return i if abs(W[i] - w) < 0.2 else None


class Script:
    """The evaluator: a prediction identifies the model that made it; its score comes from the script."""

    def __init__(self, table, W):
        self.table = [[float(x) for x in r] for r in table]
        self.W = W
        self.valids, self.tests, self.pend = [], [], None

    def locate(self, row):
        w, code, seen, a = (float(x) for x in row)
        t = int(w // 1024)
        e = nearest(self.W, w - 1024 * t)
        return t, e, code, seen, a

    def validate(self, y_true, y_pred):
        loc = self.locate(y_pred[0])
        self.valids.append(loc)
        return self.table[loc[0]][loc[1]]

    def test(self, y_true, y_pred):
        loc = self.locate(y_pred[0])
        self.tests.append(loc)
        return {"trial": float(loc[0]), "epoch": float(-1 if loc[1] is None else loc[1])}

    def validate_add_batch(self, y_true, y_pred):
        self.pend = (y_true, y_pred)

    def validate_epoch_res(self):
        return self.validate(*self.pend)

    def test_add_batch(self, y_true, y_pred):
        self.pend = (y_true, y_pred)

    def test_epoch_res(self):
        return self.test(*self.pend)


def weights(E, sched):
    """w after each epoch: SGD with learning rate 1 (doubling with the schedule) and momentum 1/2 on a constant gradient."""
    out, w, v = [], 0.0, 0.0
    for e in range(E):
        v = (v / 2 if e else 0.0) + 1.0
        w += v * (2.0 ** e if sched else 1.0)
        out.append(w)
    return out


def make(kind, table, sched, root, name="study", overwrite=True, evaluator=None, E=None):
    torch, nn, optuna, dhg, Model = env()
    import dhg.experiments as X

    ev = evaluator or Script(table, weights(len(table[0]), sched))
    params = {}
    log = {"models": [], "structures": [], "optimizers": []}

    def mb(trial):
        a = trial.suggest_int("a", 0, 1000)
        trial.suggest_categorical("c", ["x", "y"])
        params.setdefault(trial.number, a)
        log["models"].append(trial.number)
        return Model(trial.number, a, kind)

    def tb(trial, model):
        lr = trial.suggest_float("unused", 0.1, 0.9)
        opt = torch.optim.SGD(model.parameters(), lr=1.0, momentum=0.5)
        cfg = {"optimizer": opt, "criterion": (lambda u, i, *r, **k: -u[:, 0].mean()) if kind in ("recommender", "plain") else (lambda o, y: -o[:, 0].mean())}
        if sched:
            cfg["scheduler"] = torch.optim.lr_scheduler.LambdaLR(opt, lambda e: 2.0 ** e)
        log["optimizers"].append(trial.number)
        return cfg

    def sb(trial):
        log["structures"].append(trial.number)
        w = float(trial.number + 1)
        if kind == "hyper":
            return dhg.Hypergraph(3, [(0, 1, 2)], e_weight=[w])
        if kind == "recommender":
            return dhg.BiGraph(2, 4, [(0, 0)], e_weight=[w])
        return dhg.Graph(3, [(0, 1)], e_weight=[w])

    kw = dict(device=torch.device("cpu"), study_name=name, overwrite=overwrite)
    if kind in ("recommender", "plain"):
        u = torch.tensor([0, 1])
        data = {"train_loader": [(u, torch.tensor([0, 1]), torch.tensor([2, 3]))], "test_loader": [(u, torch.zeros(2, 4), torch.tensor([[1.0, 0, 0, 0], [0, 1, 0, 0]]))]}
        if kind == "recommender":
            kw["structure_builder"] = sb
        task = X.UserItemRecommenderTask(root, data, mb, tb, ev, **kw)
    else:
        m = torch.tensor([True, True, True])
        data = {"features": torch.ones(3, 2), "labels": torch.tensor([0, 1, 0]), "train_mask": m, "val_mask": m.clone(), "test_mask": m.clone()}
        if kind == "graph":
            data["structure"] = dhg.Graph(3, [(0, 1)], e_weight=[0.5])
            task = X.GraphVertexClassificationTask(root, data, mb, tb, ev, **kw)
        else:
            kw["structure_builder"] = sb
            task = (X.HypergraphVertexClassificationTask if kind == "hyper" else X.VertexClassificationTask)(root, data, mb, tb, ev, **kw)
    return task, ev, params, log


def code_of(kind, t):
    return {"graph": 0.5, "plain": 0.0}.get(kind, float(t + 1))


def close_logs():
    import logging

    lg = logging.getLogger("optuna")
    for h in list(lg.handlers):
        if isinstance(h, logging.FileHandler):
            lg.removeHandler(h)
            h.close()


class Prune:
    """Scripted pruner decisions: trial t stops at its p[t]-th report."""

    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        import optuna

        self.cls = optuna.trial.Trial
        self.old = self.cls.should_prune
        plan = self.plan

        def should_prune(trial):
            k = trial.study._storage.get_trial(trial._trial_id).intermediate_values
            return max(k) == plan[trial.number]

        self.cls.should_prune = should_prune

    def __exit__(self, *a):
        self.cls.should_prune = self.old


def scratch():
    return Path(tempfile.mkdtemp(prefix="e01-", dir=os.environ["HOME"]))


def run(case, ctx):
    ctx.count(case[0])
    root = scratch()
    try:
        globals()["do_" + case[0]](case, ctx, root)
    finally:
        close_logs()
        shutil.rmtree(root, ignore_errors=True)


def do_run(case, ctx, root):
    import contextlib

    _, kind, d, sched, tb, plan = case
    T, E = len(tb), len(tb[0])
    task, ev, params, log = make(kind, tb, sched, root)
    with (Prune(plan) if plan else contextlib.nullcontext()):
        task.run(E, T, d)
    judge(task, ev, params, log, case, plan or [E] * T, root / "study", ctx)


def do_median(case, ctx, root):
    import optuna

    _, kind, d, sched, tb, _ = case
    T, E = len(tb), len(tb[0])
    task, ev, params, log = make(kind, tb, sched, root)
    task.run(E, T, d)
    plan = []
    for t in task.study.trials:
        ctx.check(t.state in (optuna.trial.TrialState.COMPLETE, optuna.trial.TrialState.PRUNED), "trial-failed", lambda: f"{case}: trial {t.number} is {t.state}")
        plan.append(E if t.state == optuna.trial.TrialState.COMPLETE else max(t.intermediate_values))
    ctx.check(all(p == E for p in plan[:5]), "pruned-early", lambda: f"{case}: {plan}")
    if min(plan) < E:
        ctx.count("pruned by the median pruner")
    judge(task, ev, params, log, case, plan, root / "study", ctx)


def judge(task, ev, params, log, case, plan, study_root, ctx):
    kind, d, sched = case[1:4]
    table, W = ev.table, ev.W
    T, E = len(table), len(table[0])
    better = max if d == "maximize" else min
    vals = {t: better(table[t]) for t in range(T) if plan[t] == E}
    best = better(vals.values())
    # every epoch of every trial trained and validated a fresh model exactly once, in order
    want = [(t, e, code_of(kind, t), e + 1.0, float(params[t])) for t in range(T) for e in range(min(plan[t] + 1, E))]
    ctx.check(ev.valids == want, "epochs", lambda: f"{case}: validated models (trial, epoch, structure, buffer, parameter) {ev.valids}, expected {want}")
    ctx.step(len(want))
    ctx.trace()
    st = task.study.trials
    ctx.check(len(st) == T, "trials", lambda: f"{case}: {len(st)} trials")
    for t in range(T):
        ctx.check(st[t].intermediate_values == {e: table[t][e] for e in range(min(plan[t] + 1, E))}, "reports", lambda: f"{case}: trial {t} reported {st[t].intermediate_values}")
        ctx.check(st[t].state.name == ("COMPLETE" if plan[t] == E else "PRUNED"), "trial-state", lambda: f"{case}: trial {t} {st[t].state}")
        if plan[t] == E:
            ctx.check(st[t].value == vals[t], "trial-value", lambda: f"{case}: trial {t} has value {st[t].value}, best epoch {vals[t]}")
        ctx.check(st[t].params["a"] == params[t], "params", lambda: f"{case}: trial {t}: {st[t].params} / {params[t]}")
        ctx.state((kind, d, tuple(table[t][:plan[t] + 1]), best))
    b = task.best_trial.number
    ctx.check(vals.get(b) == best and task.best_trial.value == best, "best-trial", lambda: f"{case}: trial {b} chosen with {vals.get(b)}, best {best}")
    good = [e for e in range(E) if table[b][e] == best]

    def model_ok(m, what):
        t, e, seen = int(float(m.w) // 1024), None, float(m.seen)
        e = nearest(W, float(m.w) - 1024 * t)
        ctx.check(t == b and e in good and seen == e + 1 and m.a == params[b], "best-model", lambda: f"{case}: {what} is from trial {t} epoch {e} (buffer {seen}, parameter {m.a}); best is trial {b} (parameter {params[b]}) epochs {good}")
        return e

    e = model_ok(task.best_model, "kept model")
    exp = (b, e, code_of(kind, b), e + 1.0, float(params[b]))
    ctx.check(ev.tests == [exp], "tested", lambda: f"{case}: tested (trial, epoch, structure, buffer, parameter) {ev.tests}, expected {exp}")
    if kind != "plain":
        ctx.check(float(task.best_structure.e[1][0]) == code_of(kind, b), "best-structure", lambda: f"{case}: structure of trial {float(task.best_structure.e[1][0]) - 1}, best {b}")
    res = task.test()
    ctx.check(res == {"trial": float(b), "epoch": float(e)} and ev.tests[-1] == exp, "test-again", lambda: f"{case}: {res} {ev.tests}")
    files = sorted(p.name for p in (study_root / "cache").glob("*"))
    ctx.check(all(f.split("_")[0] == str(b) for f in files), "cache", lambda: f"{case}: cached files {files}, best {b}")
    text = (study_root / "log.txt").read_text()
    tail = text[text.rindex("Final test results"):]
    ctx.check(f"trial |-> {b}" in tail and f"epoch |-> {e}" in tail, "log", lambda: f"{case}: log ends with {tail}")
    ctx.outcome((kind, d, b, e, T, E))


def do_twice(case, ctx, root):
    _, kind, d, sched, ta, tb, how = case
    other = root / "bystander"
    other.mkdir()
    (other / "keep.txt").write_text("x")
    task, ev, params, log = make(kind, ta, sched, root)
    task.run(1, len(ta), d)
    judge(task, ev, params, log, case[:4], [1] * len(ta), root / "study", ctx)
    (root / "study" / "mine.txt").write_text("y")
    first = {p.name: p.read_bytes() for p in (root / "study" / "cache").glob("*")}
    if how == "again":
        ev.valids.clear(), ev.tests.clear(), params.clear()
        ev.table = [[float(x) for x in r] for r in tb]
        task.run(1, len(tb), d)
        judge(task, ev, params, log, case[:4], [1] * len(tb), root / "study", ctx)
    else:
        name = "study2" if how == "other" else "study"
        close_logs()
        task, ev, params, log = make(kind, tb, sched, str(root), name, how == "overwrite")
        task.run(1, len(tb), d)
        judge(task, ev, params, log, case[:4], [1] * len(tb), root / name, ctx)
        ctx.check((root / "study" / "mine.txt").exists() == (how != "overwrite"), "overwrite", lambda: f"{case}: files of the earlier study {'kept' if how == 'overwrite' else 'lost'}")
        if how == "other":
            now = {p.name: p.read_bytes() for p in (root / "study" / "cache").glob("*")}
            ctx.check(now == first, "other-study", lambda: f"{case}: another study changed {sorted(first)} into {sorted(now)}")
    ctx.check((other / "keep.txt").read_text() == "x", "bystander", str(case))


def do_metrics(case, ctx, root):
    """Every metric configuration the evaluators accept can be used in a complete run."""
    from dhg.metrics import build_evaluator

    _, kind, d = case
    if kind in ("recommender", "plain"):
        cfgs = [["precision"], ["recall", {"recall": {"k": 2}}], [{"ndcg": {"k": 3}}, "precision", "recall"]]
        nm = "user_item_recommender"
    else:
        cfgs = [["accuracy"], ["accuracy", "f1_score", {"f1_score": {"average": "micro"}}], ["accuracy", "confusion_matrix"], [{"f1_score": {"average": "macro"}}, {"f1_score": {"average": None}}]]
        nm = "hypergraph_vertex_classification" if kind == "hyper" else "graph_vertex_classification"
    for i, c in enumerate(cfgs):
        ev = build_evaluator(nm, c)
        task, _, params, log = make(kind, [[0, 0]], 0, root, f"m{i}", evaluator=ev)
        task.run(2, 2, d)
        ctx.step()
        ctx.trace()
        res = task.test()
        ctx.check(len(res) == len(c), "metrics", lambda: f"{case} {c}: {res}")
        text = (root / f"m{i}" / "log.txt").read_text()
        tail = text[text.rindex("Final test results"):]
        ctx.check(all(f"{k} |-> " in tail for k in res), "metrics-log", lambda: f"{case} {c}: {tail}")
        vals = [t.value for t in task.study.trials]
        ctx.check(all(isinstance(v, float) and math.isfinite(v) for v in vals), "metrics-value", lambda: f"{case}: {vals}")
        ctx.state((kind, d, i, str(res)))
        close_logs()
    ctx.outcome((kind, d))


def do_roots(case, ctx, root):
    (root / "a").mkdir()
    for w, ok in ((root / "a" / "new", True), (str(root / "b"), True), (root / "x" / "y", False), (str(root / "a"), True)):
        ctx.step()
        ctx.trace()
        try:
            task, ev, params, log = make("graph", [[1, 0]], 0, w)
        except ValueError:
            ctx.check(not ok, "work-root", f"work root {w} rejected")
            continue
        ctx.check(ok, "work-root", f"work root {w} without parent accepted")
        task.run(2, 1, "minimize")
        judge(task, ev, params, log, ["run", "graph", "minimize", 0], [2], Path(w) / "study", ctx)
        close_logs()
    task, *_ = make("graph", [[1, 0]], 0, root, None)
    task.run(1, 1)
    ctx.check(len(list(root.glob("20*/log.txt"))) == 1, "study-name", lambda: f"{list(root.glob('*'))}")
    ctx.state("roots")
    ctx.outcome("roots")
