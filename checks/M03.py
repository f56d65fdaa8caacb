"""Classification metrics on every label/prediction vector."""
import itertools
import warnings

import torch

from mc import metref as R
from mc.big import Lcg

PID = "M03"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "every pair of label and prediction vectors over 3 classes on 1-4 vertices (values {0,1,2}, and {0,2,5} on up to 3) and over 2 classes on 5; predictions as indices and as score rows (up to 7 columns, integer and float scores, scores that differ by one rounding step); accuracy, F1 with micro/macro/weighted/none (and binary for 0/1 labels), confusion matrix; fixed patterns on 9-257 vertices with 2-40 classes",
    "thorough": "as quick with 3 classes on 5 vertices and 2 classes on 7",
}
ASSUME = ["score rows have a unique maximum", "classes considered are those that occur in labels or predictions", "a class with neither has F1 0"]


def cases(tier):
    th = tier == "thorough"
    for vals in ([0, 1, 2], [0, 2, 5]):
        for n in range(1, (6 if th else 5) - (vals[1] == 2)):
            for y in itertools.product(range(3), repeat=n):
                yield ["vec", [vals[c] for c in y], vals]
    for n in (5, 6, 7) if th else (5,):
        for y in itertools.product(range(2), repeat=n):
            yield ["vec", list(y), [0, 1]]
    yield ["reject"]
    for n in (9, 10, 16, 31, 64, 100, 130, 257) + ((1000, 1025) if th else ()):
        for k in (2, 3, 7, 12, 40):
            for s in range(3):
                yield ["large", n, k, s]


def run(case, ctx):
    import dhg.metrics.classification as C

    warnings.simplefilter("ignore")
    ctx.count(case[0])
    if case[0] == "reject":
        for y, p in ((torch.tensor([0, 1]), torch.tensor([0])), (torch.tensor([0]), torch.tensor([0, 1])), (torch.tensor([0, 1]), torch.rand(3, 2)), (torch.tensor([[0], [1]]), torch.tensor([0, 1]))):
            for f in (C.accuracy, C.f1_score, C.confusion_matrix):
                ctx.step()
                try:
                    f(y, p)
                except (AssertionError, ValueError, RuntimeError):
                    continue
                ctx.fail("not-rejected", f"{f.__name__} accepted labels {tuple(y.shape)} against predictions {tuple(p.shape)}")
        return
    if case[0] == "large":
        _, n, k, s = case
        r = Lcg(n * 100 + k * 7 + s)
        vals = list(range(k)) if s < 2 else [3 * c + 1 for c in range(k)]
        y = [vals[r(k)] for _ in range(n)]
        preds = [[c if r(4) else vals[r(k)] for c in y] for _ in range(3)] + [[vals[(vals.index(c) + 1) % k] for c in y], [vals[-1]] * n, list(y)]
        preds.append([vals[r(2)] for _ in y])
    else:
        _, y, vals = case
        preds = itertools.product(vals, repeat=len(y))
    n = len(y)
    yt = torch.tensor(y)
    ctx.trace()
    for idx, p in enumerate(preds):
        p = list(p)
        ncol = max(vals) + 1 + idx % 2
        rows = torch.full((n, ncol), -0.5)
        for i, c in enumerate(p):
            for j in range(ncol):
                rows[i, j] = ((i + 3 * j) % 5) * 0.1 - 0.7
            rows[i, c] = 0.4 + 0.1 * (i % 40)
        # the winner is ahead by the smallest step of the number type
        dt = (torch.float32, torch.float64, torch.float16)[idx % 3]
        tight = torch.full((n, ncol), 0.75, dtype=dt)
        for i, c in enumerate(p):
            tight[i] = 0.25 * (1 + (i + idx) % 5)
            tight[i, c] = float(tight[i, c]) * (1 + 1.5 * torch.finfo(dt).eps)
        forms = [("indices", torch.tensor(p)), ("close scores", tight), ("scores", rows if idx % 3 else (rows * 10).round().long())]
        for form, pt in forms:
            y0, p0 = yt.clone(), pt.clone()
            where = f"({form}) labels {y} predictions {p}"
            calls = [("accuracy", {}, sum(a == b for a, b in zip(y, p)) / n), ("confusion_matrix", {}, R.confusion(y, p)), ("f1_score", {}, R.f1(y, p, "macro"))]
            calls += [("f1_score", {"average": a}, R.f1(y, p, a)) for a in ("micro", "macro", "weighted", None)]
            if set(y) | set(p) <= {0, 1} and len(set(y) | set(p)) == 2:
                calls.append(("f1_score", {"average": "binary"}, R.f1(y, p, "binary")))
            for name, o, want in calls:
                got = getattr(C, name)(y0, p0, **o)
                ctx.step()
                g = got.tolist() if hasattr(got, "tolist") else got
                if name == "confusion_matrix":
                    ctx.check(g == want, "confusion", lambda: f"confusion_matrix {where}: {g}, defined {want}")
                elif o.get("average", "x") is None:
                    ctx.check(len(g) == len(want) and all(abs(a - b) < 1e-6 for a, b in zip(g, want)), "f1-per-class", lambda: f"f1_score {o} {where}: {g}, defined {want}")
                else:
                    ctx.check(g == g and abs(g - want) < 1e-6, name, lambda: f"{name} {o} {where}: {g}, defined {want}")
            ctx.check(torch.equal(y0, yt) and torch.equal(p0, pt), "input-changed", where)
            ctx.state((tuple(y), tuple(p), form))
        ctx.outcome((R.f1(y, p), sum(a == b for a, b in zip(y, p)) / n))
