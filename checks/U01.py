"""Vertex splits under every outcome of the random source."""
import itertools
import math

import numpy as np
import torch

from mc import rng

PID = "U01"
LEVEL = "model_checking"
CHUNK = 20
BOUNDS = {
    "quick": "every label vector over <=3 classes on 1-4 vertices and over 2 classes on 5, label values {0,1,2}, {1,2,3}, {-1,0,7}, {2,5,9}, given as list, tensor, ndarray and column; by number: train 0-2, validation None/0/1/2, test None/0/1; by share: (1/4,1/2,3/4) combinations; every outcome of the shuffles (uniform over the class's subsets); larger label vectors: 12 and 30 vertices under 20 seeds, 40-257 vertices under five base outcomes of the shuffles and single deviations",
    "thorough": "as quick with every label vector on 5 vertices and two classes on 6",
}
ASSUME = ["shares are multiples of 1/4 or 1/10 (products with the class size are taken as floor)", "if the random source is not intercepted only counts, disjointness and reachability over 200 seeds are judged"]
VALS = [[0, 1, 2], [1, 2, 3], [-1, 0, 7], [2, 5, 9]]


def cases(tier):
    th = tier == "thorough"
    nums = [(tr, va, te) for tr in (1, 2, 0) for va in (None, 1, 0, 2) for te in (None, 1, 0)]
    shares = [(0.5, None, None), (0.25, 0.5, None), (0.5, 0.25, 0.25), (0.25, 0.0, None), (0.75, 0.0, 0.25), (0.5, 0.5, 0.0), (0.0, 0.5, None), (0.25, None, 0.5), (0.75, 0.125, None)]
    for n, k in ((1, 1), (2, 2), (3, 3), (4, 3), (5, 3 if th else 2)) + (((6, 2),) if th else ()):
        for i, lab in enumerate(itertools.product(range(k), repeat=n)):
            for j, vals in enumerate(VALS):
                ps = [("num", p) for p in nums] + [("ratio", p) for p in shares]
                if n >= 3:
                    ps = ps[(i + j) % 3::3]
                if n >= 5:
                    ps = ps[(i + j) % 4::4]
                    if max(lab.count(c) for c in set(lab)) > 5:
                        continue
                for kind, p in ps:
                    yield ["exact", kind, [vals[c] for c in lab], list(p), ("list", "tensor", "ndarray", "column")[(i + j) % 4]]
    for lab in ([i % 3 for i in range(12)], [1 + (i * i) % 4 for i in range(30)], [5] * 9, [0] * 10 + [1] * 20):
        for p in ((3, 2, 1), (1, None, None), (2, 3, None), (20, 1, None)):
            yield ["seeds", "num", lab, list(p), "list"]
        for p in ((0.6, 0.1, 0.2), (0.6, 0.1, None), (0.1, 0.2, 0.7), (0.9, None, None), (0.2, 0.2, 0.6)):
            yield ["seeds", "ratio", lab, list(p), "tensor"]
    for n, k in ((40, 3), (100, 7), (130, 2), (257, 5), (64, 1)) + (((1000, 12), (513, 4)) if th else ()):
        lab = [(i * i * 3 + i // 7) % k for i in range(n)] if k > 1 else [0] * n
        for p in ((20, 5, None), (5, None, None), (1, 1, 1), (30, 30, 30), (100, None, 3), (8, 40, None)):
            yield ["dev", "num", lab, list(p), "tensor"]
        for p in ((0.8, 0.1, None), (0.1, 0.1, 0.8), (0.7, None, 0.3), (0.6, 0.2, 0.1), (0.3, 0.3, None), (0.25, 0.5, None)):
            yield ["dev", "ratio", lab, list(p), "list"]
    for p in ([0.8, 0.2, None], [0.8, 0.4, None], [0.5, 0.3, 0.3], [1.0, None, None]):
        yield ["bad", "ratio", [0, 1, 0, 1], p, "list"]


def arg(lab, how):
    if how == "list":
        return list(lab)
    if how == "tensor":
        return torch.tensor(lab)
    if how == "ndarray":
        return np.array(lab)
    return torch.tensor(lab).reshape(-1, 1)


def sizes(kind, cnt, p):
    tr, va, te = p
    if kind == "ratio":
        fl = lambda r: math.floor(cnt * r + 1e-9)
        a, b = fl(tr), fl(va or 0)
        return a, b, cnt - a - b if te is None else fl(te)
    a = min(tr, cnt)
    b = min(va or 0, cnt - a)
    return a, b, cnt - a - b if te is None else min(te, cnt - a - b)


def run(case, ctx):
    from dhg.utils import split_by_num, split_by_ratio

    mode, kind, lab, p, how = case
    f = split_by_num if kind == "num" else split_by_ratio
    n = len(lab)
    where = f"split_by_{kind}({n}, {lab} as {how}, {p})"
    ctx.count(kind + " " + mode)
    ctx.trace()
    if mode == "bad":
        try:
            r = f(n, lab, *p)
        except (AssertionError, ValueError):
            return
        if p[:2] == [1.0, None]:
            ctx.check(len(r) == 2, "shape", where)
            return
        ctx.fail("not-rejected", f"{where}: shares of more than the whole accepted")
    has_val = bool(p[1])

    def once():
        a = arg(lab, how)
        r = f(n, a, *p)
        if not isinstance(a, list):
            ctx.check(a.reshape(-1).tolist() == list(lab), "labels-changed", f"{where}: labels are now {a}")
        if len(r) != (3 if has_val else 2):
            return ("bad", f"{len(r)} masks returned")
        for m in r:
            if m.dtype != torch.bool or tuple(m.shape) != (n,):
                return ("bad", f"mask {m.dtype} {tuple(m.shape)}")
        r = [tuple(m.tolist()) for m in r]
        return (r[0], r[1] if has_val else (False,) * n, r[-1])

    classes = {c: [i for i, x in enumerate(lab) if x == c] for c in sorted(set(lab))}
    want = {c: sizes(kind, len(ix), p) for c, ix in classes.items()}

    def judge(v):
        ctx.check(v[0] != "bad", "masks", lambda: f"{where}: {v[1]}")
        tr, va, te = v
        for i in range(n):
            ctx.check(tr[i] + va[i] + te[i] <= 1, "disjoint", lambda: f"{where}: vertex {i} is in more than one part: {v}")
        for c, ix in classes.items():
            got = tuple(sum(m[i] for i in ix) for m in v)
            ctx.check(got == want[c], "sizes", lambda: f"{where}: class {c} (vertices {ix}) is split {got}, expected {want[c]}: {v}")

    if mode == "dev":
        k = 0
        for base in ("first", "last", 5, 17, 400009):
            bound = 1 if base == 17 and n <= 64 else 0
            for devs, v in rng.deviate(once, base=base, bound=bound, max_points=20000, stride=7):
                if devs is None:
                    break
                k += 1
                if v is not None:
                    judge(v)
                    ctx.step()
                    ctx.state((len(lab), kind, tuple(map(str, p)), v))
        for v in rng.many_seeds(once, 4) if k == 0 else ():
            judge(v)
        ctx.outcome(str((n, kind, p)))
        return
    if mode == "seeds":
        vals = rng.many_seeds(once, 20)
        for v in vals:
            judge(v)
            ctx.step()
        ctx.state((str(case)))
        ctx.outcome(str(case))
        return
    r = rng.explore(once, grid=4, budget=1500)
    leaves = r.leaves if not r.uncontrolled else [(0, v) for v in rng.many_seeds(once, 200)]
    ctx.step(r.execs)
    for _, v in leaves:
        judge(v)
        ctx.state((tuple(lab), kind, tuple(map(str, p)), v))
    ctx.outcome((tuple(lab), kind, tuple(map(str, p))))
    for c, ix in classes.items():
        a, b, t = want[c]
        for part, k in enumerate((a, b, t)):
            for i in ix:
                hit = sum(q for q, v in leaves if v[part][i])
                if r.uncontrolled:
                    ctx.check(k == 0 or any(v[part][i] for _, v in leaves), "reachability", lambda: f"{where}: vertex {i} never lands in part {part}")
                else:
                    ctx.check(abs(hit - k / len(ix)) <= r.truncated + 1e-6, "probability", lambda: f"{where}: vertex {i} is in part {part} with probability {hit}, expected {k / len(ix)}")
        if not r.uncontrolled and r.truncated < 1e-9:
            for sub in itertools.combinations(ix, a):
                hit = sum(q for q, v in leaves if tuple(i for i in ix if v[0][i]) == sub)
                ctx.check(abs(hit - 1 / math.comb(len(ix), a)) < 1e-6, "uniform", lambda: f"{where}: training part of class {c} is {sub} with probability {hit}")
