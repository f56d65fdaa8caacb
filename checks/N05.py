"""Ranking loss and embedding regulariser against their formulas on value grids."""
import itertools
import math

import numpy as np
import torch

from mc.cmp import close, dense, show

PID = "N05"
LEVEL = "model_checking"
CHUNK = 400
BOUNDS = {
    "quick": "ranking loss: every pair of score vectors of length 1-2 (and selected 3) over {-100,-30,-1,0,0.5,2,30,100} (shapes (n,), (n,1), (1,n)), both activations, alpha/beta in {0.5,1,2}, value and gradients, shifted scores; regulariser: every matrix of up to 2x2 entries over {-2,-1,0,0.5,3}, powers 1-4, 0-3 embeddings in every order, weights {0,1e-4,0.1}, value and gradient; score vectors and matrices of 4 to 1025 entries, embeddings up to 128x64 and up to 6 of them, powers 1-6; scores up to 1e30 in magnitude and entries from 1e-4 to 1e4",
    "thorough": "quick + every pair of score vectors of length 3 over 5 values, every pair of 2x2 matrices",
}
ASSUME = ["the loss is a function of alpha*positive - beta*negative; with equal coefficients only of the difference"]
V = [-100.0, -30.0, -1.0, 0.0, 0.5, 2.0, 30.0, 100.0]
E = [-2.0, -1.0, 0.0, 0.5, 3.0]


def cases(tier):
    for act in ("sigmoid_then_log", "softplus"):
        for a, b in itertools.product((1.0, 0.5, 2.0), repeat=2):
            for p, q in itertools.product(V, repeat=2):
                yield ["bpr", act, a, b, [p], [q]]
        for ps in itertools.product(V, repeat=2):
            for qs in itertools.product(V, repeat=2):
                yield ["bpr", act, 1.0, 1.0, list(ps), list(qs)]
                if tier == "thorough":
                    yield ["bpr", act, 2.0, 0.5, list(ps), list(qs)]
        small = V[1:7] if tier == "thorough" else [-1.0, 0.5]
        for ps in itertools.product(small, repeat=3):
            for qs in itertools.product(small[:3], repeat=3):
                yield ["bpr", act, 2.0, 0.5, list(ps), list(qs)]
        far = [-1e30, -1e6, -4096.0, -1e-5, 0.0, 1e-5, 4096.0, 1e6, 1e30]
        for p, q in itertools.product(far, repeat=2):
            for a in (1.0, 0.5, 2.0):
                yield ["bpr", act, a, a, [p], [q]]
            yield ["bpr", act, 1.0, 1.0, [p, 0.5], [q, 2.0]]
    for p in (1, 2, 3, 4, 5, 6):
        for m in (1e-4, 1e-2, 50.0, 1e3, 1e4) if p < 5 else (1e-2, 10.0, 50.0):
            for r, c in ((1, 1), (2, 3), (9, 4), (70, 3)):
                yield ["reg", p, [[r, c, [E[(i * 3 + i // c) % 5] * m for i in range(r * c)]]]]
            yield ["reg", p, [[2, 2, [1.0, -2.0, 0.5, m]], [1, 1, [-m]]]]
    for p in (1, 2, 3, 4):
        yield ["reg", p, []]
        for r, c in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for vs in itertools.product(E, repeat=r * c):
                yield ["reg", p, [[r, c, list(vs)]]]
        for v1 in itertools.product(E, repeat=2):
            for v2 in itertools.product(E, repeat=2 if tier == "quick" else 4):
                yield ["reg", p, [[2, 1, list(v1)], [1, 2, list(v2)] if len(v2) == 2 else [2, 2, list(v2)], [1, 1, [3.0]]]]
    yield ["bad"]
    yield from large(tier == "thorough")


def large(th):
    """Long score vectors, score matrices, large embeddings and many of them."""
    for act in ("sigmoid_then_log", "softplus"):
        for n in (4, 5, 8, 16, 31, 64, 100, 257, 512, 1025) + ((4096, 10007) if th else ()):
            for k, (a, b) in enumerate([(1.0, 1.0), (2.0, 0.5), (0.5, 1.0)]):
                for s in range(6 if th else 3):
                    W = V if s % 3 == 0 else V[2:6] if s % 3 == 1 else [i / 8 - 3 for i in range(50)]
                    ps = [W[(i * (2 * s + 3) + k + i // 7) % len(W)] for i in range(n)]
                    qs = [W[(i * (s + 2) + 5 * k + i // 11) % len(W)] for i in range(n)]
                    yield ["bpr", act, a, b, ps, qs]
    for p in (1, 2, 3, 4, 5, 6):
        for r, c in ((3, 3), (1, 16), (16, 1), (5, 7), (33, 8), (128, 64)) + (((1024, 32),) if th else ()):
            for m in (1, 2, 3):
                vs = [E[(i * m + i // c) % 5] / (1 if m < 3 else 4) for i in range(r * c)]
                yield ["reg", p, [[r, c, vs]]]
        for cnt in (4, 5, 6):
            yield ["reg", p, [[j % 3 + 1, (j * 2) % 5 + 1, [E[(i + j) % 5] for i in range((j % 3 + 1) * ((j * 2) % 5 + 1))]] for j in range(cnt)]]


def sp(x):
    return max(x, 0.0) + math.log1p(math.exp(-abs(x)))


def bpr(act, a, b, ps, qs, ctx):
    from dhg.nn import BPRLoss

    f = BPRLoss(a, b, act)
    n = len(ps)
    d = [a * p - b * q for p, q in zip(ps, qs)]
    exp = sum(sp(-x) for x in d) / n
    for shape in ((n,), (n, 1), (1, n)) + (((2, n // 2), (n // 4, 4)) if n >= 4 and n % 4 == 0 else ()):
        P = torch.tensor(ps).reshape(shape).requires_grad_(True)
        Q = torch.tensor(qs).reshape(shape).requires_grad_(True)
        got = f(P, Q)
        ctx.step()
        what = lambda: f"BPRLoss({a},{b},{act})(pos={ps}, neg={qs}, shape {shape})"
        ctx.check(got.dim() == 0 and close(float(got), exp, rtol=1e-4, atol=2e-6), f"bpr:{act}", lambda: f"{what()} = {float(got)}, expected {exp}")
        got.backward()
        s = [1 / (1 + math.exp(min(x, 700))) for x in d]  # -dloss/d(d) * n
        ctx.check(close(dense(P.grad).reshape(-1), [-a * x / n for x in s], rtol=1e-3, atol=1e-6) and close(dense(Q.grad).reshape(-1), [b * x / n for x in s], rtol=1e-3, atol=1e-6),
                  f"bpr:{act}:gradient", lambda: f"{what()}: gradients {P.grad.tolist()} {Q.grad.tolist()}, expected {[-a * x / n for x in s]}")
        ctx.check(torch.equal(P.detach().reshape(-1), torch.tensor(ps)) and torch.equal(Q.detach().reshape(-1), torch.tensor(qs)), "input-changed", what)
    if a == b and max(map(abs, list(ps) + list(qs))) <= 1000:
        g2 = float(f(torch.tensor(ps) + 7.0, torch.tensor(qs) + 7.0))
        ctx.check(close(g2, exp, rtol=1e-3, atol=1e-5), f"bpr:{act}:shift", lambda: f"{what()}: scores shifted by 7 give {g2}, expected {exp}")
    ctx.outcome(round(exp, 6))


def reg(p, embs, ctx):
    from dhg.nn import EmbeddingRegularization

    mats = [np.array(v, dtype=float).reshape(r, c) for r, c, v in embs]
    e = sum(float((np.abs(M) ** p).sum(1).mean()) / p for M in mats)
    for wd in (1e-4, 0.1, 0.0) if len(mats) < 2 else (0.1,):
        f = EmbeddingRegularization(p, wd)
        for order in itertools.permutations(range(len(mats))) if len(mats) < 5 else [tuple((i * k + j) % len(mats) for i in range(len(mats))) for j in range(len(mats)) for k in (1, len(mats) - 1)]:
            ts = [torch.tensor(mats[i], dtype=torch.float).requires_grad_(True) for i in order]
            got = f(*ts)
            ctx.step()
            ctx.check(close(float(got), wd * e, rtol=1e-4, atol=1e-7), f"reg:{p}", lambda: f"EmbeddingRegularization({p},{wd}) of {[mats[i].tolist() for i in order]} = {float(got)}, expected {wd * e}")
            if mats:
                got.backward()
                for i, t in zip(order, ts):
                    M = mats[i]
                    g = wd * np.sign(M) * np.abs(M) ** (p - 1) / M.shape[0]
                    g = np.where(M == 0, 0.0, g)
                    ctx.check(close(dense(t.grad), g, rtol=1e-4, atol=1e-7), f"reg:{p}:gradient", lambda: f"gradient of EmbeddingRegularization({p},{wd}) at {M.tolist()}: {t.grad.tolist()}, expected {g.tolist()}")
    if 0 < len(mats) < 4:  # one tensor given in several places counts in each of them
        ts = [torch.tensor(M, dtype=torch.float).requires_grad_(True) for M in mats]
        got = EmbeddingRegularization(p, 0.1)(*ts, ts[0], ts[-1], ts[0])
        x = sum(float((np.abs(M) ** p).sum(1).mean()) / p for M in (mats[0], mats[-1], mats[0]))
        ctx.check(close(float(got), 0.1 * (e + x), rtol=1e-4, atol=1e-7), f"reg:{p}:repeated", lambda: f"EmbeddingRegularization({p},0.1) of {[M.tolist() for M in mats]} and again the first, the last and the first: {float(got)}, expected {0.1 * (e + x)}")
    if p == 2:
        got = EmbeddingRegularization()(*[torch.tensor(M, dtype=torch.float) for M in mats])
        ctx.check(close(float(got), 1e-4 * e, rtol=1e-4, atol=1e-9), "reg:default", lambda: f"defaults: {float(got)}, expected {1e-4 * e}")
    ctx.outcome((p, round(e, 6)))


def run(case, ctx):
    if case[0] == "bad":
        from dhg.nn import BPRLoss

        for a in ("sigmoid", "", "log"):
            try:
                BPRLoss(activation=a)
            except (AssertionError, ValueError, NotImplementedError):
                continue
            ctx.fail("not-rejected", f"unknown activation {a!r} accepted")
        got = float(BPRLoss()(torch.tensor([2.0]), torch.tensor([0.5])))
        ctx.check(close(got, sp(-1.5)), "bpr:default", f"default loss {got}")
        from dhg.nn import EmbeddingRegularization

        for p, q in itertools.product(V, repeat=2):
            a, b = torch.tensor([p]), torch.tensor([q])
            ctx.check(float(BPRLoss()(a, b)) == float(BPRLoss(1.0, 1.0, "sigmoid_then_log")(a, b)), "bpr:default", f"default loss of {p}, {q}")
            e = torch.tensor([[p, q], [q, 2.0]])
            ctx.check(close(float(EmbeddingRegularization()(e)), float(EmbeddingRegularization(p=2, weight_decay=1e-4)(e)), rtol=1e-6), "reg:default", f"default regularisation of {e.tolist()}")
            ctx.step(2)
    elif case[0] == "bpr":
        bpr(*case[1:], ctx)
    else:
        reg(*case[1:], ctx)
    ctx.count(case[0])
    ctx.state(case)
    ctx.trace()
