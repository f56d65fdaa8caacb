"""Dense definitions of message passing."""
import itertools

import numpy as np

from .cmp import dense


def aggregate(P, mask, X, aggr, deg=None):
    """P: dense path weights (receiver x sender), mask: which paths exist; deg: divisor of "mean" (default: row sums of P)"""
    X = np.asarray(X, dtype=float)
    if aggr == "sum":
        return P @ X
    if aggr == "mean":
        d = P.sum(1) if deg is None else np.asarray(deg, dtype=float)
        inv = np.array([1 / x if x != 0 else 0.0 for x in d])
        return inv[:, None] * (P @ X)
    out = np.zeros((P.shape[0], X.shape[1]))
    for i in range(P.shape[0]):
        js = np.nonzero(mask[i])[0]
        if len(js):
            e = np.exp(P[i, js] - P[i, js].max())
            out[i] = (e / e.sum()) @ X[js]
    return out


def drop_check(ctx, sig, where, call, P, idx, aggr, rate, X=None, post=None, deg=None, budget=600):
    """Every outcome of `call()` (an aggregation of X over the paths `idx` of P in which each path is dropped with probability
    `rate`) with its probability.  Whether the mean divides by the remaining or by the full degree, and whether a dropped path
    stays in the softmax with logit 0, is left open: either reading is accepted, but one of them must fit all outcomes."""
    from . import rng

    n = len(idx)
    X = np.eye(P.shape[1]) if X is None else np.asarray(X, dtype=float)
    rd = lambda a: tuple(round(float(x), 3) + 0.0 for x in np.asarray(a, dtype=float).reshape(-1))
    readings = []
    full = P.sum(1) if deg is None else deg
    for variant in (0, 1) if aggr != "sum" else (0,):
        exp = {}
        for keep in itertools.product((0, 1), repeat=n):
            Q, M = np.zeros_like(P), np.zeros(P.shape, dtype=bool)
            for (a, b), k in zip(idx, keep):
                Q[a, b] = P[a, b] * k
                M[a, b] = bool(k) or variant == 1
            Y = aggregate(Q, M, X, aggr, deg=full if variant == 1 else None)
            v = rd(Y if post is None else post(Y))
            exp[v] = exp.get(v, 0) + (1 - rate) ** sum(keep) * rate ** (n - sum(keep))
        readings.append(exp)
    r = rng.explore(lambda: rd(dense(call())), grid=4, budget=budget)
    ctx.step(r.execs)
    ctx.count("drop-masks", r.execs)
    got = {v for _, v in r.leaves}
    fit = [e for e in readings if got <= set(e)]
    ctx.check(fit, f"{sig}:drop", lambda: f"{where}: rate {rate}: outcome {sorted(got - set(readings[0]))[:2]} keeps no subset of the paths")
    if not r.uncontrolled:
        d = r.dist()
        ctx.check(any(all(abs(p - e[v]) <= r.truncated + 1e-4 for v, p in d.items()) for e in fit), f"{sig}:drop-probability", lambda: f"{where}: rate {rate}: outcomes {dict(list(d.items())[:4])}, expected {[fit[0][v] for v in list(d)[:4]]}")


def grads(call, wname, X, w, aggr, S, idx, c, deg=None):
    """gradients of sum(c * result) by the code and by dense autograd in double precision"""
    import torch

    x1, x2 = X.clone().requires_grad_(True), X.double().clone().requires_grad_(True)
    P = torch.zeros(S.shape, dtype=torch.double)
    r, s = torch.tensor([i[0] for i in idx]), torch.tensor([i[1] for i in idx])
    if w is None:
        w1 = w2 = None
        P = torch.tensor(S, dtype=torch.double)
        out = call(x1)
    else:
        w1, w2 = torch.tensor(w).requires_grad_(True), torch.tensor(w, dtype=torch.double).requires_grad_(True)
        P = P.index_put((r, s), w2)
        out = call(x1, **{wname: w1})
    mask = torch.tensor(S != 0)
    some = mask.any(1, keepdim=True)
    if aggr == "mean":
        d = P.sum(1, keepdim=True) if deg is None else torch.tensor(deg, dtype=torch.double).reshape(-1, 1)
        ref = P @ x2 / torch.where(d != 0, d, torch.ones(1, dtype=torch.double)) * (d != 0)
    elif aggr == "sum":
        ref = P @ x2
    else:
        ref = torch.where(some, torch.softmax(P.masked_fill(~mask & some, -float("inf")), 1), torch.zeros(1, dtype=torch.double)) @ x2
    (out * c).sum().backward()
    (ref * c.double()).sum().backward()
    z = lambda t, g: torch.zeros_like(t) if g is None else g
    return ([x1.grad] + ([w1.grad] if w is not None else []), [z(x2, x2.grad)] + ([z(w2, w2.grad)] if w is not None else []))
