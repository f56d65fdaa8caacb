"""Canonicalisation and comparison of observations (numpy float64 / python lists)."""
import numpy as np
import torch

RTOL, ATOL = 1e-4, 1e-5


def dense(t):
    if isinstance(t, torch.Tensor):
        if t.layout != torch.strided:
            t = t.to_dense()
        return t.detach().cpu().double().numpy()
    return np.asarray(t, dtype=float)


def close(a, b, rtol=RTOL, atol=ATOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False)) if a.size else True


class Wt(float):
    """a stored weight: compared relatively, without absolute slack (a weight of 1e-9 is not 0)"""


def same(got, exp):
    """Structural comparison: arrays by value with tolerance, everything else by equality."""
    if isinstance(exp, np.ndarray) or isinstance(got, np.ndarray):
        try:
            top = float(np.max(np.abs(np.asarray(exp, dtype=float)), initial=0.0))
            # an array of uniformly small values is judged at its own scale (1e-6 is not 0)
            return close(got, exp, atol=RTOL * top if 1e-9 < top < 1e-3 else ATOL)
        except (ValueError, TypeError):
            return False
    if isinstance(exp, Wt):
        return isinstance(got, (int, float)) and abs(got - exp) <= 1e-5 * abs(exp)
    if isinstance(exp, float) or isinstance(got, float):
        return isinstance(got, (int, float)) and abs(got - exp) <= ATOL + RTOL * abs(exp)
    if isinstance(exp, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(exp) and all(same(g, e) for g, e in zip(got, exp))
    if isinstance(exp, dict):
        return isinstance(got, dict) and list(sorted(map(str, got))) == list(sorted(map(str, exp))) and all(same(got[k], exp[k]) for k in exp)
    return got == exp


def show(x):
    if isinstance(x, np.ndarray):
        return np.array2string(x, precision=5, threshold=200).replace("\n", "")
    return repr(x)
