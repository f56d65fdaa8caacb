"""Textbook definitions of the ranking and classification metrics, in plain Python."""
import math
from fractions import Fraction


def cutoff(n, k=None, ratio=None):
    if ratio is not None:
        return min(n, max(1, math.ceil(n * ratio - 1e-9)))
    return n if k is None else min(k, n)


def ranked(y, s):
    """relevances in the order of decreasing score (scores are distinct)."""
    return [y[i] for i in sorted(range(len(y)), key=lambda i: -s[i])]


def precision(y, s, k):
    return sum(ranked(y, s)[:k]) / k


def recall(y, s, k):
    return sum(ranked(y, s)[:k]) / sum(y) if sum(y) else 0.0


def _hits(y, s, k):
    return [p + 1 for p, r in enumerate(ranked(y, s)[:k]) if r > 0]


def _prec_at_hits(y, s, k, method):
    h = _hits(y, s, k)
    p = [(i + 1) / pos for i, pos in enumerate(h)]
    return [max(p[i:]) for i in range(len(p))] if method == "pascal_voc" else p


def ap(y, s, k, method="pascal_voc"):
    p = _prec_at_hits(y, s, k, method)
    return sum(p) / len(p) if p else 0.0


def rr(y, s, k):
    h = _hits(y, s, k)
    return 1 / h[0] if h else 0.0


def ndcg(y, s, k):
    dcg = lambda seq: sum(r / math.log2(i + 2) for i, r in enumerate(seq[:k]))
    ideal = dcg(sorted(y, reverse=True))
    return dcg(ranked(y, s)) / ideal if ideal > 0 else 0.0


def pr_curve(y, s, k, method="pascal_voc", n_points=11):
    p = _prec_at_hits(y, s, k, method)
    R = sum(1 for r in y if r > 0)
    rc = [Fraction(i, n_points - 1) for i in range(n_points)]
    out = []
    for r in rc:
        i = math.floor(r * (R - 1)) if R else 0
        out.append(p[i] if R and i < len(p) else 0.0)
    return out, [float(r) for r in rc]


def f1(y, p, average="macro"):
    labels = sorted(set(y) | set(p))
    per, sup = [], []
    for c in labels:
        tp = sum(a == c and b == c for a, b in zip(y, p))
        den = sum(a == c for a in y) + sum(b == c for b in p)
        per.append(2 * tp / den if den else 0.0)
        sup.append(sum(a == c for a in y))
    if average is None:
        return per
    if average == "micro":
        return sum(a == b for a, b in zip(y, p)) / len(y)
    if average == "macro":
        return sum(per) / len(per)
    if average == "weighted":
        return sum(a * b for a, b in zip(per, sup)) / sum(sup)
    if average == "binary":
        tp = sum(a == 1 and b == 1 for a, b in zip(y, p))
        den = y.count(1) + p.count(1)
        return 2 * tp / den if den else 0.0
    raise ValueError(average)


def confusion(y, p):
    labels = sorted(set(y) | set(p))
    return [[sum(a == c and b == d for a, b in zip(y, p)) for d in labels] for c in labels]
