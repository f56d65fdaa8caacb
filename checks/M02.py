"""Recommender metrics on every relevance matrix and every ranking."""
import itertools

import torch

from checks import M01

PID = "M02"
LEVEL = "model_checking"
CHUNK = 6
BOUNDS = {
    "quick": "every binary relevance vector x every ranking for 1-5 items (as one user, as one batch of all, and as every pair of 3-item users), every cut-off 1..n+1 and none, shares 1/10, 1/4, 1/3, 1/2, 3/4, 1; graded relevance over {0,1,2,3} for NDCG; three score value sets and label types; shares at nine places between whole numbers of items for lists of 3-257 items; fixed patterns on 7-130 items x 1-130 users",
    "thorough": "as quick with 6 items and graded relevance at n=4,5",
}
ASSUME = ["scores are distinct (doubles and integers also when they differ beyond single precision)", "cut-offs are at least 1, shares in (0,1]", "batched values are judged by value, whatever container holds them"]
METS = ("precision", "recall", "ndcg")


def cases(tier):
    for c in M01.cases(tier):
        if c[1] in METS:
            yield c
    for n in (2, 3, 4):
        for k, r in M01.cuts(n):
            for m in METS:
                yield ["single", m, n, [0, 1], k, r]


def run(case, ctx):
    M01.run(case, ctx, module="recommender")
