"""User-item splits and the user-item dataset under every outcome of the random source."""
import itertools
import math

import torch

from mc import rng, structs
from mc.big import Lcg

PID = "U02"
LEVEL = "model_checking"
CHUNK = 6
BOUNDS = {
    "quick": "every bipartite graph on 2x3, 3x2, 1x4 (in two insertion orders, weighted, freshly built or after reads and edits): split by number 0-4 and by share 0,1/4,1/2,3/4,1 under every shuffle outcome; dataset in training mode (every index, every outcome of the negative sampler up to mass 1e-4; free triplets), in test mode for every pair of training/held-out item sets on 2x3 (every index), every per-user list order; 3-110 users x 9-200 items under base outcomes and single deviations",
    "thorough": "as quick plus 2x4 and 3x3 graphs",
}
ASSUME = ["free triplet sampling: every user has an item and lacks one", "share x number of items is taken as floor"]


def cases(tier):
    for nu, nv in [(1, 4), (2, 3), (3, 2)] + ([(2, 4), (3, 3)] if tier == "thorough" else []):
        cells = list(itertools.product(range(nu), range(nv)))
        for k in range(len(cells) + 1):
            for es in itertools.combinations(cells, k):
                yield ["split", nu, nv, [list(e) for e in es]]
                yield ["train", nu, nv, [list(e) for e in es]]
    for nu, nv in [(2, 2), (2, 3)]:
        cells = list(itertools.product(range(nu), range(nv)))
        for lab in itertools.product("-tv", repeat=len(cells)):
            yield ["test", nu, nv, [list(c) for c, x in zip(cells, lab) if x == "t"], [list(c) for c, x in zip(cells, lab) if x == "v"]]
    # both lists naming the same interaction
    yield ["test", 2, 3, [[0, 0], [0, 1], [1, 2]], [[0, 1], [1, 2], [1, 0]]]
    yield ["big"]
    for nu, nv, d in ((12, 40, 5), (40, 12, 6), (25, 130, 40), (70, 70, 3), (3, 200, 195), (110, 9, 8)):
        for s in range(4 if tier == "thorough" else 2):
            yield ["large", nu, nv, d, s]


def split(nu, nv, es, ctx):
    from dhg.utils import split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph

    for variant in ("fresh", "edited"):
        obj, m = structs.new(["BiGraph", nu, nv])
        ops = [["add", es[::-1] if variant == "edited" else es, [1.0 + i for i in range(len(es))], "mean"]] if es else []
        if variant == "edited":
            ops = [["add", [[0, 0], [nu - 1, nv - 1]], [9.0, 9.0], "mean"]] + ops
            rm = [e for e in ([0, 0], [nu - 1, nv - 1]) if e not in es]
            if rm:
                ops.append(["remove", rm if len(rm) < 2 or rm[0] != rm[1] else rm[:1]])
        for op in ops:
            obj = structs.apply_real(obj, op)
            m.apply(op)
            if variant == "edited":
                [obj.nbr_v(u) for u in range(nu)]
        items = {u: sorted(v for a, v in es if a == u) for u in range(nu)}
        base = structs.snapshot(obj)
        progs = [("num", split_by_num_for_UI_bigraph, k) for k in range(0, min(nv, 3) + 2)] + [("ratio", split_by_ratio_for_UI_bigraph, r) for r in (0.0, 0.25, 0.5, 0.75, 1.0)]
        if variant == "edited":
            progs = progs[1::3]
        for kind, f, p in progs:
            where = f"split_by_{kind}_for_UI_bigraph({p}) of {items} ({variant})"

            def once():
                a, b = f(obj, p)
                return tuple(tuple(int(x) for x in l) for l in a), tuple(tuple(int(x) for x in l) for l in b)

            r = rng.explore(once, grid=4, budget=700)
            leaves = r.leaves if not r.uncontrolled else [(0, v) for v in rng.many_seeds(once, 100)]
            ctx.step(r.execs)
            for _, (tr, te) in leaves:
                for name, l in (("training", tr), ("test", te)):
                    us = [x[0] for x in l if x]
                    ctx.check(len(us) == len(l) and us == sorted(set(us)), "lines", lambda: f"{where}: {name} lines {l}")
                for u in range(nu):
                    a = [list(x[1:]) for x in tr if x[0] == u]
                    b = [list(x[1:]) for x in te if x[0] == u]
                    a, b = (a or [[]])[0], (b or [[]])[0]
                    ctx.check(sorted(a + b) == items[u], "partition", lambda: f"{where}: user {u} gets training {a} and test {b}")
                    c = len(items[u])
                    k = min(p, c) if kind == "num" else math.floor(c * p + 1e-9)
                    ctx.check(len(a) == k, "sizes", lambda: f"{where}: user {u} has {len(a)} training items, expected {k}")
                    ctx.state((str(es), kind, p, tr, te))
            for u in range(nu):
                c = len(items[u])
                k = min(p, c) if kind == "num" else math.floor(c * p + 1e-9)
                for v in items[u]:
                    if r.uncontrolled:
                        continue
                    hit = sum(q for q, (tr, te) in leaves if any(x[0] == u and v in x[1:] for x in tr))
                    ctx.check(abs(hit - k / c) <= r.truncated + 1e-6, "probability", lambda: f"{where}: item {v} of user {u} is in training with probability {hit}, expected {k / c}")
            ctx.count("split " + kind)
        ctx.check(structs.snap_diff(base, structs.snapshot(obj)) is None, "structure-changed", lambda: f"splitting {items} ({variant}): {structs.snap_diff(base, structs.snapshot(obj))}")
    ctx.outcome(str((nu, nv, es)))


def train(nu, nv, es, ctx):
    from dhg.utils import UserItemDataset

    items = {u: [v for a, v in es if a == u] for u in range(nu)}
    for order in (es, es[::-1]):
        lst = [tuple(e) for e in order]
        for strict in (True, False):
            if not strict and any(not 0 < len(x) < nv for x in items.values()):
                continue
            ds = UserItemDataset(nu, nv, lst, strict_link=strict) if strict else UserItemDataset(nu, nv, lst, strict_link=False, phase="train")
            ctx.check(len(ds) == len(lst), "length", f"{lst}: {len(ds)}")
            for idx in range(len(lst)) if strict else range(min(1, len(lst))):
                u0, v0 = lst[idx]
                if strict and len(items[u0]) == nv:
                    continue
                where = f"item {idx} of the training set {lst} ({nu}x{nv}, strict={strict})"
                once = lambda: tuple(int(x) for x in ds[idx])
                r = rng.explore(once, grid=4, budget=400, min_mass=1e-4)
                leaves = r.leaves if not r.uncontrolled else [(0, v) for v in rng.many_seeds(once, 100)]
                ctx.step(r.execs)
                for _, (u, p, q) in leaves:
                    ctx.check(not strict or (u, p) == (u0, v0), "interaction", lambda: f"{where} is {(u, p, q)}")
                    ctx.check(0 <= u < nu and p in items[u], "positive", lambda: f"{where} is {(u, p, q)}: {p} is not an item of user {u}")
                    ctx.check(0 <= q < nv and q not in items[u], "negative", lambda: f"{where} is {(u, p, q)}: {q} is an item of user {u} (or out of range)")
                    ctx.state((str(lst), idx, strict, u, p, q))
                if not r.uncontrolled:
                    d = r.dist()
                    tr = r.truncated + 1e-6
                    for u in [u0] if strict else range(nu):
                        for p in [v0] if strict else items[u]:
                            negs = [q for q in range(nv) if q not in items[u]]
                            pr = (1 if strict else 1 / nu / len(items[u])) / len(negs)
                            for q in negs:
                                got = d.get((u, p, q), 0.0)
                                ctx.check(got - tr <= pr <= got + tr, "probability", lambda: f"{where}: {(u, p, q)} has probability {got} (+{tr:.2g}), expected {pr}")
            ctx.check(lst == [tuple(e) for e in order], "list-changed", f"{order} became {lst}")
            ctx.count("dataset train")
    ctx.outcome(str(("train", nu, nv, es)))


def test(nu, nv, tr, te, ctx):
    from dhg.utils import UserItemDataset

    for a, b in ((tr, te), (tr[::-1], te[::-1])):
        ds = UserItemDataset(nu, nv, [tuple(x) for x in b], train_user_item_list=[tuple(x) for x in a], phase="test")
        ctx.check(len(ds) == nu, "length", f"test set over {nu} users has {len(ds)} entries")
        where = f"test set of {nu}x{nv}, training {a}, held out {b}"
        for rep in range(2):
            for i in list(range(nu))[:: 1 if rep == 0 else -1]:
                idx, mask, true = ds[i]
                em = [float("-inf") if [i, v] in tr else 0.0 for v in range(nv)]
                et = [1.0 if [i, v] in te else 0.0 for v in range(nv)]
                ctx.step()
                ctx.check(int(idx) == i and torch.as_tensor(mask).tolist() == em and torch.as_tensor(true).tolist() == et, "test-item",
                          lambda: f"{where}: entry {i} is {idx}, {mask.tolist()}, {true.tolist()}, expected {em}, {et}")
                ctx.state((str(tr), str(te), i, tuple(em), tuple(et)))
        ctx.count("dataset test")
    ctx.outcome(str(("test", tr, te)))


def big(ctx):
    from dhg.utils import UserItemDataset

    try:
        UserItemDataset(2, 2, [(0, 0)], phase="test")
    except AssertionError:
        pass
    else:
        ctx.fail("not-rejected", "test phase without training list accepted")
    try:
        UserItemDataset(2, 2, [(0, 0)], [(0, 0)], phase="validate")
    except AssertionError:
        pass
    else:
        ctx.fail("not-rejected", "unknown phase accepted")
    lst = [(u, v) for u in range(6) for v in range(9) if (u * 7 + v * 3) % 4 == 0]
    ds = UserItemDataset(6, 9, lst)

    def epoch():
        out = []
        for batch in torch.utils.data.DataLoader(ds, batch_size=4, shuffle=True):
            out += list(zip(*[[int(x) for x in t] for t in batch]))
        return tuple(out)

    for v in rng.many_seeds(epoch, 20):
        ctx.step()
        ctx.check(sorted((u, p) for u, p, _ in v) == sorted(lst), "epoch", f"an epoch of the loader yields {v}")
        ctx.check(all((u, q) not in lst and 0 <= q < 9 for u, _, q in v), "negative", f"{v}")
    ctx.state("big")


def large(nu, nv, d, s, ctx):
    """long item lists and many users: splits and the dataset under fixed base outcomes and single deviations"""
    import dhg
    from dhg.utils import UserItemDataset, split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph

    r = Lcg(nu * 1000 + nv + s)
    es = []
    for u in range(nu):
        vs = {r(nv) for _ in range(d if u % 5 else 1 + d // 3)}
        if len(vs) == nv:
            vs.pop()
        es += [(u, v) for v in vs]
    for i in range(len(es) - 1, 0, -1):
        j = r(i + 1)
        es[i], es[j] = es[j], es[i]
    items = {u: sorted(v for a, v in es if a == u) for u in range(nu)}
    sets = {u: set(x) for u, x in items.items()}
    g = dhg.BiGraph(nu, nv, es)

    def devs(once, bound):
        for base in ("first", "last", 3, 1009):
            for dv, v in rng.deviate(once, base=base, grid=nv, bound=bound if base == 1009 else 0, max_points=60000, stride=97):
                if dv is None:
                    return rng.many_seeds(once, 3)
                if v is not None:
                    yield v

    for kind, f, p in [("num", split_by_num_for_UI_bigraph, k) for k in (1, 2, 10, d - 1, nv)] + [("ratio", split_by_ratio_for_UI_bigraph, x) for x in (0.1, 0.5, 0.8, 0.9)]:
        where = f"split_by_{kind}_for_UI_bigraph({p}) with {nu} users and {nv} items, about {d} items per user"

        def once():
            a, b = f(g, p)
            return tuple(tuple(int(x) for x in l) for l in a), tuple(tuple(int(x) for x in l) for l in b)

        for tr, te in devs(once, 0):
            ctx.step()
            A, B = {l[0]: l[1:] for l in tr if l}, {l[0]: l[1:] for l in te if l}
            for l in (tr, te):
                us = [x[0] for x in l if x]
                ctx.check(us == sorted(set(us)), "lines", lambda: f"{where}: users {us}")
            for u in range(nu):
                a, b = list(A.get(u, ())), list(B.get(u, ()))
                ctx.check(sorted(a + b) == items[u], "partition", lambda: f"{where}: user {u} with items {items[u]} gets training {a} and test {b}")
                c = len(items[u])
                k = min(p, c) if kind == "num" else math.floor(c * p + 1e-9)
                ctx.check(len(a) == k, "sizes", lambda: f"{where}: user {u} has {len(a)} of {c} items in training, expected {k}")
            ctx.state((nu, nv, s, kind, p, tr))
    for strict in (True, False):
        ds = UserItemDataset(nu, nv, list(es), strict_link=strict)
        idxs = sorted({0, 1, len(es) // 2, len(es) - 1} | {r(len(es)) for _ in range(12)})

        def once():
            return tuple(tuple(int(x) for x in ds[i]) for i in idxs)

        for v in devs(once, 1):
            ctx.step()
            for i, (u, p, q) in zip(idxs, v):
                ctx.check(not strict or (u, p) == es[i], "interaction", lambda: f"item {i} of {nu}x{nv} is {(u, p, q)}, interaction {es[i]}")
                ctx.check(p in sets[u] and 0 <= q < nv and q not in sets[u], "negative", lambda: f"item {i} of the {nu}x{nv} training set (strict={strict}) is {(u, p, q)}; items of user {u}: {items[u]}")
            ctx.state((nu, nv, s, strict, v))
    held = [(u, v) for u in range(nu) for v in range(nv) if v not in sets[u] and (u + v) % 7 == 0]
    for l in (held, held[::-1]):
        ds = UserItemDataset(nu, nv, l, train_user_item_list=list(es), phase="test")
        hs = set(l)
        ctx.check(len(ds) == nu, "length", f"{len(ds)} test entries for {nu} users")
        for u in list(range(nu)) + [0, nu - 1]:
            i, mask, true = ds[u]
            em = [float("-inf") if v in sets[u] else 0.0 for v in range(nv)]
            et = [1.0 if (u, v) in hs else 0.0 for v in range(nv)]
            ctx.step()
            ctx.check(int(i) == u and torch.as_tensor(mask).tolist() == em and torch.as_tensor(true).tolist() == et, "test-item", lambda: f"test entry {u} of {nu}x{nv}: {i}, {mask.tolist()}, {true.tolist()}")
    ctx.count("large")


def run(case, ctx):
    {"split": split, "train": train, "test": test, "big": big, "large": large}[case[0]](*case[1:], ctx)
    ctx.trace()
