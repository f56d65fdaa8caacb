"""Random dropping: every outcome of the random source, with exact probabilities, plus sparse dropout."""
import itertools

import numpy as np

from mc import big, hist, rng, structs
from mc.cmp import dense, same

PID = "S10"
LEVEL = "model_checking"
CHUNK = {"quick": 6, "thorough": 4}
BOUNDS = {
    "quick": "all outcomes of the random source (grid of 4 uniform cells per draw, rates 0, 1/4, 1/2, 3/4, 1) for structures of all four classes with 0-4 (hyper)edges incl. loops, implicit loops, 2-3 groups and vertex weights, warm and cold; sparse dropout: all masks on all 2x2 sparsity patterns and 3x3 matrices with <=4 entries, 6 fill values, finite, infinite, double and integer entries; fixed structures of 11-14 vertices, structures of 5-41 loops / edges / hyperedges of one sort and of 5-9 groups, and sparse matrices with 13-36 entries under every outcome that differs in at most one draw from all-low, all-high and a mixed pattern; fixed structures of 72 and 140 vertices",
    "thorough": "as quick with 5-6 (hyper)edges at grid 4 and rates k/8 at grid 8 for <=4 edges",
}
ASSUME = ["uniform draws are explored at cell midpoints (the measure-zero boundary values 0.0 and rate itself are excluded)",
          "probabilities are exact on the grid; if the code draws from a source that is not intercepted only subset/unchanged conditions are judged"]

G = [
    (["Graph", 3, False], []), (["Graph", 3, True], []), (["Graph", 3, False], [["add", [0, 1], 2.0, "mean"]]),
    (["Graph", 3, True], [["add", [[0, 1], [1, 1]], [2.0, 3.0], "mean"]]), (["Graph", 3, False], [["add", [[1, 0], [2, 1], [0, 0], [2, 2]], [2.0, 0.5, 3.0, 4.0], "mean"]]),
    (["DiGraph", 3, False], [["add", [[0, 1], [1, 0], [1, 1]], [2.0, 0.5, 3.0], "mean"]]), (["DiGraph", 3, True], [["add", [[2, 1], [0, 2], [1, 2], [0, 0]], [2.0, 0.5, 3.0, 4.0], "mean"]]),
    (["DiGraph", 3, False], [["add", [[0, 1], [1, 2]], [2.0, 0.5], "mean"], ["rev"]]),
    (["BiGraph", 3, 2], [["add", [[0, 1], [2, 0], [1, 1]], [2.0, 0.5, 3.0], "mean"]]), (["BiGraph", 2, 3], [["add", [[0, 1], [1, 0], [1, 2], [0, 2]], [2.0, 0.5, 3.0, 1.0], "mean"]]),
    (["BiGraph", 2, 2], []),
]
H = [
    (["Hypergraph", 4, None], []), (["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]], [["add", [[0, 1], [1, 2, 3]], [2.0, 0.5], "mean", "main"]]),
    (["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]], [["add", [[0, 1], [3]], [2.0, 0.5], "mean", "main"], ["add", [[0, 1], [2, 3]], [3.0, 4.0], "mean", "a"]]),
    (["Hypergraph", 4, None], [["add", [[0, 1]], [2.0], "mean", "b"], ["add", [[1, 2]], [3.0], "mean", "a"], ["add", [[2, 3], [0, 1]], [4.0, 5.0], "mean", "c"]]),
    (["Hypergraph", 4, None], [["add", [[0, 1], [2]], [2.0, 3.0], "mean", "main"], ["remove", [[0, 1], [2]], None], ["add", [[3, 1]], [0.5], "mean", "a"]]),
]
BIG = [
    (["Graph", 4, True], [["add", [[0, 1], [1, 2], [2, 3], [0, 3], [1, 1], [3, 3]], [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], "mean"]]),
    (["DiGraph", 3, False], [["add", [[0, 1], [1, 0], [1, 2], [2, 0], [1, 1], [2, 2]], [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], "mean"]]),
    (["BiGraph", 3, 2], [["add", [[0, 0], [0, 1], [1, 0], [1, 1], [2, 0]], [1.0, 2.0, 3.0, 4.0, 5.0], "mean"]]),
    (["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]], [["add", [[0, 1], [1, 2], [3]], [1.0, 2.0, 3.0], "mean", "main"], ["add", [[0, 1], [2, 3]], [4.0, 5.0], "mean", "a"]]),
]


def cases(tier):
    rates = [0.0, 0.25, 0.5, 0.75, 1.0]
    for (init, ops), r, warm in itertools.product(G + H, rates, (0, 1)):
        yield ["drop", init, ops, r, None, warm, 4]
    for (init, ops), r, warm in itertools.product(H, rates, (0, 1)):
        for g in ("main", "a", "b", "c"):
            yield ["drop", init, ops, r, g, warm, 4]
    pos = [[i, j] for i in range(2) for j in range(2)]
    for sel in itertools.product((0, 1), repeat=4):
        for r in rates:
            for fill in (0.0, 1.0, -2.5):
                yield ["sparse", 2, [p for p, s in zip(pos, sel) if s], r, fill, 0]
    pos = [[i, j] for i in range(3) for j in range(3)]
    for sel in itertools.combinations(pos, 4 if tier == "thorough" else 3):
        for r in (0.25, 0.5):
            yield ["sparse", 3, [list(p) for p in sel], r, 0.0, 0]
            yield ["sparse", 3, [list(p) for p in sel] + [list(sel[0])], r, 7.0, 1]  # uncoalesced input
    for r in (0.0, 0.25, 0.5, 1.0):
        for fill in (0.0, 7.0, "inf", "-inf"):
            for kind in ("plain", "infinite", "double", "integer"):
                if kind != "integer" or not isinstance(fill, str):
                    yield ["sparse", 2, [[0, 0], [0, 1], [1, 1]], r, fill, 0, kind]
    if tier == "thorough":
        for (init, ops), r in itertools.product(BIG, rates):
            yield ["drop", init, ops, r, None, 1, 4]
            if init[0] == "Hypergraph":
                yield ["drop", init, ops, r, "main", 0, 4]
        for (init, ops), r in itertools.product(G + H, [k / 8 for k in (1, 3, 5, 7)]):
            yield ["drop", init, ops, r, None, 0, 8]
    for kind in ("Graph", "DiGraph", "BiGraph", "Hypergraph"):
        for n, sd in ((11, 1), (14, 2), (14, 3)) + (((24, 4), (24, 5), (40, 6)) if tier == "thorough" else ()):
            init, ops = big.base(kind, n, sd, 4)
            yield ["big", init, ops]
        for n, sd in ((72, 1), (140, 2)):
            init, ops = big.base(kind, n, sd, 2)
            yield ["big", init, ops]
    yield from many(tier == "thorough")
    for n in (7, 12) + ((20, 33) if tier == "thorough" else (20,)):
        yield ["bigsparse", n]


def many(th):
    """Many items of one sort: loops only, plain edges only, many groups, one long group, hyperedges of one size."""
    W = [0.5, 2.0, 3.0, 0.25, 7.0, 1.0, 1.5]
    w = lambda n: [W[i % 7] for i in range(n)]
    for kind in ("Graph", "DiGraph"):
        for n in (5, 9, 20) + ((45,) if th else ()):
            for extra in (False, True):
                loops = [[v, v] for v in range(n)]
                yield ["big", [kind, n, extra], [["add", loops, w(n), "mean"]]]
                yield ["big", [kind, n + 1, extra], [["add", [[0, 1]] + loops[::-1], w(n + 1), "mean"]]]
        for n in (12, 40) + ((90,) if th else ()):
            yield ["big", [kind, n + 1, False], [["add", [[0, i + 1] for i in range(n)], w(n), "mean"]]]
            yield ["big", [kind, n, True], [["add", [[i, (i + 1) % n] for i in range(n)], w(n), "mean"]]]
    for n in (12, 40) + ((90,) if th else ()):
        yield ["big", ["BiGraph", n, 2], [["add", [[i, i % 2] for i in range(n)], w(n), "mean"]]]
        yield ["big", ["BiGraph", 2, n], [["add", [[i % 2, i] for i in range(n)], w(n), "mean"]]]
    vw = lambda n: [W[(3 * i + 1) % 7] for i in range(n)]
    for n in (12, 40) + ((90,) if th else ()):
        for size in (1, 2, 5, 9):
            yield ["big", ["Hypergraph", n, vw(n)], [["add", [sorted({(i + j * j) % n for j in range(size)}) for i in range(n)], w(n), "mean", "main" if size % 2 else "a"]]]
    for g in (5, 9) + ((15,) if th else ()):
        yield ["big", ["Hypergraph", 6, vw(6)], [["add", [[k % 6, (k + 1) % 6], [k % 6, (k + 2) % 6, (k + 3) % 6]], [W[k % 7], W[(k + 1) % 7]], "mean", n] for k, n in enumerate("main,b,zeta,a,c,X,1,main2,Main,d,e,f,g,h,i".split(",")[:g])]]


def edge_items(m):
    """droppable items: (group, edge) -> weight"""
    if m.kind == "Hypergraph":
        return {(g, e): w for g, d in m.G.items() for e, w in d.items()}
    out = {("e", e): w for e, w in m.E.items()}
    if m.kind != "BiGraph":
        out.update({("loop", v): w for v, w in m.loops.items()})
    return out


def real_items(o, m):
    """(frozenset of kept items, problem or None) of the dropped structure"""
    items = edge_items(m)
    kept = []
    if m.kind == "Hypergraph":
        if [g for g in o.group_names if o.num_e_of_group(g)] != [g for g in m.G if g in o.group_names and o.num_e_of_group(g)]:
            return None, f"unknown or reordered groups {o.group_names}"
        if not same([float(x) for x in o.v_weight], m.vw):
            return None, f"vertex weights {o.v_weight}, expected {m.vw}"
        for g in o.group_names:
            for e, w in zip(*o.e_of_group(g)):
                k = (g, tuple(sorted(int(v) for v in e)))
                if k not in items or not same(float(w), items[k]):
                    return None, f"hyperedge {k} with weight {w} is not in the original"
                kept.append(k)
    else:
        el, wl = o.e
        el, wl = list(map(tuple, el)), list(wl)
        if getattr(m, "extra", False):
            exp = [((v, v), 1.0) for v in range(m.n)]
            for x in exp:
                for i in reversed(range(len(el))):
                    if el[i] == x[0] and float(wl[i]) == 1.0:
                        el.pop(i)
                        wl.pop(i)
                        break
                else:
                    return None, f"implicit self-loops lost: {o.e}"
        for e, w in zip(el, wl):
            e = (int(e[0]), int(e[1]))
            k = ("loop", e[0]) if e[0] == e[1] and m.kind != "BiGraph" else ("e", e if m.kind != "Graph" else tuple(sorted(e)))
            if k not in items or not same(float(w), items[k]):
                return None, f"edge {k} with weight {w} is not in the original"
            kept.append(k)
    if len(set(kept)) != len(kept):
        return None, f"duplicate edges {kept}"
    return frozenset(kept), None


def run(case, ctx):
    {"drop": run_drop, "sparse": run_sparse, "big": run_big, "bigsparse": run_bigsparse}[case[0]](case, ctx)


def run_big(case, ctx):
    """deviation-bounded outcomes of a larger structure: all draws low, all high, a mixed pattern, and every single other draw"""
    _, init, ops = case
    obj, m = big.build(init, ops)
    items = edge_items(m)
    before = structs.snapshot(obj, store_only=True)
    for group in [None] + (list(m.G) if m.kind == "Hypergraph" else []):
        droppable = [k for k in items if group is None or k[0] == group]
        for rate in (0.0, 0.5, 1.0):
            where = f"{init} {ops} rate={rate} group={group}"

            def once():
                o = obj.drop_edges(rate) if m.kind != "Hypergraph" else (obj.drop_hyperedges(rate) if group is None else obj.drop_hyperedges_of_group(group, rate))
                ctx.step()
                if type(o) is not type(obj) or o is obj:
                    return None, f"returned {type(o).__name__}"
                if (o.num_v, getattr(o, "num_u", 0)) != (obj.num_v, getattr(obj, "num_u", 0)):
                    return None, "vertex count changed"
                return real_items(o, m)

            seen, controlled = [], True
            for base in ("first", "last", 5):
                for devs, v in rng.deviate(once, base, grid=2, bound=1 if rate == 0.5 and group in (None, "main", "a") else 0):
                    if devs is None:
                        controlled = False
                        continue
                    kept, err = v
                    ctx.check(err is None, "drop-structure", lambda: f"{where}: {err}")
                    ctx.check(all(k in kept for k in items if k not in droppable), "drop-untargeted", lambda: f"{where}: items outside the target were dropped")
                    if rate in (0.0, 1.0):
                        ctx.check(len(kept) == (len(items) if rate == 0 else len(items) - len(droppable)), "drop-extreme-rate", lambda: f"{where}: kept {len(kept)} of {len(items)}")
                    ctx.trace()
                    seen.append(kept)
                    ctx.outcome((m.kind, tuple(sorted(map(str, kept)))))
            if controlled and rate == 0.5 and group in (None, "main", "a"):
                sig = {k: tuple(k in s for s in seen) for k in droppable}
                for k in droppable:
                    ctx.check(len(set(sig[k])) == 2, "drop-stuck", lambda: f"{where}: {k} is {'never' if sig[k][0] else 'always'} dropped")
                ctx.check(len(set(sig.values())) == len(droppable), "drop-coupled", lambda: f"{where}: edges are always dropped together: {[[k for k in droppable if sig[k] == x] for x in set(sig.values()) if list(sig.values()).count(x) > 1][:2]}")
            if controlled and rate == 0.5:
                rest = frozenset(k for k in items if k not in droppable)
                for all_of, name in ((frozenset(items), "every"), (rest, "no")):
                    ctx.check(all_of in seen, "drop-dependent", lambda: f"{where}: no outcome keeps {name} targeted edge, although each edge is kept independently")
        # the exact probability of each edge, when it hangs on a draw of its own
        for rate in (0.125, 0.625):
            where = f"{init} {ops} rate={rate} group={group}"

            def once():
                o = obj.drop_edges(rate) if m.kind != "Hypergraph" else (obj.drop_hyperedges(rate) if group is None else obj.drop_hyperedges_of_group(group, rate))
                ctx.step()
                return real_items(o, m)[0]

            for base in ("first", "last"):
                own_draw(rng.marginals(once, base, grid=8), droppable, lambda k, v: k in v, 1 - rate, where, "drop-probability", ctx)
    d = structs.snap_diff(before, structs.snapshot(obj, store_only=True))
    ctx.check(d is None, "drop-original-changed", lambda: f"{init} {ops}: view {d} of the original changed")
    ctx.count("big structures")
    ctx.state((m.key(), "big"))


def own_draw(rows, items, keeps, want, where, sig, ctx):
    """Each item that is decided by exactly one draw (which decides nothing else) is kept with probability want."""
    if rows is None:
        ctx.note("uncontrolled random source")
        return
    draw = {k: [] for k in items}
    for i, row in enumerate(rows):
        if any(v is None for _, v in row):
            return
        moved = [k for k in items if len({keeps(k, v) for _, v in row}) == 2]
        if len(moved) > 1:
            return
        for k in moved:
            draw[k].append(i)
    ctx.trace(len(rows))
    for k, ds in draw.items():
        if len(ds) == 1:
            p = sum(w for w, v in rows[ds[0]] if keeps(k, v))
            ctx.check(abs(p - want) < 1e-5, sig, lambda: f"{where}: {k} is kept with probability {p}, expected {want}")
    ctx.count("items decided by one draw", sum(len(d) == 1 for d in draw.values()))


def run_bigsparse(case, ctx):
    import torch
    from dhg.utils import sparse_dropout

    n = case[1]
    pos = [(i, j) for i in range(n) for j in range(n) if (i * 5 + j * 3) % 4 == 0]
    mat = torch.sparse_coo_tensor(torch.tensor(pos).t(), torch.arange(1.0, len(pos) + 1), (n, n)).coalesce()
    base = dense(mat)
    seen, controlled = [], True
    for b in ("first", "last", 5):
        for devs, M in rng.deviate(lambda: dense(sparse_dropout(mat, 0.5, -1.0)), b, grid=2, bound=1):
            if devs is None:
                controlled = False
                continue
            ctx.step()
            ctx.check(all(M[p] in (base[p], -1.0) for p in pos) and (M != 0).sum() == len(pos), "sparse-values", lambda: f"{n}x{n}: impossible result")
            seen.append([M[p] == -1.0 for p in pos])
            ctx.trace()
    if controlled:
        sig = list(zip(*seen))
        ctx.check(all(len(set(x)) == 2 for x in sig), "sparse-stuck", lambda: f"{n}x{n}: some entries are always or never dropped")
        ctx.check(len(set(sig)) == len(sig), "sparse-coupled", lambda: f"{n}x{n}: some entries are always dropped together")
        ctx.check(any(all(x) for x in seen) and any(not any(x) for x in seen), "sparse-dependent", lambda: f"{n}x{n}: the entries are not dropped independently")
    for rate in (0.125, 0.625):
        for b in ("first", "last"):
            own_draw(rng.marginals(lambda: dense(sparse_dropout(mat, rate, -1.0)), b, grid=8), pos, lambda p, M: M[p] != -1.0, 1 - rate, f"{n}x{n} p={rate}", "sparse-probability", ctx)
    ctx.state(("bigsparse", n))


def run_drop(case, ctx):
    _, init, ops, rate, group, warm, grid = case
    obj, m = structs.new(init)
    for op in ops:
        obj = structs.apply_real(obj, op)
        m.apply(op)
    if group is not None and group not in m.G:
        return
    before = structs.snapshot(obj, store_only=not warm)
    items = edge_items(m)
    droppable = [k for k in items if group is None or k[0] == group]
    where = f"{init} {ops} rate={rate} group={group}"

    def once():
        if m.kind != "Hypergraph":
            o = obj.drop_edges(rate)
        elif group is None:
            o = obj.drop_hyperedges(rate)
        else:
            o = obj.drop_hyperedges_of_group(group, rate)
        if type(o) is not type(obj) or o is obj:
            return ("bad", f"returned {type(o).__name__}, same object: {o is obj}")
        nv = (o.num_u, o.num_v) if m.kind == "BiGraph" else o.num_v
        if nv != ((m.nu, m.nv) if m.kind == "BiGraph" else m.n):
            return ("bad", f"vertex count changed to {nv}")
        kept, err = real_items(o, m)
        if err:
            return ("bad", err)
        last[0] = o
        return ("ok", kept)

    last = [None]
    r = rng.explore(once, grid=grid, budget=grid ** len(items) * 2 + 64)
    vals = r.dist()
    if r.uncontrolled:
        ctx.note("uncontrolled random source")
        vals = {v: 0 for v in rng.many_seeds(once, 40)}
    ctx.step(r.execs)
    ctx.trace(r.execs)
    ctx.count("drop executions", r.execs)
    for v in vals:
        ctx.check(v[0] == "ok", "drop-structure", lambda: f"{where}: {v[1]}")
        ctx.state((m.key(), group, rate, tuple(sorted(v[1]))))
        ctx.outcome((m.kind, tuple(sorted(v[1]))))
        lost = [k for k in items if k not in droppable and k not in v[1]]
        ctx.check(not lost, "drop-untargeted", lambda: f"{where}: items outside the target were dropped: {lost}")
        if rate in (0.0, 1.0):
            exp = frozenset(items) if rate == 0 else frozenset(k for k in items if k not in droppable)
            ctx.check(v[1] == exp, "drop-extreme-rate", lambda: f"{where}: kept {sorted(v[1])}, expected {sorted(exp)}")
    if not r.uncontrolled:
        ctx.check(r.truncated < 1e-9, "drop-mass", lambda: f"{where}: {r.truncated} of the outcomes need more than one draw per edge")
        for k in range(len(droppable) + 1):
            for sub in itertools.combinations(droppable, k):
                keep = frozenset(sub) | frozenset(x for x in items if x not in droppable)
                p = (1 - rate) ** k * rate ** (len(droppable) - k)
                got = vals.get(("ok", keep), 0.0)
                ctx.check(abs(got - p) < 1e-9, "drop-probability", lambda: f"{where}: keeping exactly {sorted(sub)} has probability {got}, expected {p}")
    d = structs.snap_diff(before, structs.snapshot(obj, store_only=not warm))
    ctx.check(d is None, "drop-original-changed", lambda: f"{where}: view {d} of the original changed")
    # views of one dropped structure, and independence of the original
    if last[0] is not None and not r.uncontrolled:
        o = last[0]
        kept = real_items(o, m)[0]
        m2 = m.copy()
        if m.kind == "Hypergraph":
            for g in list(m2.G):
                m2.G[g] = {e: w for e, w in m2.G[g].items() if (g, e) in kept}
                if g not in o.group_names:
                    del m2.G[g]
        else:
            m2.E = {e: w for e, w in m2.E.items() if ("e", e) in kept}
            if m.kind != "BiGraph":
                m2.loops = {v: w for v, w in m2.loops.items() if ("loop", v) in kept}
        hist.observe(o, m2, ctx, where + ": views of the dropped structure")
        o.clear()
        d = structs.snap_diff(before, structs.snapshot(obj, store_only=not warm))
        ctx.check(d is None, "drop-aliased", lambda: f"{where}: clearing the result changed view {d} of the original")


def run_sparse(case, ctx):
    import torch
    from dhg.utils import sparse_dropout

    _, n, pos, rate, fill, dup = case[:6]
    fill, kind = float(fill), case[6] if len(case) > 6 else "plain"
    vals = {"plain": [2.0 + i for i in range(len(pos))], "infinite": [float("inf"), 3.0, -float("inf")], "integer": [2 ** 24 + 1, 2, -5]}.get(kind)
    if kind == "double":
        vals = torch.tensor([0.1, 1.0 + 2.0 ** -40, -2.0 ** 60 - 2.0 ** 20], dtype=torch.float64)
    mat = torch.sparse_coo_tensor(torch.tensor(pos, dtype=torch.long).view(-1, 2).t(), torch.as_tensor(vals), (n, n))
    if not dup:
        mat = mat.coalesce()
    base = dense(mat).copy()
    nz = [tuple(p) for p in sorted(set(map(tuple, pos)))]
    where = f"{n}x{n} {kind} matrix {list(zip(pos, list(vals)))} p={rate} fill={fill}"

    def once():
        o = sparse_dropout(mat, rate, fill) if fill else sparse_dropout(mat, rate)
        if tuple(o.shape) != (n, n) or not o.is_sparse:
            return ("bad", f"shape {tuple(o.shape)}, sparse {o.is_sparse}")
        got = sorted(map(tuple, o.coalesce()._indices().t().tolist()))
        if got != nz:
            return ("bad", f"stored positions {got}, expected {nz}")
        M = dense(o)
        if np.isnan(M).any():
            return ("bad", f"entries {M.tolist()}")
        return ("ok", tuple((np.round(M, 4) if kind == "plain" else M).ravel()))

    r = rng.explore(once, grid=4, budget=4 ** len(nz) * 2 + 16)
    d = r.dist()
    if r.uncontrolled:
        ctx.note("uncontrolled random source")
        d = {v: 0 for v in rng.many_seeds(once, 40)}
    ctx.step(r.execs)
    ctx.trace(r.execs)
    ctx.count("sparse_dropout executions", r.execs)
    exp = {}
    for mask in itertools.product((0, 1), repeat=len(nz)):
        M = np.zeros((n, n))
        for (i, j), k in zip(nz, mask):
            M[i, j] = base[i, j] if k else fill
        p = (1 - rate) ** sum(mask) * rate ** (len(nz) - sum(mask))
        if p > 0:
            key = tuple((np.round(M, 4) if kind == "plain" else M).ravel())
            exp[key] = exp.get(key, 0) + p
    for v in d:
        ctx.check(v[0] == "ok", "sparse-structure", lambda: f"{where}: {v[1]}")
        ctx.state((n, tuple(map(tuple, pos)), rate, fill, v[1]))
        ctx.outcome(v[1])
        ctx.check(v[1] in exp, "sparse-values", lambda: f"{where}: impossible result {v[1]}")
    if not r.uncontrolled:
        for k, p in exp.items():
            ctx.check(abs(d.get(("ok", k), 0) - p) < 1e-6, "sparse-probability", lambda: f"{where}: result {k} has probability {d.get(('ok', k), 0)}, expected {p}")
    ctx.check(same(dense(mat), base), "sparse-input-changed", where)
