"""Sub-hypergraph: exact restriction, over all small grouped hypergraphs, all selections, both singleton policies."""
import itertools

from mc import big, hist, structs
from mc.cmp import same, dense
import numpy as np

PID = "S09"
LEVEL = "model_checking"
CHUNK = {"quick": 60, "thorough": 150}
BOUNDS = {
    "quick": "every set of <=2 hyperedges on 4 vertices in every split over 2 groups and every set of 3 hyperedges in 2 splits, weighted hyperedges and vertices, each with all 15 selections x both singleton policies x selection given as list / reversed list with duplicates / set; rejected selections; selections before and after edits and reads of the original; nested selections; 18 fixed hypergraphs of 11-24 vertices with 13 selections each; fixed hypergraphs of 72 and 140 vertices",
    "thorough": "quick + every set of 3 hyperedges in every split over 3 groups, every set of 4 hyperedges in 2 splits, every set of 2 hyperedges on 5 vertices",
}
ASSUME = ["positive weights", "when several hyperedges of a group have the same restriction only presence is required, with a weight between the smallest and the sum of theirs"]
W = [2.0, 0.5, 3.0, 4.0]
VW = [1.0, 2.0, 0.5, 3.0, 5.0]


def cases(tier):
    sets = [list(s) for k in range(1, 5) for s in itertools.combinations(range(4), k)]
    yield [4, [], [], 0]
    for k in (1, 2, 3, 4):
        if k == 4 and tier == "quick":
            continue
        for es in itertools.combinations(sets, k):
            splits = list(itertools.product("ab", repeat=k)) if k < 3 else [("a",) * k, ("a", "b", "a", "b")[:k]]
            if k == 3 and tier == "thorough":
                splits = list(itertools.product("abc", repeat=k))
            for sp in splits:
                if k < 4 or es[0] == [0]:
                    yield [4, [list(e) for e in es], list(sp), 0]
                elif tier == "thorough" and sp[1] == "b":
                    yield [4, [list(e) for e in es], list(sp), 0]
    # same hyperedge in two groups; edits and reads around the selection
    for es in itertools.combinations(sets, 2):
        yield [4, [es[0], es[1], es[0]], ["a", "a", "b"], 1]
    if tier == "thorough":
        sets5 = [list(s) for k in range(1, 6) for s in itertools.combinations(range(5), k)]
        for es in itertools.combinations(sets5, 2):
            yield [5, [list(e) for e in es], ["a", "a"], 1]
            yield [5, [list(e) for e in es], ["b", "a"], 0]
    for n in (11, 14, 24) + ((40,) if tier == "thorough" else ()):
        for s in range(6 if tier == "quick" else 24):
            yield ["big", n, s]
    for n in (72, 140):
        yield ["big", n, n % 5]


def restrict(m, sel, keep1):
    """group -> restricted edge -> list of contributing weights"""
    pos = {v: i for i, v in enumerate(sel)}
    out = {}
    for g, d in m.G.items():
        r = {}
        for e, w in d.items():
            sub = tuple(pos[v] for v in e if v in pos)
            if len(sub) >= (1 if keep1 else 2):
                r.setdefault(sub, []).append(w)
        out[g] = r
    return out


def check_sub(sub, m, sel, keep1, where, ctx, full):
    exp = restrict(m, sel, keep1)
    ctx.check(type(sub).__name__ == "Hypergraph" and sub.num_v == len(sel), "num_v", lambda: f"{where}: num_v {sub.num_v}, expected {len(sel)}")
    ctx.check(list(sub.v) == list(range(len(sel))), "v", lambda: f"{where}: v {sub.v}")
    vw = [m.vw[v] for v in sel]
    ctx.check(same([float(x) for x in sub.v_weight], vw), "v_weight", lambda: f"{where}: v_weight {sub.v_weight}, expected {vw}")
    names = [g for g in sub.group_names if sub.num_e_of_group(g)]
    ctx.check(names == [g for g in exp if exp[g]], "groups", lambda: f"{where}: groups with hyperedges {names}, expected {[g for g in exp if exp[g]]}")
    n = 0
    for g in names:
        el, wl = sub.e_of_group(g)
        got = {tuple(sorted(int(v) for v in e)): float(w) for e, w in zip(el, wl)}
        ctx.check(len(el) == len(wl) == len(got) and set(got) == set(exp[g]), "edges",
                  lambda: f"{where}: group {g} has hyperedges {el}, expected {sorted(exp[g])}")
        n += len(got)
        for e, ws in exp[g].items():
            lo, hi = min(ws) - 1e-6, (ws[0] if len(ws) == 1 else sum(ws)) + 1e-6
            ctx.check(lo <= got[e] <= hi, "weight", lambda: f"{where}: group {g} hyperedge {e} has weight {got[e]}, contributors {ws}")
    ctx.check(sub.num_e == n, "num_e", lambda: f"{where}: num_e {sub.num_e}, expected {n}")
    if full:
        m2 = structs.HyperM(len(sel), vw)
        for g in sub.group_names:
            m2.G[g] = {tuple(sorted(int(v) for v in e)): float(w) for e, w in zip(*sub.e_of_group(g))}
        hist.observe(sub, m2, ctx, where + ": views of the selection")


def run_big(case, ctx):
    _, n, s = case
    init, ops = big.base("Hypergraph", n, s, 8)
    obj, m = big.build(init, ops)
    if s % 2:
        structs.snapshot(obj)
    r = big.Lcg(s + 5)
    base = structs.snapshot(obj, store_only=True)
    sels = [list(range(n)), list(range(9, n)), list(range(0, n, 2)), list(range(n - 1)), [n - 1, 0], [10], [2, 10, 9]]
    for _ in range(6):
        sels.append([v for v in range(n) if r(3)] or [0])
    for sel in sels:
        for keep1 in (True, False):
            for arg in (sel, sel[::-1] + sel[:2]):
                where = f"{init} {ops}: selection {arg}, keep_edges_with_only_one_nodes={keep1}"
                sub = obj.subgraph(arg, keep1)
                check_sub(sub, m, sorted(sel), keep1, where, ctx, full=len(sel) < 15)
                ctx.step()
                ctx.trace()
        ctx.state((n, s, tuple(sel)))
    ctx.count("big selections", len(sels))
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "original-changed", lambda: f"subgraph changed the original {ops}")
    hist.observe(obj, m, ctx, f"{init} {ops}: the original after the selections")


def run(case, ctx):
    if case[0] == "big":
        return run_big(case, ctx)
    n, es, sp, variant = case
    obj, m = structs.new(["Hypergraph", n, VW[:n]])
    for i, (e, g) in enumerate(zip(es, sp)):
        op = ["add", [list(reversed(e))], [W[i % 4]], "mean", g]
        obj = structs.apply_real(obj, op)
        m.apply(op)
    ctx.step(len(es))
    base = structs.snapshot(obj, store_only=True)
    if variant:
        structs.snapshot(obj)
    for bad in ([], [n], [0, n], [-1, 0], set()):
        try:
            obj.subgraph(bad)
        except structs.REJECTED:
            ctx.count("rejected")
            continue
        ctx.fail("not-rejected", f"selection {bad} of a hypergraph with {n} vertices was accepted")
    subsets = [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    for si, sel in enumerate(subsets):
        for keep1 in (True, False):
            for form in (0, 1, 2):
                arg = sel if form == 0 else (list(reversed(sel)) + sel[:1] if form == 1 else set(sel))
                where = f"hyperedges {es} in groups {sp}, selection {arg}, keep_edges_with_only_one_nodes={keep1}"
                if form == 0 and keep1:
                    sub = obj.subgraph(arg)
                elif form == 0:
                    sub = obj.subgraph(arg, False)
                else:
                    sub = obj.subgraph(arg, keep_edges_with_only_one_nodes=keep1)
                ctx.step()
                ctx.count(f"subgraph(keep1={keep1})")
                check_sub(sub, m, sel, keep1, where, ctx, full=(form == 0 and (si + len(es)) % 5 == 0))
                if form == 0:
                    ctx.state((n, tuple(map(tuple, es)), tuple(sp), tuple(sel), keep1))
                    ctx.outcome((len(sel), tuple(sorted((g, tuple(sorted(d))) for g, d in restrict(m, sel, keep1).items()))))
                if variant and form == 2 and len(sel) > 1:
                    # nested selection, then the selection of an edited original
                    m2 = structs.HyperM(len(sel), [m.vw[v] for v in sel])
                    for g in sub.group_names:
                        m2.G[g] = {tuple(sorted(int(v) for v in e)): float(w) for e, w in zip(*sub.e_of_group(g))}
                    s2 = list(range(1, len(sel)))
                    check_sub(sub.subgraph(s2), m2, s2, True, where + " nested", ctx, full=False)
                    ctx.step()
                ctx.trace()
    ctx.check(structs.snap_diff(base, structs.snapshot(obj, store_only=True)) is None, "original-changed", lambda: f"subgraph changed the original {es}")
    if variant and es:
        op = ["remove", [es[0]], None]
        obj = structs.apply_real(obj, op)
        m.apply(op)
        sub = obj.subgraph(list(range(n)))
        check_sub(sub, m, list(range(n)), True, f"{es} after {op}", ctx, full=True)
        hist.observe(obj, m, ctx, f"original {es} after subgraph and {op}")


def shrink(case):
    if case[0] == "big":
        return
    n, es, sp, v = case
    for i in range(len(es)):
        yield [n, es[:i] + es[i + 1:], sp[:i] + sp[i + 1:], v]
