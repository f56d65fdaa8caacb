"""Edge-list / adjacency-list conversions and remapping over all small inputs."""
import copy
import itertools

from mc.big import Lcg

PID = "U03"
LEVEL = "model_checking"
CHUNK = 400
BOUNDS = {
    "quick": "12 sets of nearly equal identifiers (blanks, case, zeros, accents, magnitudes, separators) in all edge lists of <=3 edges and pairs of adjacency lines; all edge lists of <=3 edges over 3 vertices (tuples and lists) through all conversions and round trips; all adjacency lists of <=2 lines of length <=3 over 3 vertices; remapping of all edge lists of <=3 edges over 4 markers in 3 marker sets (ints whose text order differs from numeric order, strings, mixed), bipartite and not, with and without returned map; all pairs of edge lists of <=2 edges, all adjacency lists of <=2 lines, all pairs of adjacency lists; fixed patterns of 7-400 edges over 12-257 markers in 1-9 lists",
    "thorough": "quick + edge lists of 4 edges, 3 adjacency lines, triples of edge lists",
}
ASSUME = ["markers are identified by their text form, as the remapping functions do"]


class Ids:
    """a marker for every number"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f(i)


MARK = [[10, 9, 2, 100], ["b", "a", "b10", "B"], [7, "x", "12", 3], Ids(lambda i: (i * 7919 + 13) % 100003), Ids(lambda i: f"node {i % 11}_{i}")]
# pairwise different identifiers that are nearly the same
NEAR = [["a", "a ", " a", "A"], ["1", "01", "+1", "1.0"], ["\u00e9", "e\u0301", "\u00c9", "e"], ["", " ", "\n", "\t"], [2**53, 2**53 + 1, -1, -(2**53) - 1],
        [0.1, 0.10000000000000002, -0.0, 1e-17], ["x" * 300 + c for c in "0129"], [(1, 2), (1, 2, 0), (1,), (12,)], ["a,b", "a;b", "a b", "a\tb"], ["None", "nan", "NaN", "none"],
        ["a\0", "a\0b", "a", "\0a"], ["\uff11", "1", "\u0661", "\u00b9"]]
NEAR0 = len(MARK)
MARK += NEAR


def lists(items, k):
    for n in range(k + 1):
        yield from itertools.product(items, repeat=n)


def cases(tier):
    E3 = [(a, b) for a in range(3) for b in range(3)]
    for es in lists(E3, 4 if tier == "thorough" else 3):
        yield ["conv", [list(e) for e in es]]
    lines = [list(x) for x in lists(range(3), 3)]
    for ls in lists(lines, 3 if tier == "thorough" else 2):
        if tier == "thorough" and len(ls) == 3 and sum(map(len, ls)) > 7:
            continue
        yield ["adj", [list(x) for x in ls]]
        yield ["radj", 0, [[list(x) for x in ls]]]
    for k in range(3):
        E4 = [(a, b) for a in range(4) for b in range(4)]
        for es in lists(E4, 3):
            yield ["redge", k, [[list(e) for e in es]]]
        for a, b in itertools.product(list(lists(E4[:10], 2)), repeat=2):
            if len(a) + len(b) <= (4 if tier == "thorough" else 3):
                yield ["redge", k, [[list(e) for e in a], [list(e) for e in b]]]
        L4 = [list(x) for x in lists(range(4), 2)] + [[0, 1, 2], [3, 2, 3], [2, 2, 2], [1, 3, 0]]
        for a, b in itertools.product(L4, repeat=2):
            yield ["radj", k, [[a, b]]]
            yield ["radj", k, [[a], [b]]]
            yield ["radj", k, [[a], [], [b, a]]]
    for k in range(NEAR0, NEAR0 + len(NEAR)):
        for es in lists([(0, 1), (1, 0), (2, 3), (3, 2), (0, 2), (1, 1)], 3):
            yield ["redge", k, [[list(e) for e in es]]]
            if es:
                yield ["redge", k, [[list(es[0])], [list(e) for e in es[1:]]]]
        for a, b in itertools.product([[], [0], [0, 1], [1, 0, 2], [2, 3, 3], [3, 0, 1, 2]], repeat=2):
            yield ["radj", k, [[a, b]]]
            yield ["radj", k, [[a], [b]]]
    for n, m in ((12, 40), (30, 7), (30, 100), (130, 300), (257, 400)) + (((1000, 3000),) if tier == "thorough" else ()):
        for s in range(3):
            r = Lcg(n * 10 + s)
            es = [[r(n), r(n)] for _ in range(m)]
            al = [[r(n) for _ in range(1 + r([1, 2, 12, 60][r(4)]))] for _ in range(m // 3)]
            hs = [[r(n) for _ in range(1 + r([3, 40][r(2)]))] for _ in range(m // 3)]
            yield ["conv", es]
            yield ["adj", al]
            for k in (3, 4):
                yield ["redge", k, [es]]
                yield ["redge", k, [es[: m // 2], es[m // 2:], es[: m // 4]]]
                yield ["redge", k, [es[i::9] for i in range(9)]]
                yield ["radj", k, [al]]
                yield ["radj", k, [al[i::5] for i in range(5)]]
                yield ["rhyper", k, [hs]]
                yield ["rhyper", k, [hs[::2], hs[1::2]]]
    for hs in lists([(0, 1, 2), (1,), (3, 0), (2, 3, 1, 0)], 3):
        yield ["rhyper", 0, [[list(h) for h in hs]]]
    if tier == "thorough":
        for a, b, c in itertools.product(list(lists(E4[:7], 2)), repeat=3):
            yield ["redge", 1, [[list(e) for e in a], [list(e) for e in b], [list(e) for e in c]]]


def bijection(pairs, given, what, ctx, where):
    """pairs: (marker text, new index); returns after checking a gap-free one-to-one consistent renumbering"""
    mp = {}
    for k, v in pairs:
        ctx.check(isinstance(v, int), "index-type", lambda: f"{where}: {what} index {v!r}")
        ctx.check(mp.setdefault(k, v) == v, "inconsistent", lambda: f"{where}: {what} marker {k!r} mapped to {mp[k]} and {v}")
    ctx.check(sorted(mp.values()) == list(range(len(mp))), "not-gap-free", lambda: f"{where}: {what} map {mp}")
    if given is not None:
        ctx.check({str(k): v for k, v in given.items()} == mp, "returned-map", lambda: f"{where}: returned map {given}, applied {mp}")


def run(case, ctx):
    import dhg.utils as U

    kind = case[0]
    where = str(case)
    if kind == "conv":
        es = [tuple(e) for e in case[1]]
        for inp in ([list(e) for e in es], list(es)):
            snap = copy.deepcopy(inp)
            d = U.edge_list_to_adj_dict(inp)
            al = U.edge_list_to_adj_list(inp)
            ctx.step(3)
            ctx.check(inp == snap, "input-modified", where)
            got = [(s, t) for s, ts in d.items() for t in ts]
            ctx.check(sorted(got) == sorted(es), "adj-dict", lambda: f"{where}: {dict(d)}")
            ctx.check(all(len(l) >= 1 for l in al) and sorted((l[0], t) for l in al for t in l[1:]) == sorted(es), "adj-list", lambda: f"{where}: {al}")
            ctx.check(len({l[0] for l in al}) == len(al), "adj-list-sources", lambda: f"{where}: {al}")
            snap = copy.deepcopy(al)
            back = U.adj_list_to_edge_list(al)
            ctx.check(al == snap, "input-modified", where)
            ctx.check(sorted(map(tuple, back)) == sorted(es), "round-trip", lambda: f"{where}: {back}")
            d[99] = [1]
            if al:
                al[0].append(5)
            ctx.check(inp == [type(inp[i])(e) for i, e in enumerate(es)] if inp else True, "input-aliased", where)
        ctx.outcome(tuple(sorted(es)))
    elif kind == "adj":
        al = case[1]
        exp = sorted((l[0], t) for l in al if l for t in l[1:])
        snap = copy.deepcopy(al)
        back = U.adj_list_to_edge_list(al)
        ctx.step()
        ctx.check(al == snap, "input-modified", where)
        ctx.check(sorted(map(tuple, back)) == exp, "adj-to-edge", lambda: f"{where}: {back}, expected {exp}")
        al2 = U.edge_list_to_adj_list(back)
        ctx.check(sorted((l[0], t) for l in al2 for t in l[1:]) == exp, "adj-round-trip", lambda: f"{where}: {al2}")
        ctx.outcome(tuple(exp))
    else:
        mk = MARK[case[1]]
        tab = [[[mk[v] for v in x] for x in lst] for lst in case[2]]
        for bip in ((False,) if kind == "rhyper" else (False, True)):
            res = {}
            for multi in (False, True):
                if not multi and len(tab) > 1:
                    continue
                fn = {("redge", False): U.remap_edge_list, ("redge", True): U.remap_edge_lists, ("rhyper", False): U.remap_edge_list, ("rhyper", True): U.remap_edge_lists,
                      ("radj", False): U.remap_adj_list, ("radj", True): U.remap_adj_lists}[kind, multi]
                for rm in (False, True):
                    inp = copy.deepcopy(tab)
                    r = fn(*inp, bipartite_graph=bip, ret_map=rm)
                    ctx.step()
                    ctx.count(fn.__name__)
                    ctx.check(inp == tab, "input-modified", lambda: f"{where}: {inp}")
                    um = vm = None
                    if rm:
                        r, *maps = r
                        ctx.check(len(maps) == (2 if bip else 1), "maps", lambda: f"{where}: {maps}")
                        um, vm = (maps[0], maps[1]) if bip else (None, maps[0])
                    if not multi:
                        r = [r]
                    ctx.check([[len(x) for x in l] for l in r] == [[len(x) for x in l] for l in tab], "shape", lambda: f"{where} bip={bip}: {r}")
                    up, vp = [], []
                    for l0, l1 in zip(tab, r):
                        for x0, x1 in zip(l0, l1):
                            for i, (a, b) in enumerate(zip(x0, x1)):
                                (up if bip and i == 0 else vp).append((str(a), b))
                    bijection(vp, vm, "second-side" if bip else "vertex", ctx, where)
                    if bip:
                        bijection(up, um, "first-side", ctx, where)
                    res[multi, rm] = [[tuple(x) for x in l] for l in r]
                    ctx.outcome((bip, tuple(map(tuple, res[multi, rm]))))
            vals = list(res.values())
            ctx.check(all(v == vals[0] for v in vals), "variants-differ", lambda: f"{where} bip={bip}: {res}")
    ctx.state((kind, str(case[1:])))
    ctx.trace()
