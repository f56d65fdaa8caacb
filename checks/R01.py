"""Random structure generators: every outcome of the random source, class membership and exact/interval probabilities."""
import itertools
import math

from mc import rng

PID = "R01"
LEVEL = "model_checking"
CHUNK = 1
CASE_TIMEOUT = 200
BOUNDS = {
    "quick": "all generators on 2-4 vertices (sides 2x2, 2x3), every edge count, probabilities 0,1/4,1/2,3/4,1 (grid cells 4-16 per uniform draw); best-first by probability mass, <=7,000 executions per configuration, un-enumerated mass reported and used as tolerance; infeasible requests (more edges than exist, probabilities outside [0, 1]) must be rejected; probabilities resolved to 1/100 on 1-3 draws; the whole distribution with exact probabilities (draws resolved at the generators' own thresholds) of G(n,p) up to 6 (edge skipping), 4 and 3x3/2x5 vertices and 10 possible hyperedges, and all structures of at most 1-2 edges on up to 20 vertices; larger sizes (up to 150 vertices, 780 edges): fixed base outcomes and every outcome differing in one draw (every 5th/13th draw for > 300/1000 possible edges), plus 25 seeds, for class membership",
    "thorough": "as quick with <=60,000 executions per configuration and 5-vertex hypergraphs",
}
ASSUME = ["uniform draws are explored at cell midpoints; probabilities carry the un-enumerated mass plus the grid error as tolerance",
          "if the code draws from a source that is not intercepted only class membership is judged (over many seeds)"]
EXHAUSTIVE = False  # rejection loops have infinite outcome trees; the un-enumerated mass is accounted for
BUDGET = {"quick": 7000, "thorough": 60000}


def cases(tier):
    P = [0.0, 0.25, 0.5, 0.75, 1.0]
    for p in P:
        for n in (2, 3):
            yield ["graph_Gnp", [n], p, tier]
            yield ["digraph_Gnp", [n], p, tier]
            yield ["graph_Gnp_fast", [n], p, tier]
            yield ["digraph_Gnp_fast", [n], p, tier]
        for s in ([2, 2], [2, 3], [3, 2]):
            yield ["bigraph_Gnp", s, p, tier]
        for k, n in ((2, 3), (3, 3), (2, 2), (3, 4), (2, 4), (4, 4)):
            yield ["uniform_hypergraph_Gnp", [k, n], p, tier]
    for n in (2, 3, 4):
        N = n * (n - 1) // 2
        for m in range(0, N + 2):
            yield ["graph_Gnm", [n, m], None, tier]
        for m in range(0, 2 * N + 2):
            if n < 4 or m <= 2 or m >= 2 * N:
                yield ["digraph_Gnm", [n, m], None, tier]
    for a, b in ((2, 2), (2, 3), (3, 2)):
        for m in range(0, a * b + 2):
            yield ["bigraph_Gnm", [a, b, m], None, tier]
    for k, n in ((2, 2), (2, 3), (3, 3), (2, 4), (3, 4), (4, 4)) + (((3, 5), (2, 5)) if tier == "thorough" else ()):
        N = math.comb(n, k)
        for m in range(1, N + 2):
            if N <= 6 or m <= 2 or m > N - 1:
                yield ["uniform_hypergraph_Gnm", [k, n, m], None, tier]
    for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
        N = 2 ** n - n - 1
        for meth in ("uniform", "low_order_first", "high_order_first", "custom"):
            for m in sorted({1, 2, 3, N - 1, N, N + 1}):
                if 1 <= m:
                    yield ["hypergraph_Gnm", [n, m], meth, tier]
    for name, a in (("graph_Gnp", [3]), ("graph_Gnp_fast", [3]), ("digraph_Gnp", [3]), ("digraph_Gnp_fast", [3]), ("bigraph_Gnp", [2, 3]), ("uniform_hypergraph_Gnp", [2, 3])):
        for p in (-0.25, -1e-9, 1.0001, 1.75, 2.5):
            yield [name, a, p, tier]
    # larger instances under many seeds
    for big in (["graph_Gnp", [30], 0.3], ["graph_Gnp_fast", [30], 0.3], ["digraph_Gnp", [20], 0.3], ["digraph_Gnp_fast", [20], 0.3], ["bigraph_Gnp", [12, 17], 0.3],
                ["graph_Gnm", [20, 60], None], ["graph_Gnm", [12, 66], None], ["digraph_Gnm", [15, 100], None], ["digraph_Gnm", [8, 56], None], ["bigraph_Gnm", [9, 14, 50], None],
                ["bigraph_Gnm", [5, 7, 35], None], ["uniform_hypergraph_Gnp", [3, 9], 0.3], ["uniform_hypergraph_Gnm", [3, 9, 30], None], ["uniform_hypergraph_Gnm", [4, 6, 15], None],
                ["hypergraph_Gnm", [9, 40], "uniform"], ["hypergraph_Gnm", [9, 40], "low_order_first"], ["hypergraph_Gnm", [9, 40], "high_order_first"], ["hypergraph_Gnm", [9, 20], "custom"]):
        yield big + ["seeds"]
        for base in (1, 2, 3) if tier == "quick" else range(1, 13):
            yield big + [f"dev {base}"]
    for big in (["graph_Gnp", [45], 0.1], ["graph_Gnp_fast", [70], 0.05], ["graph_Gnp_fast", [60], 0.5], ["digraph_Gnp", [33], 0.1], ["digraph_Gnp_fast", [50], 0.05], ["bigraph_Gnp", [33, 20], 0.1], ["bigraph_Gnp", [3, 120], 0.1],
                ["graph_Gnm", [130, 300], None], ["graph_Gnm", [40, 780], None], ["graph_Gnm", [26, 300], None], ["digraph_Gnm", [110, 257], None], ["digraph_Gnm", [23, 506], None],
                ["bigraph_Gnm", [65, 40, 300], None], ["bigraph_Gnm", [4, 150, 580], None], ["bigraph_Gnm", [20, 20, 399], None], ["uniform_hypergraph_Gnp", [2, 40], 0.1], ["uniform_hypergraph_Gnp", [5, 11], 0.2], ["uniform_hypergraph_Gnp", [9, 11], 0.5],
                ["uniform_hypergraph_Gnm", [12, 40, 120], None], ["uniform_hypergraph_Gnm", [5, 10, 250], None], ["uniform_hypergraph_Gnm", [2, 70, 300], None],
                ["hypergraph_Gnm", [30, 120], "uniform"], ["hypergraph_Gnm", [30, 60], "low_order_first"], ["hypergraph_Gnm", [30, 60], "high_order_first"], ["hypergraph_Gnm", [12, 300], "uniform"], ["hypergraph_Gnm", [14, 150], "low_order_first"], ["hypergraph_Gnm", [12, 200], "custom"], ["hypergraph_Gnm", [25, 130], "custom"]):
        for base in (1, 2) if tier == "quick" else range(1, 9):
            yield big + [f"dev {base}"]
    # edge skipping: draws resolved exactly at the thresholds 1-(1-p)^k; the whole distribution or few edges among many
    for name, ns in (("graph_Gnp_fast", (2, 3, 4, 5)), ("digraph_Gnp_fast", (2, 3))):
        for n in ns:
            for p in (0.01, 0.1, 0.3, 0.5, 0.8, 0.95):
                yield [name, [n], p, "exact"]
    for name, n, p in (("graph_Gnp_fast", 6, 0.25), ("digraph_Gnp_fast", 4, 0.4)) + ((("graph_Gnp_fast", 6, 0.5), ("graph_Gnp_fast", 6, 0.9), ("digraph_Gnp_fast", 4, 0.1), ("digraph_Gnp_fast", 4, 0.7)) if tier == "thorough" else ()):
        yield [name, [n], p, "exact"]
    for name, a in (("graph_Gnp", [4]), ("digraph_Gnp", [3]), ("digraph_Gnp", [4]), ("bigraph_Gnp", [3, 3]), ("bigraph_Gnp", [2, 5]), ("bigraph_Gnp", [5, 2]), ("uniform_hypergraph_Gnp", [3, 5]), ("uniform_hypergraph_Gnp", [2, 5]), ("uniform_hypergraph_Gnp", [5, 6])) + (
            (("bigraph_Gnp", [4, 3]), ("bigraph_Gnp", [7, 2]), ("uniform_hypergraph_Gnp", [2, 6]), ("uniform_hypergraph_Gnp", [4, 6]), ("uniform_hypergraph_Gnp", [6, 7])) if tier == "thorough" else ()):
        for p in (0.01, 0.1, 0.3, 0.5, 0.8, 0.95):
            yield [name, a, p, "exact"]
    for name, n, p, k in (("graph_Gnp_fast", 8, 0.03, 3), ("graph_Gnp_fast", 12, 0.01, 2), ("graph_Gnp_fast", 20, 0.004, 2), ("digraph_Gnp_fast", 6, 0.03, 3), ("digraph_Gnp_fast", 9, 0.01, 3)) + (
            (("graph_Gnp_fast", 10, 0.02, 3), ("graph_Gnp_fast", 32, 0.001, 2), ("digraph_Gnp_fast", 12, 0.007, 3)) if tier == "thorough" else ()):
        yield [name, [n], p, f"sparse {k}"]
    # fine-grained probabilities: one uniform draw per possible edge resolved at 1/100
    for p in (0.01, 0.04, 0.07, 0.33, 0.37, 0.55, 0.86, 0.96, 0.99):
        for name, a in (("graph_Gnp", [2]), ("digraph_Gnp", [2]), ("uniform_hypergraph_Gnp", [2, 2]), ("uniform_hypergraph_Gnp", [4, 4]), ("uniform_hypergraph_Gnp", [2, 3]) if tier == "thorough" else ("uniform_hypergraph_Gnp", [3, 3])):
            yield [name, a, p, "fine"]


CUSTOM = {2: [1.0], 3: [0.75, 0.25], 4: [0.5, 0.0, 0.5], 5: [0.25, 0.25, 0.0, 0.5], 9: [0.1, 0, 0.4, 0.1, 0, 0.2, 0.1, 0.1], 12: [0, 0.7, 0, 0, 0.2, 0, 0, 0, 0, 0.1, 0], 25: [0.0, 0.0, 1.0] + [0.0] * 20 + [3.0]}


def setup(name, args, p):
    """(thunk, possible edges, requested count or None, feasible, edge canonicaliser kind)"""
    import dhg.random as R

    f = getattr(R, name)
    if name in ("graph_Gnp", "graph_Gnp_fast", "digraph_Gnp", "digraph_Gnp_fast"):
        n = args[0]
        E = list(itertools.combinations(range(n), 2)) if name.startswith("graph") else list(itertools.permutations(range(n), 2))
        return (lambda: f(n, p)), E, None, True
    if name == "bigraph_Gnp":
        return (lambda: f(args[0], args[1], p)), list(itertools.product(range(args[0]), range(args[1]))), None, True
    if name == "uniform_hypergraph_Gnp":
        return (lambda: f(args[0], args[1], p)), list(itertools.combinations(range(args[1]), args[0])), None, True
    if name in ("graph_Gnm", "digraph_Gnm"):
        n, m = args
        E = list(itertools.combinations(range(n), 2)) if name == "graph_Gnm" else list(itertools.permutations(range(n), 2))
        return (lambda: f(n, m)), E, m, m <= len(E)
    if name == "bigraph_Gnm":
        a, b, m = args
        return (lambda: f(a, b, m)), list(itertools.product(range(a), range(b))), m, m <= a * b
    if name == "uniform_hypergraph_Gnm":
        k, n, m = args
        E = list(itertools.combinations(range(n), k)) if math.comb(n, k) <= 3000 else Sets(n, [k])
        return (lambda: f(k, n, m)), E, m, m <= len(E)
    n, m = args
    E = [e for k in range(2, n + 1) for e in itertools.combinations(range(n), k)] if n < 10 else Sets(n, range(2, n + 1))
    if p == "custom":
        pk = CUSTOM[n]
        E = [e for e in E if pk[len(e) - 2] > 0] if n < 10 else Sets(n, [k for k in range(2, n + 1) if pk[k - 2] > 0])
        return (lambda: f(n, m, method=p, prob_k_list=list(pk))), E, m, m <= len(E)
    if p == "low_order_first":
        return (lambda: f(n, m)), E, m, m <= len(E)
    return (lambda: f(n, m, method=p)), E, m, m <= len(E)


class Sets:
    """all sorted tuples over range(n) with an admitted size, without listing them"""

    def __init__(self, n, sizes):
        self.n, self.sizes = n, set(sizes)

    def __len__(self):
        return sum(math.comb(self.n, k) for k in self.sizes)

    def __ge__(self, other):
        return all(len(e) in self.sizes and len(set(e)) == len(e) and all(0 <= v < self.n for v in e) for e in other)


CLS = {"g": "Graph", "d": "DiGraph", "b": "BiGraph", "u": "Hypergraph", "h": "Hypergraph"}


def canon(name, args, o):
    """edge set of the generated structure, or an error string"""
    if type(o).__name__ != CLS[name[0]]:
        return "bad", f"returned a {type(o).__name__}"
    if name[0] == "b":
        if (o.num_u, o.num_v) != (args[0], args[1]):
            return "bad", f"sides {o.num_u}, {o.num_v}"
    else:
        n = args[1] if name.startswith("uniform") else args[0]
        if o.num_v != n:
            return "bad", f"num_v {o.num_v}"
    el, wl = o.e
    if any(float(w) != 1.0 for w in wl) or len(wl) != len(el):
        return "bad", f"weights {wl}"
    if name[0] in "gd" and any(e[0] == e[1] for e in el):
        return "bad", f"self-loop in {el}"
    es = [tuple(int(x) for x in e) if name[0] in "db" else tuple(sorted(int(x) for x in e)) for e in el]
    if len(set(es)) != len(es) or o.num_e != len(es):
        return "bad", f"duplicates in {es}"
    return "ok", tuple(sorted(es))


def run(case, ctx):
    name, args, p, tier = case
    fn, E, m, feasible = setup(name, args, p)
    if isinstance(p, float) and not 0 <= p <= 1:
        feasible = False
    where = f"{name}{tuple(args)} {p if p is not None else ''}"
    Eset = E if isinstance(E, Sets) else set(E)
    if not feasible:
        ctx.step()
        ctx.trace()
        ctx.state((name, tuple(args), "infeasible"))
        try:
            o = fn()
        except (AssertionError, ValueError):
            return
        ctx.fail("infeasible-accepted", f"{where}: an infeasible request (more edges than exist, or a probability outside [0, 1]) was accepted and {o} was returned")
    once = lambda: canon(name, args, fn())

    def member(v):
        ctx.check(v[0] == "ok", "class", lambda: f"{where}: {v[1]}")
        ctx.check(Eset >= set(v[1]), "class-edges", lambda: f"{where}: {v[1]} contains edges outside the class")
        if m is not None:
            ctx.check(len(v[1]) == m, "count", lambda: f"{where}: {len(v[1])} edges, requested {m}")

    if tier == "seeds":
        vals = rng.many_seeds(once, 25)
        for v in vals:
            member(v)
            ctx.step()
            ctx.trace()
            ctx.state((name, tuple(args), v[1]))
        ctx.check(len(set(vals)) > 1 or len(E) == m, "degenerate", lambda: f"{where}: 25 seeds gave one and the same structure")
        # every possible edge occurs / is absent for some seed
        if m is None:
            seen = {e for v in vals for e in v[1]}
            ctx.check(len(seen) > 0.95 * len(E), "never-present", lambda: f"{where}: {len(Eset - seen)} of {len(E)} possible edges never occur in 25 samples, e.g. {sorted(Eset - seen)[:5]}")
        ctx.outcome((name, len(set(vals))))
        return
    if tier.startswith("dev"):
        seen = set()
        stride = 1 if len(E) <= 300 else 5 if len(E) <= 1000 else 13
        for devs, v in rng.deviate(once, base=int(tier.split()[1]) * 7919, grid=50, bound=1 if len(E) <= 66 and name.startswith("hyper") is False else 0, max_points=60000):
            if devs is None:
                ctx.note("uncontrolled random source")
                continue
            if v is None:
                ctx.note("draws did not end")
                continue
            member(v)
            seen.add(v)
            ctx.step()
            ctx.trace()
            ctx.state((name, tuple(args), v[1]))
        # deviations in one draw: every stride-th draw resolved to the other half
        for devs, v in rng.deviate(once, base=int(tier.split()[1]) * 104729 + 1, grid=2, bound=1 if name.endswith("Gnp") else 0, max_points=60000, stride=stride):
            if devs is None or v is None:
                continue
            member(v)
            ctx.step()
            ctx.state((name, tuple(args), v[1]))
        ctx.outcome((name, len(seen)))
        return
    if tier == "exact" or tier.startswith("sparse"):
        skipping(name, args, p, tier, once, E, member, where, ctx)
        return
    grid = {"graph_Gnp_fast": 16, "digraph_Gnp_fast": 8, "hypergraph_Gnm": 16}.get(name, 4)
    if p == 0.75 and "fast" in name:
        grid = 32
    if tier == "fine":
        grid = 100
    r = rng.explore(once, grid=grid, budget=BUDGET.get(tier, 12000), min_mass=1e-8)
    if r.uncontrolled:
        ctx.note("uncontrolled random source")
        for v in rng.many_seeds(once, 60):
            member(v)
        return
    d = r.dist()
    ctx.step(r.execs)
    ctx.trace(len(r.leaves))
    ctx.count(name + " executions", r.execs)
    for v in d:
        member(v)
        ctx.state((name, tuple(args), p, v[1]))
        ctx.outcome((name, tuple(args), p, v[1]))
    tr = r.truncated + 1e-9
    ctx.note("configurations fully enumerated" if r.truncated < 1e-12 else "configurations with un-enumerated mass " + ("< 0.01" if tr < 0.01 else "< 0.1" if tr < 0.1 else "< 0.5" if tr < 0.5 else ">= 0.5"))
    prob = lambda pred: sum(q for v, q in d.items() if pred(set(v[1])))
    if m is None:
        # independence and presence probability: all subsets when few edges, else marginals and pairs
        if "fast" in name and 0 < p < 1:
            exact = (p == 0.5 and name == "graph_Gnp_fast") or (p == 0.5 and args == [2])
            tol = tr + (0 if exact else 0.13)
        else:
            tol = tr
        if len(E) <= 6:
            for k in range(len(E) + 1):
                for sub in itertools.combinations(E, k):
                    q = p ** k * (1 - p) ** (len(E) - k)
                    got = d.get(("ok", tuple(sorted(sub))), 0.0)
                    ctx.check(abs(got - q) <= tol, "probability", lambda: f"{where}: structure {sub} has probability {got} (+{tr:.2g}), expected {q}")
        for e in E:
            got = prob(lambda s: e in s)
            ctx.check(got - tol <= p <= got + tol, "presence", lambda: f"{where}: edge {e} present with probability {got} (+{tr:.2g}), expected {p}")
        for e, f in itertools.combinations(E, 2):
            got = prob(lambda s: e in s and f in s)
            ctx.check(got - tol <= p * p <= got + tol, "independence", lambda: f"{where}: edges {e},{f} both present with probability {got} (+{tr:.2g}), expected {p * p}")
        return
    if name == "hypergraph_Gnm":
        n = args[0]
        w = {"uniform": [math.comb(n, k) for k in range(2, n + 1)], "low_order_first": [3.0 ** -i for i in range(n - 1)],
             "high_order_first": [3.0 ** -i for i in reversed(range(n - 1))], "custom": CUSTOM[n]}[p]
        tot = sum(w)
        tol = tr + 1.0 / grid
        for e in E:  # symmetry among hyperedges of one size, size law for single hyperedges
            if m == 1:
                q = w[len(e) - 2] / tot / math.comb(n, len(e))
                got = d.get(("ok", (e,)), 0.0)
                ctx.check(abs(got - q) <= tr + 1.01 / grid / math.comb(n, len(e)), "size-law", lambda: f"{where}: hyperedge {e} has probability {got} (+{tr:.2g}), expected {q}")
            got = prob(lambda s: e in s)
            for f in E:
                if len(f) == len(e):
                    g2 = prob(lambda s: f in s)
                    ctx.check(got <= g2 + tr and g2 <= got + tr, "symmetry", lambda: f"{where}: hyperedges {e} and {f} present with probabilities {got} and {g2} (+{tr:.2g})")
            ctx.check(got + tr > 0, "unreachable", lambda: f"{where}: hyperedge {e} never occurs")
        return
    N = math.comb(len(E), m)
    q = 1.0 / N
    if N <= 2000:
        for sub in itertools.combinations(sorted(E), m):
            got = d.get(("ok", tuple(sub)), 0.0)
            ctx.check(got - 1e-9 <= q <= got + tr, "uniform", lambda: f"{where}: structure {sub} has probability {got} (+{tr:.2g}), expected {q}")
    for e in E:
        got = prob(lambda s: e in s)
        ctx.check(got - 1e-9 <= m / len(E) <= got + tr, "uniform-edge", lambda: f"{where}: edge {e} present with probability {got} (+{tr:.2g}), expected {m / len(E)}")


def skipping(name, args, p, tier, once, E, member, where, ctx):
    """distribution with draws resolved at p (edge skipping: at 1-(1-p)^k).  Should it differ from the definition, the draws may be used in another
    way: it is only a violation when cells mirrored and cells halved lead to the very same probability"""
    N = len(E)
    up = [1 - (1 - p) ** k for k in range(N + 1 if "fast" in name else 2)] + [1.0]
    depth = int(tier.split()[1]) if tier != "exact" else 0

    def table(cells):
        cells = tuple(sorted({round(c, 14) for c in cells}))
        if depth:  # follow `depth` draws
            r = rng.explore(once, grid=cells, budget=600000, min_mass=0.0, draws=depth)
        else:
            r = rng.explore(once, grid=cells, budget=400000, min_mass=1e-12)
        ctx.step(r.execs)
        ctx.count(name + " executions", r.execs)
        return r, r.dist()

    r, d = table(up)
    if r.uncontrolled:
        ctx.note("uncontrolled random source")
    for v in d:
        member(v)
        ctx.state((name, tuple(args), p, v[1]))
    ctx.outcome((name, tuple(args), p, len(d)))
    if r.uncontrolled:
        return
    alt = []

    def judge(sub):
        q = p ** len(sub) * (1 - p) ** (N - len(sub))
        key = ("ok", tuple(sorted(sub)))
        ok = lambda r, d: d.get(key, 0.0) - 1e-7 <= q <= d.get(key, 0.0) + r.truncated + 1e-7
        if ok(r, d):
            return
        if not alt:
            half = up + [(a + b) / 2 for a, b in zip(up, up[1:])]
            alt.extend([table([0.0] + [1 - c for c in up]), table(half)])
        if all(not ok(*t) for t in alt) and abs(alt[1][1].get(key, 0.0) - d.get(key, 0.0)) <= 1e-6 + alt[1][0].truncated:
            ctx.fail("probability", f"{where}: structure {sub} has probability {d.get(key, 0.0)} (+{r.truncated:.2g} not enumerated), expected {q}")
        ctx.note("draws used in another way: probability not judged")

    if tier == "exact":
        for k in range(N + 1):
            for sub in itertools.combinations(E, k):
                judge(sub)
        ctx.note("whole distributions" if r.truncated < 1e-6 else f"whole distributions up to {r.truncated:.1g}")
    else:
        for k in range(depth if name.startswith("graph") else depth - 1):
            for sub in itertools.combinations(E, k) if math.comb(N, k) <= 3000 else ((e, E[(i * 7 + 3) % N]) for i, e in enumerate(E) if E[(i * 7 + 3) % N] != e):
                judge(sub)
    ctx.trace(len(d))
