"""Structure drawing: the marks on the axes, for every small structure and styling form."""
import copy
import itertools
import math

import numpy as np

from mc.big import Lcg

PID = "V01"
LEVEL = "model_checking"
CHUNK = {"quick": 3, "thorough": 6}
BOUNDS = {
    "quick": "graphs on 1-3 vertices (all edge sets incl. loops, up to relabelling) and 4 vertices (all loop-free up to relabelling) in line and circle style; digraphs on 2-3 vertices with up to 4 arcs, bigraphs up to 2x3, hypergraphs on 1-3 vertices (all edge sets) and chosen 4-vertex ones and grouped duplicates, up to relabelling; each drawn with default, scalar and per-item styling from the same random layout; edge-attraction-only layouts of every single-edge structure; every wrong-length styling argument; the draw methods against the drawing functions, argument by argument; fixed structures of 6-25 vertices and up to 31 edges",
    "thorough": "every labelled structure of those sizes, 2 layout seeds",
}
ASSUME = ["marks are read from the matplotlib axes (vertex patches in one collection, edge marks as patches)", "sizes and widths are scales relative to the default", "vertices do not overlap so far that two discs have no common tangent"]
COL = ["#%02x%02x%02x" % (20 + 37 * i % 230, 240 - 53 * i % 230, 10 + 91 * i % 230) for i in range(12)]
COL += ["#%02x%02x%02x" % (i * 5 % 256, (i * 83 + 7) % 256, (255 - i * 31) % 256) for i in range(48)]


def canon(n, es, directed=False):
    best = None
    for p in itertools.permutations(range(n)):
        t = tuple(sorted(tuple(p[v] for v in e) if directed else tuple(sorted(p[v] for v in e)) for e in es))
        best = t if best is None or t < best else best
    return best


def subsets(xs, lo, hi):
    for r in range(lo, hi + 1):
        yield from itertools.combinations(xs, r)


def uniq(n, sets, all_, directed=False):
    seen = set()
    for es in sets:
        k = canon(n, es, directed)
        if all_ or k not in seen:
            seen.add(k)
            yield list(map(list, es))


def cases(tier):
    th = tier == "thorough"
    seeds = (0, 1) if th else (0,)
    for s in seeds:
        i = 0
        for n in (1, 2, 3):
            pairs = [(a, b) for a in range(n) for b in range(a, n)]
            for es in uniq(n, subsets(pairs, 1, 6), th):
                for st in ("line", "circle"):
                    yield ["graph", n, es, st, s]
        for es in uniq(4, subsets(list(itertools.combinations(range(4), 2)), 1, 6), th):
            i += 1
            yield ["graph", 4, es, ("line", "circle")[i % 2], s]
        for n, m in ((2, 4), (3, 4)):
            for es in uniq(n, subsets([(a, b) for a in range(n) for b in range(n)], 1, m if n == 2 or th else 2), th, True):
                yield ["digraph", n, es, "line", s]
        for nu, nv in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1)):
            for j, es in enumerate(subsets(list(itertools.product(range(nu), range(nv))), 1, 4 if nu * nv <= 4 else 2)):
                if nu * nv < 4 or th or j % 3 == 0:
                    yield ["bigraph", [nu, nv], [list(e) for e in es], "line", s]
        for n in (1, 2, 3):
            subs = list(subsets(range(n), 1, n))
            for es in uniq(n, subsets(subs, 1, 7), th):
                yield ["hypergraph", n, [es], "circle", s]
        for gs in ([[[0, 1], [1, 2]], [[0, 1]]], [[[0, 1, 2, 3]]], [[[0, 1, 2, 3], [0, 1], [3]]], [[[1, 3, 2]], [[1, 3, 2], [0]]], [[[0, 2], [1, 3]], [[0, 1, 3]]]):
            yield ["hypergraph", 4, gs, "circle", s]
    for s in (0, 1) if not th else range(5):
        for e in itertools.combinations(range(4), 2):
            yield ["pull", "graph", 5, [list(e)], s]
            yield ["pull", "hypergraph", 5, [[list(e)]], s]
            yield ["pull", "digraph", 5, [list(e[::-1] if s else e)], s]
        for e in itertools.product(range(2), range(3)):
            yield ["pull", "bigraph", [2, 3], [list(e)], s]
        for e in itertools.product(range(3), range(2)):
            yield ["pull", "bigraph", [3, 2], [list(e)], s]
    for cls, n, es, st in large(th):
        yield [cls, n, es, st, 0]
    for c in ("graph", "digraph", "bigraph", "hypergraph"):
        for k in range(12):
            yield ["reject", c, k]
        for k in range(4 if th else 2):
            yield ["method", c, k]


def large(th):
    for n, m in ((6, 8), (11, 14), (16, 30), (25, 24)) + (((40, 40),) if th else ()):
        for s in range(3 if th else 1):
            r = Lcg(n * 10 + s)
            pairs = sorted({(min(a, b), max(a, b)) for a, b in ((r(n), r(n)) for _ in range(m))})
            pairs = [list(pairs[(i * 7) % len(pairs)]) for i in range(len(pairs))] if len(pairs) % 7 else [list(e) for e in pairs]
            yield "graph", n, pairs, "line"
            yield "graph", n, [e for e in pairs if e[0] != e[1]][: m // 2], "circle"
            arcs = sorted({(r(n), r(n)) for _ in range(m)} | {(0, 1), (1, 0)})
            yield "digraph", n, [list(e) for e in arcs], "line"
            nu = n // 3 + 1
            yield "bigraph", [nu, n - nu], [list(e) for e in sorted({(r(nu), r(n - nu)) for _ in range(m)})], "line"
            hs = {tuple(sorted({r(n) for _ in range(1 + r(6))})) for _ in range(max(3, m // 4))}
            hs = [list(h) for h in sorted(hs)]
            yield "hypergraph", n, [hs], "circle"
            yield "hypergraph", n, [hs[: len(hs) // 2], hs[len(hs) // 2:][::-1]], "circle"


def build(cls, n, es):
    import dhg

    if cls == "graph":
        return dhg.Graph(n, [tuple(e) for e in es])
    if cls == "digraph":
        return dhg.DiGraph(n, [tuple(e) for e in es])
    if cls == "bigraph":
        return dhg.BiGraph(n[0], n[1], [tuple(e) for e in es])
    h = dhg.Hypergraph(n, [tuple(e) for e in es[0]])
    for i, g in enumerate(es[1:]):
        h.add_hyperedges([tuple(e) for e in g], group_name=f"g{i}")
    return h


def draw(cls, g, seed, **kw):
    import matplotlib.pyplot as plt
    import dhg.visualization as V

    plt.close("all")
    np.random.seed(seed)
    getattr(V, "draw_" + cls)(g, **kw)
    return plt.gcf().axes[0]


class Marks:
    """What is on the axes."""

    def __init__(self, ax, num, ctx, desc):
        from matplotlib import patches as P

        cols = [c for c in ax.collections if len(c.get_paths())]
        ctx.check(len(cols) == 1 and len(cols[0].get_paths()) == num, "vertex-count", lambda: f"{desc}: vertex marks {[len(c.get_paths()) for c in cols]} for {num} vertices")
        c = cols[0]
        self.pos, self.size = [], []
        for p in c.get_paths():
            lo, hi = p.vertices.min(0), p.vertices.max(0)
            self.pos.append((lo + hi) / 2)
            self.size.append((hi - lo)[0] / 2)
        self.pos, self.size = np.array(self.pos), np.array(self.size)
        exp = lambda v: [tuple(np.round(x, 4)) if np.ndim(x) else float(x) for x in (list(v) * num)[:num]] if len(v) == 1 else [tuple(np.round(x, 4)) if np.ndim(x) else float(x) for x in v]
        self.color, self.width = exp(c.get_facecolors()), exp(np.atleast_1d(c.get_linewidths()))
        ctx.check(np.isfinite(self.pos).all() and (self.size > 0).all(), "positions", lambda: f"{desc}: positions {self.pos.tolist()} sizes {self.size.tolist()}")
        lo, hi = min(ax.get_xlim() + ax.get_ylim()), max(ax.get_xlim() + ax.get_ylim())
        ctx.check((self.pos >= lo).all() and (self.pos <= hi).all(), "outside", lambda: f"{desc}: vertices at {self.pos.tolist()} outside the axes {lo}..{hi}")
        self.texts = [t for t in ax.texts if t.get_text()]
        self.edges = {}
        for p in ax.patches:
            self.edges.setdefault(tuple(np.round(p.get_edgecolor(), 4)), []).append(p)
        self.n_edge_patches = len(ax.patches)
        self.P = P
        pts = [x for p in ax.patches for x in np.ravel(p.get_transform().transform_path(p.get_path()).vertices)]
        ctx.check(np.isfinite(pts).all(), "edge-positions", lambda: f"{desc}: an edge mark has non-finite coordinates")


def rgba(c):
    from matplotlib.colors import to_rgba

    return tuple(np.round(to_rgba(c), 4))


def near(a, b, tol=1e-6):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol))


def edge_list(cls, n, es):
    """-> (number of vertex marks, edges over mark indices in drawing order)"""
    if cls == "bigraph":
        return n[0] + n[1], [(u, v + n[0]) for u, v in es]
    if cls == "hypergraph":
        return n, [tuple(e) for g in es for e in g]
    return n, [tuple(e) for e in es]


def run(case, ctx):
    import warnings

    warnings.simplefilter("ignore")
    ctx.count(case[0])
    if case[0] == "reject":
        return reject(case, ctx)
    if case[0] == "pull":
        return pull(case, ctx)
    if case[0] == "method":
        return method(case, ctx)
    from matplotlib.colors import to_rgba

    cls, n, es, style, seed = case
    num, edges = edge_list(cls, n, es)
    g = build(cls, n, es)
    before = snapshot(g)
    real = [tuple(e) for e in g.e[0]]
    order = []  # drawing order of the structure's own edge list
    for e in real:
        e = (e[0], e[1] + n[0]) if cls == "bigraph" else e
        order.append(e)
    want = sorted(e if cls == "digraph" else tuple(sorted(e)) for e in edges)
    ctx.check(sorted(e if cls == "digraph" else tuple(sorted(e)) for e in order) == want, "edge-list", f"{case}: structure lists {order}")
    circ = style == "circle"
    sty = {} if cls == "digraph" or cls == "bigraph" else {"e_style": style}
    labels = [f"n{i}" if i != 1 else "" for i in range(num)]
    ctx.trace()
    base = None
    for form in ("default", "scalar", "items"):
        kw, vs, vw, ew, fs = dict(sty), [1] * num, [1] * num, [1] * len(order), [1.0] * num
        vcol, ecol = None, None
        lab = None
        if form == "scalar":
            vs, vw, ew, fs = [0.5] * num, [3] * num, [2.5] * len(order), [0.6] * num
            vcol, ecol = ["#123456"] * num, ["#654321"] * len(order)
            lab = labels
            kw.update(v_size=0.5, v_line_width=3, e_line_width=2.5, v_color="#123456", e_color="#654321")
            if cls == "bigraph":
                kw.update(u_size=0.5, u_line_width=3, u_color="#123456", u_font_size=0.6, v_font_size=0.6)
            else:
                kw.update(font_size=0.6)
        elif form == "items":
            vs, vw = [0.4 + (0.3 if num < 8 else 0.1) * (i % 5) for i in range(num)], [1 + i for i in range(num)]
            ew = [0.5 + 0.5 * (i % 7) for i in range(len(order))]
            vcol, ecol = [COL[-1 - i] for i in range(num)], COL[:len(order)]
            k = n[0] if cls == "bigraph" else 0
            kw.update(v_size=vs[k:], v_line_width=vw[k:], v_color=vcol[k:], e_color=list(ecol), e_line_width=list(ew))
            if k:
                kw.update(u_size=vs[:k], u_line_width=vw[:k], u_color=vcol[:k], u_font_size=0.5, v_font_size=1.5)
                fs = [0.5] * k + [1.5] * (num - k)
        if circ and form != "default":
            kw.update(e_fill_color="#abcdef" if form == "scalar" else COL[2:2 + len(order)])
        if form != "default":
            # a colour is a name, a tuple or a list of components; one for all or one per item
            how = (len(order) + 3 * num + sum(sum(e) * (i + 1) for i, e in enumerate(order))) % 4
            for key in ("v_color", "u_color", "e_color", "e_fill_color"):
                if key in kw and how:
                    conv = [None, list, tuple, lambda c: list(c)[:3]][how]
                    kw[key] = [conv(to_rgba(c)) for c in kw[key]] if form == "items" else list(to_rgba(kw[key]))[:3 + how % 2]
            ctx.count(f"colour form {how}")
        if form != "default":
            if cls == "bigraph":
                k = n[0]
                if form == "items" and (sum(map(sum, es)) + len(es)) % 2:
                    lab = [""] * k + labels[k:] if sum(map(sum, es)) % 4 < 2 else labels[:k] + [""] * (num - k)
                    kw.update(v_label=lab[k:]) if not any(lab[:k]) else kw.update(u_label=lab[:k])
                else:
                    lab = labels
                    kw.update(u_label=labels[:k], v_label=labels[k:])
            else:
                lab = labels
                kw.update(v_label=list(labels))
        args = copy.deepcopy(kw)
        desc = f"{case} {form}"
        ax = draw(cls, g, seed, **args)
        ctx.step()
        ctx.check(args == kw, "arguments-changed", f"{desc}: styling arguments are now {args}, were {kw}")
        ctx.check(snapshot(g) == before, "structure-changed", f"{desc}: drawing changed the structure")
        m = Marks(ax, num, ctx, desc)
        if base is None:
            base = m
            # per-side uniform default sizes
            sides = [range(n[0]), range(n[0], num)] if cls == "bigraph" else [range(num)]
            for sd in sides:
                ctx.check(len({round(m.size[i], 6) for i in sd}) == 1, "default-size", f"{desc}: {m.size}")
            base_e = edge_widths(m)
            if cls == "bigraph":
                ctx.check(len(set(m.color[:n[0]])) == 1 and len(set(m.color[n[0]:])) == 1 and m.color[0] != m.color[-1], "side-colours", f"{desc}: {m.color}")
        ctx.check(near(m.pos, base.pos, 1e-3), "layout", lambda: f"{desc}: styling moved the vertices from {base.pos.tolist()} to {m.pos.tolist()}")
        for i in range(num):
            ctx.check(abs(m.size[i] / base.size[i] - vs[i]) < 1e-3, "vertex-size", lambda: f"{desc}: vertex {i} is drawn with size scale {m.size[i] / base.size[i]}, asked {vs[i]}")
            ctx.check(i < len(m.width) and abs(m.width[i] / base.width[i] - vw[i]) < 1e-3, "vertex-line-width", lambda: f"{desc}: vertex line widths {m.width} (default {base.width}), asked scales {vw}")
            if vcol:
                ctx.check(m.color[i] == rgba(vcol[i]), "vertex-colour", lambda: f"{desc}: vertex {i} is drawn in {m.color[i]}, asked {vcol[i]}")
        judge_labels(m, lab, fs, case, ctx, desc)
        judge_edges(m, cls, order, circ, ecol, ew, base_e, kw.get("e_fill_color"), ctx, desc)
        ctx.state((str(case), form))
    ctx.outcome((cls, num, tuple(map(len, edges))))
    import matplotlib.pyplot as plt

    plt.close("all")


FONT = {}


def judge_labels(m, lab, fs, case, ctx, desc):
    want = [(i, l) for i, l in enumerate(lab or []) if l]
    ctx.check(sorted(t.get_text() for t in m.texts) == sorted(l for _, l in want), "labels", lambda: f"{desc}: labels drawn {[t.get_text() for t in m.texts]}, asked {lab}")
    for i, l in want:
        t = [t for t in m.texts if t.get_text() == l][0]
        x, y = t.get_position()
        ctx.check(abs(x - m.pos[i][0]) <= m.size[i] + 1e-6 and abs(y - m.pos[i][1]) <= 2 * m.size[i] + 1e-6, "label-position", lambda: f"{desc}: label {l} at {(x, y)}, its vertex at {m.pos[i]}")
        # default font size follows from the other form: compare ratio of sizes over scales
        key = (case[0], str(case[1]), i < (case[1][0] if case[0] == "bigraph" else 0))
        unit = t.get_fontsize() / fs[i]
        old = FONT.setdefault(key, unit)
        ctx.check(abs(unit - old) < 1e-6, "font-size", lambda: f"{desc}: label {l} has font size {t.get_fontsize()} for scale {fs[i]}; another scale implies {old * fs[i]}")


def edge_widths(m):
    ws = {round(float(p.get_linewidth()), 6) for ps in m.edges.values() for p in ps}
    return ws.pop() if len(ws) == 1 else None


def judge_edges(m, cls, order, circ, ecol, ew, base_w, fill, ctx, desc):
    ctx.check(base_w is not None, "edge-width", f"{desc}: default edge widths differ")
    P = m.P
    todo = [p for ps in m.edges.values() for p in ps]
    used = set()
    cand = {}
    for p in todo:
        cand.setdefault(tuple(np.round(p.get_edgecolor(), 4)), []).append(p)
    for ei, e in enumerate(order):
        s = sorted(set(e))
        pool = cand.get(rgba(ecol[ei]), []) if ecol else todo
        pool = [p for p in pool if id(p) not in used]
        if circ:
            # the arcs of an outline are centred on the hull members of its hyperedge
            if len(s) == 1:
                mine = [p for p in pool if isinstance(p, (P.Arc, P.Circle)) and near(p.center, m.pos[s[0]], 1e-6) and abs(abs(getattr(p, "theta2", 360) - getattr(p, "theta1", 0)) - 360) < 1e-6]
                ctx.check(len(mine) >= 1, "edge-missing", lambda: f"{desc}: no mark for the one-vertex edge {e}")
                mine = mine[:1]
            else:
                mine = outline(m, s, pool, ctx, f"{desc}: edge {e}", ecol is not None and len(set(ecol)) == len(ecol))
            for p in mine:
                used.add(id(p))
        elif len(s) == 1:
            mine = [p for p in pool if not isinstance(p, P.FancyArrow) and touches(p, m.pos[s[0]], m.size[s[0]])]
            ctx.check(len(mine) >= 1, "loop-missing", lambda: f"{desc}: no mark for the self-loop {e}")
            mine = mine[:1]
            used.add(id(mine[0]))
        else:
            mine = [p for p in pool if isinstance(p, P.FancyArrow) and joins(p, m, e, cls == "digraph")]
            ctx.check(len(mine) >= 1, "edge-missing", lambda: f"{desc}: no line between the vertices of edge {e}")
            mine = mine[:1]
            used.add(id(mine[0]))
        for p in mine:
            ctx.check(abs(p.get_linewidth() / base_w - ew[ei]) < 1e-3, "edge-width", lambda: f"{desc}: edge {e} is drawn with width scale {p.get_linewidth() / base_w}, asked {ew[ei]}")
            if fill and type(p) is P.PathPatch:
                f = fill if isinstance(fill, str) or not isinstance(fill[0], (str, list, tuple)) else fill[ei]
                ctx.check(tuple(np.round(p.get_facecolor(), 4)) == rgba(f), "edge-fill", lambda: f"{desc}: edge {e} is filled {p.get_facecolor()}, asked {f}")
    extra = [type(p).__name__ for p in todo if id(p) not in used]
    ctx.check(not extra, "extra-marks", lambda: f"{desc}: marks beyond the edges: {extra}")


def touches(p, pos, size):
    v = p.get_patch_transform().transform_path(p.get_path()).vertices
    return bool(np.linalg.norm(v - pos, axis=1).min() <= size * 1.6 and np.linalg.norm(v.mean(0) - pos) <= 4 * size)


def joins(p, m, e, directed):
    """The arrow polygon lies on the segment between the two vertex discs."""
    a, b = m.pos[e[0]], m.pos[e[1]]
    d = np.linalg.norm(b - a)
    u = (b - a) / d
    s, t = m.size[e[0]], d - m.size[e[1]]
    v = p.get_path().vertices[:-1] if len(p.get_path().vertices) > 3 else p.get_path().vertices
    v = p.get_patch_transform().transform(v)
    along, off = (v - a) @ u, np.abs((v - a) @ np.array([-u[1], u[0]]))
    lo, hi = min(s, t), max(s, t)
    ok = off.max() <= 0.1 and abs(along.min() - lo) < 0.002 and abs(along.max() - hi) < 0.002
    if ok and directed and t > s + 1e-3:
        # the head (the widest place) is at the destination's end
        w = along[off >= off.max() - 1e-9]
        ok = abs(along[np.argmin(off)] - t) < 0.03 or abs(w.mean() - t) < abs(w.mean() - s)
        if off.max() <= 0.0011:
            ok = False
    if not directed and off.max() > 1e-3:  # no head on an undirected edge
        ok = False
    return bool(ok)


def hull(pts):
    """Indices of the convex hull (generic position)."""
    n = len(pts)
    if n <= 3:
        return set(range(n))
    out = set()
    for i, j in itertools.permutations(range(n), 2):
        d = pts[j] - pts[i]
        c = [d[0] * (pts[k] - pts[i])[1] - d[1] * (pts[k] - pts[i])[0] for k in range(n) if k not in (i, j)]
        if all(x > 0 for x in c):
            out |= {i, j}
    return out


def outline(m, s, pool, ctx, desc, distinct):
    P = m.P
    h = {s[i] for i in hull(m.pos[s])}
    arcs = [p for p in pool if isinstance(p, P.Arc) and abs(abs(p.theta2 - p.theta1) - 360) > 1e-6]
    paths = [p for p in pool if type(p) is P.PathPatch]
    best = None
    for path in paths:
        v, c = path.get_path().vertices, path.get_path().codes
        if len(v) != 2 * len(h):
            continue
        got = []
        for i in range(0, len(v), 2):
            a, b = v[i], v[i + 1]
            # the arc that takes over where this line ends
            nxt = v[(i + 2) % len(v)]
            k = [p for p in arcs if abs(np.linalg.norm(b - p.center) - p.width / 2) < 1e-6 and abs(np.linalg.norm(nxt - p.center) - p.width / 2) < 1e-6 and any(near(p.center, m.pos[w]) for w in h) and p not in got]
            k = [p for p in k if {pt(p, p.theta1), pt(p, p.theta2)} == {r6(b), r6(nxt)}]
            if not k:
                break
            got.append(k[0])
            if abs(np.dot(b - a, b - k[0].center)) > 1e-6 * max(1.0, np.linalg.norm(b - a)):
                break
        else:
            at = sorted(w for p in got for w in h if near(p.center, m.pos[w]))
            if at == sorted(h):
                best = [path] + got
                break
    if best is None:
        ctx.fail("outline", f"{desc}: no closed outline around exactly the vertices {sorted(h)} (of {s}); {len(paths)} outlines and {len(arcs)} arcs in its colour")
    for p in best[1:]:
        w = [w for w in h if near(p.center, m.pos[w])][0]
        ctx.check(p.width / 2 > m.size[w], "outline-radius", f"{desc}: outline passes inside the vertex {w}")
    if distinct:
        ctx.check(len(paths) == 1 and len(arcs) == len(h), "outline-count", f"{desc}: {len(paths)} outlines and {len(arcs)} arcs in its colour")
    return best


def r6(x):
    return (round(float(x[0]) + 0.0, 5), round(float(x[1]) + 0.0, 5))


def pt(p, deg):
    t = math.radians(deg)
    return r6((p.center[0] + p.width / 2 * math.cos(t), p.center[1] + p.width / 2 * math.sin(t)))


def snapshot(g):
    import dhg

    extra = [str(g.e_of_group(x)) for x in g.group_names] if isinstance(g, dhg.Hypergraph) else []
    return (str(g.e), str(g.num_e), str(g), extra)


def pull(case, ctx):
    """With edge attraction only, the endpoints of the single edge approach each other, nothing else does."""
    import matplotlib.pyplot as plt

    _, cls, n, es, seed = case
    num, edges = edge_list(cls, n, es)
    g = build(cls, n, es)
    kw = dict(push_v_strength=0.0, push_e_strength=0.0, pull_e_strength=6.0 if cls == "hypergraph" else 1.0)
    kw.update(dict(push_u_strength=0.0, pull_u_center_strength=0.0, pull_v_center_strength=0.0) if cls == "bigraph" else dict(pull_center_strength=0.0))
    ctx.trace()
    ctx.step()
    still = Marks(draw(cls, g, seed, **dict(kw, pull_e_strength=0.0)), num, ctx, str(case)).pos
    m = Marks(draw(cls, g, seed, **kw), num, ctx, str(case)).pos
    plt.close("all")
    e = edges[0]
    rest = [i for i in range(num) if i not in e]
    back = np.zeros_like(m)
    for ax in (0, 1):  # undo the scaling into the picture: the unconnected vertices did not move
        k, c = np.polyfit(m[rest, ax], still[rest, ax], 1)
        back[:, ax] = k * m[:, ax] + c
    off = np.abs(back[rest] - still[rest]).max()
    ctx.check(off < 1e-3, "attraction-others", lambda: f"{case}: with edge attraction only, vertices without edges moved (by {off:.3f})")
    was, now = np.linalg.norm(still[e[0]] - still[e[1]]), np.linalg.norm(back[e[0]] - back[e[1]])
    ctx.state(str(case))
    ctx.outcome(str(case))
    ctx.check(now < max(0.5 * was, 0.03), "attraction", lambda: f"{case}: with edge attraction only, the endpoints of {es} go from {was:.3f} to {now:.3f} apart")


def content(ax):
    """everything on the axes, as plain values"""
    r = lambda x: np.round(np.asarray(x, dtype=float), 5).tolist()
    out = [["axes", r(ax.get_xlim()), r(ax.get_ylim())]]
    for c in ax.collections:
        out.append(["collection", [r(p.vertices) for p in c.get_paths()], r(c.get_facecolors()), r(c.get_edgecolors()), r(c.get_linewidths())])
    for p in ax.patches:
        out.append([type(p).__name__, r(p.get_transform().transform_path(p.get_path()).vertices), r(p.get_facecolor()), r(p.get_edgecolor()), float(p.get_linewidth())])
    for t in ax.texts:
        out.append(["text", t.get_text(), r(t.get_position()), float(t.get_fontsize()), list(t.get_fontfamily())])
    return out


SHAPES = {"graph": [(3, [[0, 1], [1, 2]]), (4, [[0, 1], [2, 2], [1, 3]]), (1, [[0, 0]]), (4, [[0, 1], [2, 3], [1, 2], [0, 3]])],
          "digraph": [(3, [[0, 1], [2, 1]]), (3, [[0, 0], [1, 2], [2, 1]]), (2, [[1, 0]]), (4, [[0, 1], [1, 2], [2, 3], [3, 0]])],
          "bigraph": [([2, 3], [[0, 0], [1, 2]]), ([3, 2], [[0, 1], [2, 0], [1, 1]]), ([1, 1], [[0, 0]]), ([2, 2], [[0, 0], [0, 1], [1, 0], [1, 1]])],
          "hypergraph": [(3, [[[0, 1], [0, 1, 2]]]), (4, [[[0, 1, 2], [3]], [[2, 3]]]), (2, [[[0]]]), (4, [[[0, 1, 2, 3]], [[0, 1], [2, 3]]])]}


def method(case, ctx):
    """obj.draw(...) is draw_<class>(obj, ...), argument by argument and for all arguments together; labels use the font asked for"""
    import matplotlib.pyplot as plt

    _, cls, k = case
    n, es = SHAPES[cls][k]
    num, edges = edge_list(cls, n, es)
    g = build(cls, n, es)
    before = snapshot(g)
    bi = cls == "bigraph"
    nv, ne = (n[1] if bi else num), g.num_e
    opts = dict(v_label=[f"v{i}" for i in range(nv)], v_size=[0.3 + 0.2 * i for i in range(nv)], v_color=COL[:nv], v_line_width=[1 + 2 * i for i in range(nv)], e_color=COL[4:4 + ne],
                e_line_width=[0.5 + i for i in range(ne)], font_family="monospace", push_v_strength=3.0, push_e_strength=0.3, pull_e_strength=0.4)
    if bi:
        nu = n[0]
        opts.update(u_label=[f"u{i}" for i in range(nu)], u_size=[0.5 + 0.1 * i for i in range(nu)], u_color=COL[8:8 + nu], u_line_width=[2.5 + i for i in range(nu)], u_font_size=0.7, v_font_size=1.9,
                    push_u_strength=0.2, pull_u_center_strength=0.6, pull_v_center_strength=1.7)
    else:
        opts.update(font_size=1.7, pull_center_strength=0.5)
    if cls in ("graph", "hypergraph"):
        opts.update(e_fill_color=COL[9:9 + ne], e_style="circle")
    if cls == "graph" and any(a == b for a, b in es):
        opts["e_style"] = "line"
    lab = {k: v for k, v in opts.items() if k.endswith("label")}
    tries = [{}, opts] + [{**lab, a: v} for a, v in opts.items()] + [{**opts, a: None} for a in opts if a.endswith("label")]
    seen = []
    for kw in tries:
        a = content(draw(cls, g, 3, **copy.deepcopy(kw)))
        plt.close("all")
        np.random.seed(3)
        given = copy.deepcopy(kw)
        g.draw(**given)
        ctx.step(2)
        b = content(plt.gcf().axes[0])
        plt.close("all")
        ctx.check(given == kw, "arguments-changed", f"{case}: draw({kw}) changed its arguments")
        ctx.check(snapshot(g) == before, "structure-changed", f"{case}: draw({kw}) changed the structure")
        ctx.check(a == b, "method", lambda: f"{case}: g.draw({kw}) and draw_{cls}(g, ...) differ at {[(x, y) for x, y in zip(a, b) if x != y][:1]}")
        fam = [x[4] for x in b if x[0] == "text" and x[1]]
        ctx.check(all(f == [kw.get("font_family", "sans-serif")] for f in fam), "font-family", lambda: f"{case}: draw({kw}) labels in {fam}")
        ctx.state((str(case), str(kw)))
    ctx.trace()
    ctx.outcome(str(case))


def reject(case, ctx):
    import dhg
    import matplotlib.pyplot as plt

    _, cls, k = case
    n = [2, 2] if cls == "bigraph" else 3
    es = [[[0, 1], [1, 2]]] if cls == "hypergraph" else [[0, 1], [1, 0 if cls == "bigraph" else 2]]
    g = build(cls, n, es)
    nv = 2 if cls == "bigraph" else 3
    bad = [dict(v_label=["a"] * (nv - 1)), dict(v_label=["a"] * (nv + 1)), dict(v_size=[1.0] * (nv + 1)), dict(v_size=[1.0] * (nv - 1)), dict(v_line_width=[1.0] * (nv - 1)),
           dict(v_color=["r"] * (nv - 1)), dict(e_color=["r"] * 3), dict(e_line_width=[1.0]), dict(e_style="wave"), "class", "empty"]
    bad.append(dict(e_fill_color=["r"]) if cls in ("graph", "hypergraph") else dict(u_size=[1.0] * 3) if cls == "bigraph" else dict(e_style="circle"))
    b = bad[k]
    ctx.step()
    ctx.state(str(case))
    if b == "class":
        g = dhg.Hypergraph(2, [(0, 1)]) if cls != "hypergraph" else dhg.Graph(2, [(0, 1)])
        b = {}
    elif b == "empty":
        g = build(cls, n, [[]] if cls == "hypergraph" else [])
        b = {}
    try:
        draw(cls, g, 0, **b)
    except (AssertionError, ValueError, IndexError, TypeError):
        return
    finally:
        plt.close("all")
    ctx.fail("not-rejected", f"draw_{cls} accepted {b} for {n} vertices and edges {es}")
