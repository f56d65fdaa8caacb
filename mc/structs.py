"""Reference models of the four structure classes, and the binding to the real classes.

A model is a plain dictionary of weighted edges plus the definitions of all public views as dense
numpy expressions.  `spec.new(init)` builds (real object, model); `spec.apply(obj, op)` /
`model.apply(op)` execute one JSON operation; `spec.views(obj, model)` yields
(name, thunk on the real object, expected value).
"""
import copy
import tempfile
import os
from pathlib import Path

import numpy as np

from .cmp import Wt, dense

MERGE = {"mean": lambda x, y: (x + y) / 2, "max": max, "sum": lambda x, y: x + y}


class Reject(Exception):
    """The model says: this call must be rejected (AssertionError/ValueError/TypeError) with no effect."""


REJECTED = (AssertionError, ValueError, TypeError, IndexError, KeyError)


def inv_pow(d, p):
    with np.errstate(divide="ignore", invalid="ignore"):
        r = np.asarray(d, dtype=float) ** p
    r[~np.isfinite(r)] = 0
    return r


def norm_edges(e_list):
    """documented input forms: one edge or a list of edges"""
    if len(e_list) == 2 and isinstance(e_list[0], int):
        return [tuple(e_list)]
    return [tuple(e) for e in e_list]


def tup(e_list):
    return [tuple(e) for e in e_list]


class GraphM:
    kind = "Graph"
    directed = False

    def __init__(self, n, extra=False):
        self.n, self.E, self.loops, self.extra = n, {}, {}, extra

    def copy(self):
        return copy.deepcopy(self)

    def key(self):
        return (self.kind, self.n, tuple(sorted(self.E.items())), tuple(sorted(self.loops.items())), self.extra)

    def _k(self, a, b):
        return (a, b) if (self.directed or a <= b) else (b, a)

    def apply(self, op):
        k = op[0]
        if k == "add":
            _, el, w, merge = op
            single = len(el) == 2 and isinstance(el[0], int)
            es = norm_edges(el)
            if w is None:
                ws = [1.0] * len(es)
            else:
                ws = [w] if single else w
            if es and max(max(e) for e in es) >= self.n:
                raise Reject()
            if es and merge not in MERGE:
                raise Reject()
            for (a, b), w_ in zip(es, ws):
                d, key = (self.loops, a) if a == b else (self.E, self._k(a, b))
                d[key] = MERGE[merge](d[key], w_) if key in d else w_
        elif k == "remove":
            es = norm_edges(op[1])
            if es and max(max(e) for e in es) >= self.n:
                raise Reject()
            for a, b in es:
                if a == b:
                    self.loops.pop(a, None)
                else:
                    self.E.pop(self._k(a, b), None)
        elif k == "xloop":
            self.extra = True
        elif k == "rmxloop":
            self.extra = False
        elif k == "rmloop":
            self.loops.clear()
            self.extra = False
        elif k == "clear":
            self.E.clear()
            self.loops.clear()
            self.extra = False
        elif k == "rev":
            self.E = {(b, a): w for (a, b), w in self.E.items()}
        elif k in ("clone", "save", "sd"):
            pass
        else:
            raise KeyError(k)

    def edges(self):
        r = [(e, w) for e, w in self.E.items()] + [((v, v), w) for v, w in self.loops.items()]
        if self.extra:
            r += [((v, v), 1.0) for v in range(self.n)]
        return r

    def A(self, loops=True, extra=None):
        A = np.zeros((self.n, self.n))
        for (a, b), w in self.E.items():
            A[a, b] += w
            if not self.directed:
                A[b, a] += w
        if loops:
            for v, w in self.loops.items():
                A[v, v] += w
        if (self.extra and loops) or extra:
            A += np.eye(self.n)
        return A


class DiGraphM(GraphM):
    kind = "DiGraph"
    directed = True


class BiGraphM:
    kind = "BiGraph"

    def __init__(self, nu, nv):
        self.nu, self.nv, self.E = nu, nv, {}

    def copy(self):
        return copy.deepcopy(self)

    def key(self):
        return (self.kind, self.nu, self.nv, tuple(sorted(self.E.items())))

    def apply(self, op):
        k = op[0]
        if k == "add":
            _, el, w, merge = op
            single = len(el) == 2 and isinstance(el[0], int)
            es = norm_edges(el)
            ws = [1.0] * len(es) if w is None else ([w] if single else w)
            if es and (max(e[0] for e in es) >= self.nu or max(e[1] for e in es) >= self.nv or merge not in MERGE):
                raise Reject()
            for e, w_ in zip(es, ws):
                self.E[e] = MERGE[merge](self.E[e], w_) if e in self.E else w_
        elif k == "remove":
            es = norm_edges(op[1])
            if es and (max(e[0] for e in es) >= self.nu or max(e[1] for e in es) >= self.nv):
                raise Reject()
            for e in es:
                self.E.pop(e, None)
        elif k == "clear":
            self.E.clear()
        elif k == "switch":
            self.nu, self.nv = self.nv, self.nu
            self.E = {(v, u): w for (u, v), w in self.E.items()}
        elif k in ("clone", "save", "sd"):
            pass
        else:
            raise KeyError(k)

    def B(self):
        B = np.zeros((self.nu, self.nv))
        for (u, v), w in self.E.items():
            B[u, v] += w
        return B


class HyperM:
    kind = "Hypergraph"

    def __init__(self, n, vw=None):
        self.n, self.G, self.vw = n, {}, list(vw) if vw else [1.0] * n
        self.vw_unknown = False

    def copy(self):
        return copy.deepcopy(self)

    def key(self):
        return (self.kind, self.n, tuple((g, tuple(sorted(d.items()))) for g, d in self.G.items()), tuple(self.vw))

    @staticmethod
    def _norm(el):
        if len(el) > 0 and isinstance(el[0], int):
            return [tuple(sorted(set(el)))]
        return [tuple(sorted(set(e))) for e in el]

    def apply(self, op):
        k = op[0]
        if k == "add":
            _, el, w, merge, g = op
            es = self._norm(el)
            ws = [1.0] * len(es) if w is None else ([w] * len(es) if isinstance(w, (int, float)) else w)
            if len(ws) != len(es):
                raise Reject()
            if merge not in MERGE:
                raise KeyError("merge")
            for e, w_ in zip(es, ws):
                d = self.G.setdefault(g, {})
                d[e] = MERGE[merge](d[e], w_) if e in d else float(w_)
        elif k == "remove":
            _, el, g = op
            if g is not None and g not in self.G:
                raise Reject()
            for e in self._norm(el):
                for name in list(self.G) if g is None else [g]:
                    self.G[name].pop(e, None)
        elif k == "rmgroup":
            self.G.pop(op[1], None)
        elif k == "clear":
            self.G.clear()
            if self.vw != [1.0] * self.n:
                self.vw_unknown = True  # whether clearing hyperedges resets vertex weights is unspecified
        elif k in ("clone", "save", "sd"):
            pass
        else:
            raise KeyError(k)

    def edges(self, g=None):
        """[(edge, weight)] in group order"""
        return [(e, w) for name, d in self.G.items() if g is None or name == g for e, w in d.items()]

    def H(self, edges):
        H = np.zeros((self.n, len(edges)))
        for j, (e, _) in enumerate(edges):
            for v in e:
                H[v, j] = 1
        return H


# ----------------------------------------------------------------------------------------------
def _dhg():
    import dhg

    return dhg


def _rt_save(obj):
    dhg = _dhg()
    fd, p = tempfile.mkstemp(suffix=".dhg")
    os.close(fd)
    try:
        obj.save(p)
        return dhg.load_structure(p)
    finally:
        os.unlink(p)


FORM = 0  # container forms of edge lists and weights handed in: bit 0 = outer tuple, bit 1 = inner tuples


def given(x, weights=False):
    """a fresh copy of an edge list (or of weights) in the current container form"""
    x = copy.deepcopy(x)
    if not FORM or not isinstance(x, list):
        return x
    if weights:
        return tuple(x) if FORM & 4 else x
    if x and isinstance(x[0], int):
        return tuple(x) if FORM & 3 else x
    x = [tuple(e) if FORM & 2 else e for e in x]
    return tuple(x) if FORM & 1 else x


def apply_real(obj, op):
    """Execute op on the real object; returns the object that carries the state on."""
    k = op[0]
    cls = type(obj).__name__
    if k == "add":
        if cls == "Hypergraph":
            kw = {}
            if op[2] is not None:
                kw["e_weight"] = given(op[2], True)
            if op[3] != "mean":
                kw["merge_op"] = op[3]
            if op[4] != "main":
                kw["group_name"] = op[4]
            obj.add_hyperedges(given(op[1]), **kw)
        else:
            el = given(op[1])
            if op[2] is None and op[3] == "mean":
                obj.add_edges(el)
            else:
                obj.add_edges(el, given(op[2], True), merge_op=op[3])
    elif k == "remove":
        if cls == "Hypergraph":
            obj.remove_hyperedges(given(op[1])) if op[2] is None else obj.remove_hyperedges(given(op[1]), op[2])
        else:
            obj.remove_edges(given(op[1]))
    elif k == "xloop":
        obj.add_extra_selfloop()
    elif k == "rmxloop":
        obj.remove_extra_selfloop()
    elif k == "rmloop":
        obj.remove_selfloop()
    elif k == "clear":
        obj.clear()
    elif k == "rev":
        obj.reverse_direction()
    elif k == "switch":
        return obj.switch_uv()
    elif k == "rmgroup":
        obj.remove_group(op[1])
    elif k == "clone":
        return obj.clone()
    elif k == "save":
        return _rt_save(obj)
    elif k == "sd":
        return type(obj).from_state_dict(obj.state_dict)
    else:
        raise KeyError(k)
    return obj


def new(init):
    """init: ["Graph", n, extra] | ["DiGraph", n, extra] | ["BiGraph", nu, nv] | ["Hypergraph", n, vweights|None],
    each optionally followed by constructor arguments [e_list, e_weight, merge_op]."""
    dhg = _dhg()
    k = init[0]
    ctor = copy.deepcopy(init[3]) if len(init) > 3 else None
    args, kw = [], {}
    if ctor is not None:
        args = [given(ctor[0])] + ([given(ctor[1], True)] if ctor[1] is not None else [])
        kw = {} if ctor[2] == "mean" else {"merge_op": ctor[2]}
    if k == "Graph":
        obj, m = dhg.Graph(init[1], *args, extra_selfloop=init[2], **kw), GraphM(init[1], init[2])
    elif k == "DiGraph":
        obj, m = dhg.DiGraph(init[1], *args, extra_selfloop=init[2], **kw), DiGraphM(init[1], init[2])
    elif k == "BiGraph":
        obj, m = dhg.BiGraph(init[1], init[2], *args, **kw), BiGraphM(init[1], init[2])
    else:
        vw = init[2]
        if vw:
            kw["v_weight"] = list(vw)
        obj, m = dhg.Hypergraph(init[1], *args, **kw), HyperM(init[1], vw)
    if ctor is not None:
        m.apply(["add", *init[3]] + (["main"] if k == "Hypergraph" else []))
    return obj, m


# -- observations ------------------------------------------------------------------------------
def _elist(e, directed):
    el, wl = e
    if len(el) != len(wl):
        return ("edge and weight lists differ in length", len(el), len(wl))
    r = []
    for (a, b), w in zip(el, wl):
        a, b = int(a), int(b)
        if not directed and a > b:
            a, b = b, a
        r.append((a, b, Wt(w)))
    return sorted(r)


def _trip(src, dst, w):
    s, d, w = src.tolist(), dst.tolist(), w.tolist()
    if not (len(s) == len(d) == len(w)):
        return ("length mismatch", len(s), len(d), len(w))
    return sorted((int(a), int(b), round(float(c), 4)) for a, b, c in zip(s, d, w))


def _nz(M):
    return sorted((int(i), int(j), round(float(M[i, j]), 4)) for i, j in zip(*np.nonzero(M)))


def store_views(m):
    """Views of the edge store only (S01/S03/S04/S05)."""
    if m.kind in ("Graph", "DiGraph"):
        exp = sorted((a, b, Wt(w)) for (a, b), w in m.edges())
        yield "v", (lambda g: list(g.v)), list(range(m.n))
        yield "num_v", (lambda g: g.num_v), m.n
        yield "e", (lambda g: _elist(g.e, m.directed)), exp
        yield "num_e", (lambda g: g.num_e), len(exp)
        if m.kind == "Graph":
            both = sorted(exp + [(b, a, Wt(w)) for (a, b), w in m.E.items()])
            yield "e_both_side", (lambda g: _elist(g.e_both_side, True)), both
    elif m.kind == "BiGraph":
        exp = sorted((a, b, Wt(w)) for (a, b), w in m.E.items())
        yield "num_u", (lambda g: g.num_u), m.nu
        yield "num_v", (lambda g: g.num_v), m.nv
        yield "u", (lambda g: list(g.u)), list(range(m.nu))
        yield "v", (lambda g: list(g.v)), list(range(m.nv))
        yield "e", (lambda g: _elist(g.e, True)), exp
        yield "num_e", (lambda g: g.num_e), len(exp)
    else:
        yield "num_v", (lambda g: g.num_v), m.n
        yield "v", (lambda g: list(g.v)), list(range(m.n))
        yield "num_e", (lambda g: g.num_e), len(m.edges())
        yield "num_groups", (lambda g: g.num_groups), len(m.G)
        yield "group_names", (lambda g: list(g.group_names)), list(m.G)
        if not m.vw_unknown:
            yield "v_weight", (lambda g: [float(x) for x in g.v_weight]), [Wt(x) for x in m.vw]
        for name in m.G:
            yield f"num_e_of_group({name})", (lambda g, name=name: g.num_e_of_group(name)), len(m.G[name])
            yield f"e_of_group({name})", (lambda g, name=name: _hlist(g.e_of_group(name))), _hexp(m.edges(name))
        yield "e", (lambda g: _hlist_groups(g)), [x for name in m.G for x in _hexp(m.edges(name))]


def _hlist(e):
    el, wl = e
    if len(el) != len(wl):
        return ("edge and weight lists differ in length", len(el), len(wl))
    return sorted((tuple(sorted(int(v) for v in x)), Wt(w)) for x, w in zip(el, wl))


def _hexp(edges):
    return sorted((e, Wt(w)) for e, w in edges)


def _hlist_groups(g):
    """whole edge list, sorted inside each group's segment (groups are concatenated in creation order)"""
    el, wl = g.e
    if len(el) != len(wl):
        return ("edge and weight lists differ in length", len(el), len(wl))
    r, pos = [], 0
    for name in g.group_names:
        k = g.num_e_of_group(name)
        r += _hlist((el[pos:pos + k], wl[pos:pos + k]))
        pos += k
    if pos != len(el):
        r.append(("extra hyperedges", len(el) - pos))
    return r


def diag_views(name, d):
    yield name, (lambda g: dense(getattr(g, name))), np.diag(d)


def derived_views(m, obj=None):
    """All public derived views with expected values."""
    if m.kind == "Graph":
        A = m.A()
        D = A.sum(1)
        yield "A", (lambda g: dense(g.A)), A
        yield "D_v", (lambda g: dense(g.D_v)), np.diag(D)
        yield "D_v_neg_1", (lambda g: dense(g.D_v_neg_1)), np.diag(inv_pow(D, -1))
        yield "D_v_neg_1_2", (lambda g: dense(g.D_v_neg_1_2)), np.diag(inv_pow(D, -0.5))
        yield "deg_v", (lambda g: [float(x) for x in g.deg_v]), [float(x) for x in D]
        yield "e_src/e_dst/e_weight", (lambda g: _trip(g.e_dst, g.e_src, g.e_weight)), _nz(A)
        for v in range(m.n):
            for hop in (1, 2, 3) if v not in (0, m.n - 1) else (1, 2, 3, 4, 5, 6, 8):
                Ak = np.linalg.matrix_power((A != 0).astype(float), hop)
                yield f"nbr_v({v},{hop})", (lambda g, v=v, hop=hop: sorted(g.nbr_v(v, hop) if hop > 1 else g.nbr_v(v))), \
                    [int(x) for x in np.nonzero(Ak[v])[0]]
        yield "N_v(0)", (lambda g: sorted(int(x) for x in g.N_v(0))), [int(x) for x in np.nonzero(A[0])[0]]
        A0 = m.A(loops=False)
        d0 = A0.sum(1)
        I = np.eye(m.n)
        yield "L", (lambda g: dense(g.L)), np.diag(d0) - A0
        s = np.diag(inv_pow(d0, -0.5))
        yield "L_sym", (lambda g: dense(g.L_sym)), I - s @ A0 @ s
        yield "L_rw", (lambda g: dense(g.L_rw)), I - np.diag(inv_pow(d0, -1)) @ A0
        A1 = A if m.extra else A + I
        s1 = np.diag(inv_pow(A1.sum(1), -0.5))
        yield "L_GCN", (lambda g: dense(g.L_GCN)), s1 @ A1 @ s1
    elif m.kind == "DiGraph":
        A = m.A()
        do, di = A.sum(1), A.sum(0)
        yield "A", (lambda g: dense(g.A)), A
        yield "A_T", (lambda g: dense(g.A_T)), A.T
        yield "D_v_in", (lambda g: dense(g.D_v_in)), np.diag(di)
        yield "D_v_out", (lambda g: dense(g.D_v_out)), np.diag(do)
        yield "D_v_in_neg_1", (lambda g: dense(g.D_v_in_neg_1)), np.diag(inv_pow(di, -1))
        yield "D_v_out_neg_1", (lambda g: dense(g.D_v_out_neg_1)), np.diag(inv_pow(do, -1))
        yield "deg_v_in", (lambda g: [float(x) for x in g.deg_v_in]), [float(x) for x in di]
        yield "deg_v_out", (lambda g: [float(x) for x in g.deg_v_out]), [float(x) for x in do]
        yield "e_src/e_dst/e_weight", (lambda g: _trip(g.e_src, g.e_dst, g.e_weight)), _nz(A)
        for v in range(m.n):
            yield f"nbr_v_in({v})", (lambda g, v=v: sorted(g.nbr_v_in(v))), [int(x) for x in np.nonzero(A[:, v])[0]]
            yield f"nbr_v_out({v})", (lambda g, v=v: sorted(g.nbr_v_out(v))), [int(x) for x in np.nonzero(A[v])[0]]
        yield "N_v_in(0)", (lambda g: sorted(int(x) for x in g.N_v_in(0))), [int(x) for x in np.nonzero(A[:, 0])[0]]
        yield "N_v_out(0)", (lambda g: sorted(int(x) for x in g.N_v_out(0))), [int(x) for x in np.nonzero(A[0])[0]]
    elif m.kind == "BiGraph":
        Bm = m.B()
        du, dv = Bm.sum(1), Bm.sum(0)
        Z = lambda a: np.zeros((a, a))
        A = np.block([[Z(m.nu), Bm], [Bm.T, Z(m.nv)]])
        yield "B", (lambda g: dense(g.B)), Bm
        yield "B_T", (lambda g: dense(g.B_T)), Bm.T
        yield "A", (lambda g: dense(g.A)), A
        yield "D_u", (lambda g: dense(g.D_u)), np.diag(du)
        yield "D_v", (lambda g: dense(g.D_v)), np.diag(dv)
        yield "D_u_neg_1", (lambda g: dense(g.D_u_neg_1)), np.diag(inv_pow(du, -1))
        yield "D_v_neg_1", (lambda g: dense(g.D_v_neg_1)), np.diag(inv_pow(dv, -1))
        yield "deg_u", (lambda g: [float(x) for x in g.deg_u]), [float(x) for x in du]
        yield "deg_v", (lambda g: [float(x) for x in g.deg_v]), [float(x) for x in dv]
        yield "e_u/e_v/e_weight", (lambda g: _trip(g.e_u, g.e_v, g.e_weight)), _nz(Bm)
        for u in range(m.nu):
            yield f"nbr_v({u})", (lambda g, u=u: sorted(g.nbr_v(u))), [int(x) for x in np.nonzero(Bm[u])[0]]
        for v in range(m.nv):
            yield f"nbr_u({v})", (lambda g, v=v: sorted(g.nbr_u(v))), [int(x) for x in np.nonzero(Bm[:, v])[0]]
        yield "N_v(0)", (lambda g: sorted(int(x) for x in g.N_v(0))), [int(x) for x in np.nonzero(Bm[0])[0]]
        yield "N_u(0)", (lambda g: sorted(int(x) for x in g.N_u(0))), [int(x) for x in np.nonzero(Bm[:, 0])[0]]
        A1 = A + np.eye(m.nu + m.nv)
        s = np.diag(inv_pow(A1.sum(1), -0.5))
        yield "L_GCN", (lambda g: dense(g.L_GCN)), s @ A1 @ s
    else:
        yield from hyper_views(m, obj)


def real_edges(obj, g=None):
    """Edge order as reported by the object itself (alignment of columns is checked against it)."""
    el, wl = obj.e if g is None else obj.e_of_group(g)
    return [(tuple(int(v) for v in e), float(w)) for e, w in zip(el, wl)]


def hyper_views(m, obj):
    """Column order of all matrices must be the order of the object's own edge list (a permutation of the
    model's edges inside every group, checked by store_views).  `obj` = None: model (insertion) order."""
    if not m.vw_unknown:
        yield "W_v", (lambda g: dense(g.W_v)), np.diag(m.vw)
    for gname in [None] + list(m.G):
        edges = order_edges(m, gname, obj)
        sfx = "" if gname is None else f"_of_group({gname})"

        def get(g, n, gname=gname):
            return getattr(g, n) if gname is None else getattr(g, n + "_of_group")(gname)

        Hm = m.H(edges)
        w = np.array([x for _, x in edges], dtype=float)
        de = Hm.sum(0)
        dv = (Hm * w).sum(1)
        W, De1 = np.diag(w), np.diag(inv_pow(de, -1))
        for n, exp in (("H", Hm), ("H_T", Hm.T), ("W_e", W), ("D_e", np.diag(de)), ("D_e_neg_1", De1), ("D_v", np.diag(dv)),
                       ("D_v_neg_1", np.diag(inv_pow(dv, -1))), ("D_v_neg_1_2", np.diag(inv_pow(dv, -0.5)))):
            yield n + sfx, (lambda g, n=n, get=get: dense(get(g, n))), exp
        yield "deg_v" + sfx, (lambda g, get=get: [float(x) for x in get(g, "deg_v")]), [float(x) for x in dv]
        yield "deg_e" + sfx, (lambda g, get=get: [float(x) for x in get(g, "deg_e")]), [float(x) for x in de]
        nz = _nz(Hm)
        yield "v2e_*" + sfx, (lambda g, get=get: _trip(get(g, "v2e_src"), get(g, "v2e_dst"), get(g, "v2e_weight"))), nz
        yield "e2v_*" + sfx, (lambda g, get=get: _trip(get(g, "e2v_dst"), get(g, "e2v_src"), get(g, "e2v_weight"))), nz
        for v in range(m.n):
            exp = [int(x) for x in np.nonzero(Hm[v])[0]]
            if gname is None:
                yield f"nbr_e({v})", (lambda g, v=v: sorted(g.nbr_e(v))), exp
            else:
                yield f"nbr_e_of_group({v},{gname})", (lambda g, v=v, gname=gname: sorted(g.nbr_e_of_group(v, gname))), exp
        for j in range(len(edges)):
            exp = sorted(edges[j][0])
            if gname is None:
                yield f"nbr_v({j})", (lambda g, j=j: sorted(g.nbr_v(j))), exp
            else:
                yield f"nbr_v_of_group({j},{gname})", (lambda g, j=j, gname=gname: sorted(g.nbr_v_of_group(j, gname))), exp
        s = np.diag(inv_pow(dv, -0.5))
        Lh = s @ Hm @ W @ De1 @ Hm.T @ s
        I = np.eye(m.n)
        yield "L_HGNN" + sfx, (lambda g, get=get: dense(get(g, "L_HGNN"))), Lh
        yield "L_sym" + sfx, (lambda g, get=get: dense(get(g, "L_sym"))), I - Lh
        yield "L_rw" + sfx, (lambda g, get=get: dense(get(g, "L_rw"))), I - np.diag(inv_pow(dv, -1)) @ Hm @ W @ De1 @ Hm.T


def order_edges(m, gname, obj):
    """The model's edges of a group (or all), in the order in which obj lists them."""
    if obj is None:
        return m.edges(gname)
    out = []
    for name in m.G if gname is None else [gname]:
        d = m.G[name]
        order = [tuple(sorted(int(v) for v in e)) for e in obj.e_of_group(name)[0]]
        if sorted(order) == sorted(d):
            out += [(e, d[e]) for e in order]
        else:
            out += list(d.items())
    return out


def views(m, obj=None):
    yield from store_views(m)
    yield from derived_views(m, obj)


# -- model-free snapshots ----------------------------------------------------------------------
SNAP = {
    "Graph": ["num_v", "num_e", "v", "e", "e_both_side", "A", "D_v", "D_v_neg_1", "D_v_neg_1_2", "deg_v", "e_src", "e_dst", "e_weight", "L", "L_sym", "L_rw", "L_GCN"],
    "DiGraph": ["num_v", "num_e", "v", "e", "A", "A_T", "D_v_in", "D_v_out", "D_v_in_neg_1", "D_v_out_neg_1", "deg_v_in", "deg_v_out", "e_src", "e_dst", "e_weight"],
    "BiGraph": ["num_u", "num_v", "num_e", "u", "v", "e", "A", "B", "B_T", "D_u", "D_v", "D_u_neg_1", "D_v_neg_1", "deg_u", "deg_v", "e_u", "e_v", "e_weight", "L_GCN"],
    "Hypergraph": ["num_v", "num_e", "v", "e", "v_weight", "group_names", "H", "H_T", "W_v", "W_e", "D_v", "D_e", "D_v_neg_1", "D_v_neg_1_2", "D_e_neg_1", "deg_v", "deg_e",
                   "v2e_src", "v2e_dst", "v2e_weight", "e2v_src", "e2v_dst", "e2v_weight", "L_sym", "L_rw", "L_HGNN"],
}
SNAP_STORE = ("num_v", "num_u", "num_e", "e", "v", "u", "v_weight", "group_names", "e_both_side")


def snapshot(obj, store_only=False):
    """All whole-structure views as plain values."""
    import torch

    def plain(x):
        if isinstance(x, torch.Tensor):
            return dense(x)
        if isinstance(x, tuple) and len(x) == 2:  # (edge list, weight list)
            return [[tuple(e) for e in x[0]], [float(w) for w in x[1]]]
        return copy.deepcopy(x)

    kind = type(obj).__name__
    out = {"class": kind}
    for n in SNAP[kind]:
        if not store_only or n in SNAP_STORE:
            out[n] = plain(getattr(obj, n))
    if kind == "Hypergraph":
        for g in obj.group_names:
            out[f"e_of_group({g})"] = plain(obj.e_of_group(g))
            if not store_only:
                for n in ("H", "W_e", "D_v", "D_e", "L_HGNN"):
                    out[f"{n}_of_group({g})"] = plain(getattr(obj, n + "_of_group")(g))
    return out


def snap_diff(a, b):
    """Name of the first differing view, or None."""
    from .cmp import same

    for k in list(a) + [k for k in b if k not in a]:
        if k not in a or k not in b or not same(b[k], a[k]):
            return k
    return None
