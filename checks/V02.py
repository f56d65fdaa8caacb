"""Feature visualisation: Poincare-ball projection, manifold maps and scatter plots."""
import itertools

import numpy as np

from mc.big import Lcg

PID = "V02"
LEVEL = "model_checking"
CHUNK = {"quick": 40, "thorough": 80}
C = 2.0
BOUNDS = {
    "quick": "every embedding matrix over {-1,0,2} with 3x3 and 2x3 entries (up to row order), chosen 4-6 row matrices incl. coinciding, collinear, tiny and huge rows, float32/float64, dimension 2 and 3, matrices of 12-130 rows x 3-33 columns at three magnitudes, PCA (t-SNE on a few 40-row inputs); manifold maps on every vector over {-3,-0.5,0,1e-9,0.7,12} of dimension 1-3, curvatures 0.5, 1, 2; 2-D and 3-D scatter plots and animations (frames included) on the ball and in Euclidean space with and without labels and colour maps",
    "thorough": "as quick with entries over {-1,0,2,0.5} and 4x2",
}
ASSUME = ["PCA needs at least as many rows and columns (plus one) as dimensions, t-SNE more rows than its perplexity", "maps invert each other where tanh is not saturated in double precision"]


def cases(tier):
    vals = [-1.0, 0.0, 2.0] + ([0.5] if tier == "thorough" else [])
    rows = list(itertools.product(vals, repeat=3))
    for k, m in enumerate(itertools.combinations_with_replacement(range(len(rows)), 3)):
        if tier == "quick" and k % 3:
            continue
        yield ["proj", [rows[i] for i in m], 2 + k % 2]
    for k, m in enumerate(itertools.combinations_with_replacement(range(len(rows)), 2)):
        yield ["proj", [rows[i] for i in m], 2]
    for m in ([[1, 0, 0]] * 4, [[0, 0, 0]] * 3, [[1e-12, 0, 0], [0, 1e-12, 0], [1e12, 1, 0], [0, 0, 0]], [[1, 2, 3], [2, 4, 6], [-1, -2, -3], [3, 6, 9]], [[1, 0, 0, 5], [0, 1, 0, 5], [0, 0, 1, 5], [1, 1, 1, 5], [0, 0, 0, 0], [2, 1, 0, 0]], [[1e-20, 1e-20, 0], [1, 0, 0], [0, 1, 0]]):
        for d in (2, 3):
            yield ["proj", m, d]
    for n, k in ((12, 4), (17, 7), (40, 16), (64, 3), (130, 33)):
        for t in range(6 if tier == "thorough" else 3):
            r = Lcg(n * 50 + k + t)
            m = [[(r(2001) - 1000) / [1000, 7, 1e-3][t % 3] for _ in range(k)] for _ in range(n)]
            for i in range(0, n, 9):
                m[i] = [0.0] * k if t % 2 else list(m[(i * 5 + 3) % n])
            for d in (2, 3):
                yield ["proj", m, d]
    for n in (1, 2, 3):
        for c in (0.5, 1.0, 2.0):
            yield ["maps", n, c]
    for d in (2, 3):
        for lab in (0, 1):
            for src in range(7):
                yield ["plot", d, lab, src]
    yield ["tsne", 2]
    yield ["tsne", 3]
    yield ["reject"]


def run(case, ctx):
    import warnings

    warnings.simplefilter("ignore")
    ctx.count(case[0])
    globals()["do_" + case[0]](case, ctx)


def judge(P, n, dim, desc, ctx):
    ctx.check(isinstance(P, np.ndarray) and P.shape == (n, dim), "shape", lambda: f"{desc}: result {getattr(P, 'shape', None)}")
    ctx.check(np.isfinite(P).all(), "finite", lambda: f"{desc}: {P.tolist()}")
    ctx.check((np.linalg.norm(P.astype(float), axis=1) < 1 / np.sqrt(C)).all(), "ball", lambda: f"{desc}: norms {np.linalg.norm(P, axis=1)} leave the ball of curvature {C}")


def do_proj(case, ctx):
    from dhg.visualization import project_to_poincare_ball

    _, m, dim = case
    for dt in (np.float64, np.float32):
        X = np.array(m, dtype=dt)
        if min(X.shape[0], X.shape[1] + 1) < dim:
            return
        Y = X.copy()
        P = project_to_poincare_ball(Y, dim) if dt == np.float64 else project_to_poincare_ball(Y, dim=dim, reduce_method="pca")
        ctx.step()
        ctx.trace()
        desc = f"project_to_poincare_ball({m}, {dim}) {dt.__name__}"
        ctx.check(np.array_equal(X, Y), "input-changed", desc)
        judge(P, len(m), dim, desc, ctx)
        # a projection of the rows' directions: equal directions give equal points, rescaling a row changes nothing
        n = np.linalg.norm(X.astype(float), axis=1, keepdims=True)
        D = X / np.where(n == 0, 1, n)
        for i, j in itertools.combinations(range(len(m)), 2):
            if np.allclose(D[i], D[j], atol=1e-9):
                ctx.check(np.allclose(P[i], P[j], atol=1e-3), "equal-rows", lambda: f"{desc}: rows {i} and {j} coincide but are drawn at {P[i]} and {P[j]}")
        if dt == np.float64:
            G = np.linalg.svd(D - D.mean(0), compute_uv=False)
            if (G[:dim] > 1e-6).all() and abs(np.diff(G[:dim + 1])).min() > 1e-3:
                Q = project_to_poincare_ball(X * np.arange(2, len(m) + 2)[:, None], dim)
                ctx.check(np.allclose(np.sort(np.abs(P), 0), np.sort(np.abs(Q), 0), atol=1e-6), "scale", lambda: f"{desc}: rescaling the rows gives {Q.tolist()}, was {P.tolist()}")
                # coordinates follow the principal components monotonically
                U, S, _ = np.linalg.svd(D - D.mean(0), full_matrices=False)
                Z = U[:, :dim] * S[:dim]
                Z = (Z - Z.min(0)) / (Z.max(0) - Z.min(0)) * 4 - 2
                ok = any(np.allclose(P, reflect(Z, s), atol=1e-4) for s in itertools.product((0, 1), repeat=dim))
                ctx.check(ok, "definition", lambda: f"{desc}: {P.tolist()}, defined (up to reflection) {reflect(Z, (0,) * dim).tolist()}")
                ctx.count("compared with the definition")
        ctx.state((str(m), dim, dt.__name__))
    ctx.outcome((len(m), dim))


def reflect(Z, signs):
    Z = np.where(np.array(signs) == 1, -Z, Z)  # the range [-2,2] is symmetric
    r = np.linalg.norm(Z, axis=1, keepdims=True)
    E = np.tanh(np.sqrt(C) * r) * Z / np.where(r == 0, 1, np.sqrt(C) * r)
    k = np.linalg.norm(E, axis=1, keepdims=True)
    mx = (1 - 1e-5) / np.sqrt(C)
    return np.where(k > mx, E / np.where(k == 0, 1, k) * mx, E)


def do_maps(case, ctx):
    from dhg.visualization.feature import utils as U

    _, n, c = case
    f = {k: getattr(U, k, None) for k in ("expmap0", "logmap0", "proj")}
    if not all(f.values()):
        ctx.note("manifold maps are not exposed under their names")
        return
    expmap0, logmap0, proj = (f[k] for k in ("expmap0", "logmap0", "proj"))
    vecs = np.array(list(itertools.product([-3.0, -0.5, 0.0, 1e-9, 0.7, 12.0], repeat=n)))
    R = 1 / np.sqrt(c)
    for form, V in (("batch", vecs), ("rows", None)):
        for v in ([vecs] if form == "batch" else [vecs[i:i + 1] for i in range(len(vecs))]):
            w = v.copy()
            e, p = expmap0(w, c), proj(w, c)
            pe = proj(e, c)
            ctx.step(3)
            ctx.trace()
            ctx.check(np.array_equal(v, w), "input-changed", f"maps changed {v}")
            for x, y, q, z in zip(v, e, p, pe):
                r = np.linalg.norm(x)
                d = f"curvature {c}, {x.tolist()}"
                want = np.tanh(min(np.sqrt(c) * r, 15)) * x / (np.sqrt(c) * r) if r else x * 0
                ctx.check(np.allclose(y, want, atol=1e-9), "exp", lambda: f"{d}: exp at the origin {y}, defined {want}")
                ctx.check(np.linalg.norm(y) <= R + 1e-12 and np.linalg.norm(z) < R, "exp-ball", lambda: f"{d}: {y} / {z}")
                wantp = x if r <= (1 - 1e-5) * R else x / r * (1 - 1e-5) * R
                ctx.check(np.allclose(q, wantp, atol=1e-9) and np.linalg.norm(q) < R, "proj", lambda: f"{d}: projected to {q}, defined {wantp}")
                ctx.check(np.array_equal(proj(q[None], c)[0], q) or np.allclose(proj(q[None], c)[0], q, atol=1e-12), "proj-idempotent", d)
                if np.sqrt(c) * r < 5:
                    back = logmap0(y[None], c)[0]
                    ctx.check(np.allclose(back, x, atol=1e-5, rtol=1e-5), "log-exp", lambda: f"{d}: log(exp) = {back}")
                l = logmap0(q[None], c)[0]
                ctx.check(np.isfinite(l).all() and np.allclose(expmap0(l[None], c)[0], q, atol=1e-9), "exp-log", lambda: f"{d}: log of {q} is {l}")
                ctx.state((c, tuple(x)))
    ctx.outcome((n, c))


def do_plot(case, ctx):
    import dhg.visualization as V
    import matplotlib.pyplot as plt

    _, dim, lab, src = case
    rng = np.random.RandomState(src)
    X = [rng.randn(6, 4), np.ones((5, 4)), np.vstack([np.eye(4), np.zeros((1, 4))]), rng.randn(7, 5).astype(np.float32), rng.randn(40, 9), rng.randn(130, 4) * 50, np.vstack([rng.randn(15, 6)] * 2)][src]
    label = (np.arange(len(X)) * 7 + len(X)) % [3, 3, 3, 3, 12, 40, 5][src] if lab else None
    l0 = None if label is None else label.copy()
    x0 = X.copy()
    plt.close("all")
    V.draw_in_poincare_ball(X, label, dim=dim) if lab else V.draw_in_poincare_ball(X, dim=dim)
    ctx.step()
    ctx.trace()
    ctx.check(np.array_equal(X, x0) and (label is None or np.array_equal(label, l0)), "input-changed", str(case))
    P = V.project_to_poincare_ball(X, dim)
    scatter(plt, len(X), dim, label, case, ctx, P)
    plt.close("all")
    V.draw_in_poincare_ball(X, label, dim, "pca", "plasma")
    scatter(plt, len(X), dim, label, case, ctx, P, "plasma" if lab else None)
    if dim == 3:
        plt.close("all")
        for cmap in (None, "plasma"):
            plt.close("all")
            ani = V.animation_of_3d_poincare_ball(X, label, **({"cmap": cmap} if cmap else {}))
            ctx.step()
            spin(ani, lambda: scatter(plt, len(X), 3, label, case, ctx, P, cmap if lab else None), plt, ctx, case)
    plt.close("all")
    ctx.state(str(case))
    ctx.outcome(str(case))


def scatter(plt, n, dim, label, case, ctx, P=None, cmap=None):
    ax = plt.gcf().axes[0]
    cs = [c for c in ax.collections]
    ctx.check(len(cs) >= 1, "points", f"{case}: {len(cs)} scatter collections")
    c = cs[0]
    xs = np.array(c._offsets3d).T if dim == 3 else np.array(c.get_offsets())
    ctx.check(np.ma.is_masked(xs) is False and xs.shape == (n, dim) and np.isfinite(np.asarray(xs, dtype=float)).all(), "points", lambda: f"{case}: plotted {xs} for {n} rows")
    ctx.check((xs >= 0).all() and (xs <= 1).all(), "points-outside", lambda: f"{case}: {xs.tolist()}")
    lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else [])
    ctx.check(all(min(l) <= x <= max(l) for r in xs.tolist() for x, l in zip(r, lims)), "points-hidden", lambda: f"{case}: axes {lims} do not show all of {xs.tolist()}")
    if P is not None:  # each row at its own projection, up to the scaling of the axes
        for k in range(dim):
            x, y = P[:, k].astype(float), np.asarray(xs[:, k], dtype=float)
            if x.max() - x.min() > 1e-6:
                a, b = np.polyfit(x, y, 1)
                ctx.check(np.allclose(a * x + b, y, atol=1e-5), "points-rows", lambda: f"{case}: axis {k} plots {y.tolist()} for the projected rows {x.tolist()}")
    if cmap:
        ctx.check(c.get_cmap().name == cmap, "colour-map", f"{case}: {c.get_cmap().name} instead of {cmap}")
    if label is not None:
        a = c.get_array()
        ctx.check(a is not None and np.array_equal(np.asarray(a), label), "point-colours", lambda: f"{case}: colours {a} for labels {label}")


def do_tsne(case, ctx):
    import dhg.visualization as V
    import matplotlib.pyplot as plt
    from sklearn.manifold import TSNE

    dim = case[1]
    X = np.random.RandomState(3).randn(40, 6)
    x0 = X.copy()
    judge(V.project_to_poincare_ball(X, dim, "tsne"), 40, dim, str(case), ctx)
    for label in (np.arange(40) % 4, None):
        np.random.seed(1)
        P = TSNE(n_components=dim, init="pca").fit_transform(X)
        forms = [lambda **k: V.draw_in_euclidean_space(X, label, dim=dim, **k)]
        if dim == 3:
            forms.append(lambda **k: V.animation_of_3d_euclidean_space(X, label, **k))
        for f, cmap in itertools.product(forms, (None, "plasma")):
            plt.close("all")
            np.random.seed(1)
            ani = f(**({"cmap": cmap} if cmap else {}))
            if ani is not None and f is not forms[0]:
                spin(ani, lambda: scatter(plt, 40, dim, label, case, ctx, P, cmap if label is not None else None), plt, ctx, case)
            scatter(plt, 40, dim, label, case, ctx, P, cmap if label is not None else None)
            ctx.step()
    ctx.trace()
    ctx.check(np.array_equal(X, x0), "input-changed", str(case))
    plt.close("all")
    ctx.state(str(case))
    ctx.outcome(str(case))


def spin(ani, look, plt, ctx, case):
    """the frames of an animation turn the view once around; every frame shows every row"""
    ani._draw_was_started = True
    ani._init_draw()
    frames = list(ani.new_frame_seq())
    az = []
    for k in range(0, len(frames), max(1, len(frames) // 8)):
        ani._draw_frame(frames[k])
        ctx.step()
        look()
        az.append(round(plt.gcf().axes[0].azim % 360, 3))
    ctx.check(len(frames) > 1 and len(set(az)) == len(az), "frames", lambda: f"{case}: {len(frames)} frames with views from {az}")


def do_reject(case, ctx):
    import dhg.visualization as V

    X = np.random.RandomState(3).randn(40, 6)
    for a in ((X, 1), (X, 4), (X, 2, "other")):
        ctx.step()
        try:
            V.project_to_poincare_ball(*a)
        except (AssertionError, ValueError):
            continue
        ctx.fail("not-rejected", f"{a[1:]}")
