"""Data-pipe transforms and loaders on every small matrix and every small file."""
import itertools
import json
import math
import os
import pickle
import shutil
import tempfile
from pathlib import Path

import numpy as np
import scipy.sparse as sp
import torch

from mc.big import Lcg

PID = "D01"
LEVEL = "model_checking"
CHUNK = {"quick": 60, "thorough": 200}
BOUNDS = {
    "quick": "every matrix over {-2,0,1} up to 2x3/3x2 and over {-1.5,0,0.25,3} up to 2x2, as 1-D and 2-D float32/float64 input, for norms none,1,2,0,inf,-inf and 4 scaling ranges; conversions of the same values as list, ndarray, tensor, csr, coo in 5 number types; every composition of up to 3 of 5 steps; every text file of up to 3 lines over 14 line forms x 4 separators x 4 types x header 0-3 x final newline; json/pickle files with every key selection; every vector and 2x2 matrix over 4 values at 8 offset/step pairs (up to 1.6e9 / 128); 21 unusual characters inside text fields, keys and values; fixed matrices up to 257x12 / 3x130 at four magnitudes and files up to 1000 lines / 257 fields with seven separators",
    "thorough": "as quick with matrices over {-2,0,1,0.5} up to 2x3/3x2 and text files of up to 4 lines",
}
ASSUME = ["scaling and normalising take finite values of moderate magnitude (no overflow or underflow of the squares in single precision)", "blank lines are rejected, skipped or (for text columns) given as one empty field", "fields that cannot be converted make the loader raise"]
LINES = ["1", "1 2", "3,4", "5\t6", "7,8 9", "", " 1 2 ", "a", "1  2", "1.5", "2 a", "10;11", "-3 0", "1 2,"]
SEPS = [None, " ", ",", ";| "]


def cases(tier):
    th = tier == "thorough"
    vals = [-2.0, 0.0, 1.0] + ([0.5] if th else [])
    for shape in ((1,), (2,), (3,), (1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (2, 3), (3, 2)):
        for first in itertools.product(vals, repeat=min(2, math.prod(shape))):
            yield ["mat", list(shape), list(first), vals]
    for shape in ((2,), (2, 2)):
        for first in itertools.product([-1.5, 0.0, 0.25, 3.0], repeat=2):
            yield ["mat", list(shape), list(first), [-1.5, 0.0, 0.25, 3.0]]
    for shape in ((2,), (3,), (2, 2)) + (((2, 3), (3, 2)) if th else ()):
        for base, step in ((1e4, 1.0), (1e7, 1.0), (-1e7, 2.0), (1.6e9, 128.0), (-3e5, 0.25), (0.0, 1e-6), (0.0, 1e6), (1e-3, 1e-8)):
            yield ["off", list(shape), base, step]
    for i in range(12):
        yield ["conv", i]
    for n in range(4):
        for steps in itertools.product(range(5), repeat=n):
            yield ["pipe", list(steps)]
    for n in range(4 + th):
        for ls in itertools.product(range(len(LINES)), repeat=n):
            if n == 4 and len(set(ls)) < 3:
                continue
            yield ["txt", list(ls)]
    for i in range(8):
        yield ["obj", i]
    for i in range(len(ODD)):
        yield ["odd", i]
    yield ["bad"]
    for n, m in ((40, 33), (3, 130), (130, 3), (257, 12), (1, 300), (300, 1)) + (((2000, 40), (41, 1500)) if th else ()):
        for s in range(3):
            for mag in (1.0, 1e-3, 1e3, 1e6):
                yield ["large", n, m, s, mag]
    for n, m in ((12, 40), (300, 3), (1000, 1), (5, 257)) + (((20000, 4),) if th else ()):
        for s in range(4):
            yield ["longtxt", n, m, s]


def run(case, ctx):
    ctx.count(case[0])
    globals()["do_" + case[0]](case, ctx)


def nrm(row, o):
    a = [abs(x) for x in row]
    if o is None or o == 2:
        return math.sqrt(sum(x * x for x in a))
    if o == 0:
        return float(sum(x != 0 for x in a))
    if o == math.inf:
        return max(a)
    if o == -math.inf:
        return min(a)
    return sum(x ** o for x in a) ** (1 / o)


def do_mat(case, ctx):
    from dhg.datapipe import min_max_scaler, norm_ft

    _, shape, first, vals = case
    n = math.prod(shape)
    for rest in itertools.product(vals, repeat=n - len(first)):
        flat = list(first) + list(rest)
        ctx.trace()
        ctx.state((tuple(shape), tuple(flat)))
        for dt in (torch.float32, torch.float64):
            X = torch.tensor(flat, dtype=dt).reshape(shape)
            rows = [flat] if len(shape) == 1 else [flat[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]
            for o in (None, 1, 2, 0, math.inf, -math.inf) if dt == torch.float32 else (None, 3):
                Y = X.clone()
                got = norm_ft(Y, o) if o != 2 else norm_ft(Y, ord=2)
                ctx.step()
                want = [[x / nrm(r, o) if nrm(r, o) > 0 else 0.0 for x in r] for r in rows]
                ctx.check(torch.equal(X, Y), "input-changed", f"norm_ft changed {X}")
                ctx.check(got.shape == X.shape and np.allclose(got.double().numpy().reshape(-1), np.array(want).reshape(-1), atol=1e-6), "norm", lambda: f"norm_ft({X.tolist()}, ord={o}) = {got.tolist()}, defined {want}")
            for lo, hi in ((0, 1), (-1, 1), (2.5, 7), (-3, -1)):
                Y = X.clone()
                got = min_max_scaler(Y, lo, hi)
                ctx.step()
                mn, mx = min(flat), max(flat)
                want = [lo + (x - mn) * (hi - lo) / (mx - mn) if mx > mn else lo for x in flat]
                ctx.check(torch.equal(X, Y), "input-changed", f"min_max_scaler changed {X}")
                ctx.check(got.shape == X.shape and np.allclose(got.double().numpy().reshape(-1), want, atol=1e-5), "min-max", lambda: f"min_max_scaler({X.tolist()}, {lo}, {hi}) = {got.tolist()}, defined {want}")
        ctx.outcome(tuple(sorted(set(flat))))


def do_off(case, ctx):
    """Inputs whose spread is small against their offset."""
    from dhg.datapipe import min_max_scaler, norm_ft

    _, shape, base, step = case
    for ks in itertools.product((0, 1, 3, 4), repeat=math.prod(shape)):
        for dt in (torch.float32, torch.float64):
            X = torch.tensor([base + k * step for k in ks], dtype=dt).reshape(shape)
            flat = X.double().reshape(-1).tolist()
            ctx.trace()
            for lo, hi in ((0, 1), (-1, 1), (2.5, 7)):
                Y = X.clone()
                got = min_max_scaler(Y, lo, hi)
                ctx.step()
                mn, mx = min(flat), max(flat)
                want = [lo + (x - mn) * (hi - lo) / (mx - mn) if mx > mn else lo for x in flat]
                ctx.check(torch.equal(X, Y), "input-changed", f"min_max_scaler changed {X}")
                ctx.check(got.shape == X.shape and np.allclose(got.double().numpy().reshape(-1), want, rtol=0, atol=1e-5), "min-max", lambda: f"min_max_scaler({flat} as {dt}, {lo}, {hi}) = {got.tolist()}, defined {want}")
            rows = [flat] if len(shape) == 1 else [flat[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]
            for o in (None, 1, math.inf):
                want = [x / nrm(r, o) if nrm(r, o) > 0 else 0.0 for r in rows for x in r]
                got = norm_ft(X, ord=o)
                ctx.step()
                ctx.check(got.shape == X.shape and np.allclose(got.double().numpy().reshape(-1), want, rtol=0, atol=1e-6), "norm", lambda: f"norm_ft({flat}, ord={o}) = {got.tolist()}, defined {want}")
        ctx.outcome((case[2], tuple(sorted(set(ks)))))


def do_large(case, ctx):
    from dhg.datapipe import min_max_scaler, norm_ft, to_bool_tensor, to_long_tensor, to_tensor

    _, n, m, s, mag = case
    r = Lcg(n * 1000 + m + s)
    A = np.array([[0.0 if r([2, 9, 30][s]) == 0 else (r(2001) - 1000) / 128 for _ in range(m)] for _ in range(n)])
    for i in range(0, n, 11):
        A[i] = 0
    A = A * mag
    ctx.trace()
    for dt in (torch.float32, torch.float64):
        X = torch.tensor(A, dtype=dt)
        for x in (X, X[n // 2], X.t().contiguous().t(), X + 20 * mag, X - 9 * mag):
            for o in (None, 1, 2, 0, math.inf, -math.inf):
                x0 = x.clone()
                got = norm_ft(x, ord=o)
                ctx.step()
                y = x0.double().numpy()
                y = y[None] if y.ndim == 1 else y
                nr = np.array([nrm(row, o) for row in y])[:, None]
                want = np.where(nr > 0, y / np.where(nr > 0, nr, 1), 0.0).reshape(x.shape)
                ctx.check(torch.equal(x, x0), "input-changed", f"{case} norm_ft")
                g = got.double().numpy()
                bad = np.argwhere(~(np.abs(g - want) <= 1e-5 + 1e-5 * np.abs(want))) if g.shape == want.shape else [["shape", g.shape]]
                ctx.check(len(bad) == 0, "norm", lambda: f"norm_ft of the {n}x{m} matrix {case} ord={o}: entries {[list(b) for b in bad[:5]]} wrong")
            for lo, hi in ((0, 1), (-1, 1), (2.5, 7), (-300, -100)):
                x0 = x.clone()
                g = min_max_scaler(x, lo, hi).double().numpy()
                ctx.step()
                y = x0.double().numpy()
                mn, mx = y.min(), y.max()
                want = lo + (y - mn) * (hi - lo) / (mx - mn) if mx > mn else np.full_like(y, lo)
                ctx.check(g.shape == want.shape and np.allclose(g, want, rtol=1e-5, atol=1e-5 * (hi - lo) + 1e-6), "min-max", lambda: f"min_max_scaler({lo}, {hi}) of the matrix {case}")
                ctx.check(torch.equal(x, x0), "input-changed", f"{case} min_max_scaler")
    for name, x in (("ndarray", A.copy()), ("list", A.tolist()), ("tensor", torch.tensor(A)), ("csr", sp.csr_matrix(A)), ("coo", sp.coo_matrix(A)), ("ndarray F", np.asfortranarray(A)), ("view", np.repeat(A, 2, 0)[::2])):
        ctx.step(3)
        got = to_tensor(x)
        ctx.check(got.dtype == torch.float32 and torch.equal(got, torch.from_numpy(A.copy()).float()), "convert", f"to_tensor({name}) of {case}")
        if name in ("csr", "coo"):
            continue
        got = to_bool_tensor(x)
        ctx.check(got.dtype == torch.bool and np.array_equal(got.numpy(), A != 0), "convert", f"to_bool_tensor({name}) of {case}")
        got = to_long_tensor(x)
        ctx.check(got.dtype == torch.int64 and np.array_equal(got.numpy(), np.trunc(A).astype(np.int64)), "convert", f"to_long_tensor({name}) of {case}")
    big = [2**40 + 5, -2**40, 2**24 + 1, 0, 1]
    ctx.check(to_long_tensor(big).tolist() == big and to_long_tensor(np.array(big)).tolist() == big and to_long_tensor(torch.tensor(big)).tolist() == big, "convert-large", f"to_long_tensor({big})")
    ctx.check(to_bool_tensor([0.25, -0.5, 0.0, 1e-9]).tolist() == [True, True, False, True], "convert", "to_bool_tensor of fractions")
    ctx.state((n, m, s, mag))
    ctx.outcome((n, m, s, mag))


def do_longtxt(case, ctx):
    from dhg.datapipe import load_from_json, load_from_pickle, load_from_txt

    _, n, m, s = case
    r = Lcg(n * 1000 + m + s)
    base = Path(tempfile.mkdtemp(prefix="d01-", dir=os.environ["HOME"]))
    try:
        ints = [[r(10 ** (1 + r(15))) - r(1000) for _ in range(1 + r(m))] for _ in range(n)]
        forms = [repr, lambda x: f"{x:.3e}", lambda x: f"{x:+.5f}", lambda x: f"{x:010.2f}"]
        ctx.trace()
        for sep_i, (sep, join) in enumerate(((None, ","), (None, " "), (None, "\t"), ("::", "::"), ("\\|", "|"), (r"\s+", "   "), (";|,", ";"))):
            text = [join.join(str(x) for x in row) for row in ints]
            fl = [[forms[r(4)](x / 7) for x in row] for row in ints]
            for hd in (0, 1, 2, n // 2, n - 1, n):
                head = text[:hd] if s % 2 else [f"# {i} header a,b" for i in range(hd)]
                for body, dt, want in ((text, "int", ints), (text, "str", [[str(x) for x in row] for row in ints]), ([join.join(x) for x in fl], "float", [[float(x) for x in row] for row in fl]), (text, lambda t: len(t), [[len(str(x)) for x in row] for row in ints])):
                    (base / "f.txt").write_text("\n".join(head + body) + ("\n" if (hd + s) % 2 else ""))
                    kw = {"sep": sep} if sep else {}
                    got = load_from_txt(base / "f.txt", dt, ignore_header=hd, **kw) if hd else load_from_txt(base / "f.txt", dt, **kw)
                    ctx.step()
                    ctx.check(got == want, "content", lambda: f"{case} separator {join!r} header {hd} {dt}: first difference at line {next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))} of {len(want)}: read {len(got)} lines")
                    ctx.check(all(type(x) is type(y) for a, b in zip(got, want) for x, y in zip(a, b)), "content-type", f"{case} {dt}")
            ctx.state((n, m, s, sep_i))
        obj = {f"key {i}": {"rows": row, "n": len(row), "f": row[0] / 3, "t": [str(row[0]), None, True]} for i, row in enumerate(ints)}
        (base / "f.json").write_text(json.dumps(obj))
        (base / "f.pkl").write_bytes(pickle.dumps(obj))
        ctx.step(4)
        ctx.check(load_from_json(base / "f.json") == obj, "json", f"{case}")
        ctx.check(load_from_pickle(base / "f.pkl") == obj, "pickle", f"{case}")
        ks = list(obj)[::-3]
        ctx.check(load_from_pickle(base / "f.pkl", keys=ks) == {k: obj[k] for k in ks}, "pickle-keys", f"{case}")
        ctx.check(load_from_pickle(str(base / "f.pkl"), keys=ks[0]) == obj[ks[0]], "pickle-key", f"{case}")
        ctx.outcome((n, m, s))
    finally:
        shutil.rmtree(base, ignore_errors=True)


MATS = [[[1.0, 0.0, -2.5], [0.5, 3.0, 0.0]], [[0.0]], [[1e-3, -1e-3]], [[7.9, -7.9, 0.4]], [[0.0, 0.0], [0.0, 0.0]], [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]]


def do_conv(case, ctx):
    from dhg.datapipe import to_bool_tensor, to_long_tensor, to_tensor

    m = MATS[case[1] % len(MATS)]
    if case[1] >= len(MATS):
        m = m[0]
    arr = np.array(m)
    ctx.trace()
    forms = []
    for dt in (np.float64, np.float32, np.int64, np.int32, np.bool_):
        a = arr.astype(dt)
        forms += [(f"ndarray {dt.__name__}", a.copy(), a), (f"tensor {dt.__name__}", torch.tensor(a), a), (f"list {dt.__name__}", a.tolist(), a)]
        if a.ndim == 2 and dt != np.bool_:
            forms += [(f"csr {dt.__name__}", sp.csr_matrix(a), a), (f"coo {dt.__name__}", sp.coo_matrix(a), a)]
    for name, x, a in forms:
        for f, want in ((to_tensor, torch.tensor(a.astype(np.float64)).float()), (to_bool_tensor, torch.tensor(a != 0)), (to_long_tensor, torch.tensor(np.trunc(a.astype(np.float64)).astype(np.int64)))):
            if name.startswith(("csr", "coo")) and f is not to_tensor:
                continue
            before = x.toarray() if sp.issparse(x) else (list(map(list, x)) if isinstance(x, list) and a.ndim == 2 else (list(x) if isinstance(x, list) else x.copy() if isinstance(x, np.ndarray) else x.clone()))
            got = f(x)
            ctx.step()
            ctx.check(isinstance(got, torch.Tensor) and got.dtype == want.dtype and got.shape == want.shape and torch.equal(got, want), "convert", lambda: f"{f.__name__}({name} {a.tolist()}) = {got}, values {want}")
            got.zero_()
            after = x.toarray() if sp.issparse(x) else x
            ok = torch.equal(after, before) if isinstance(after, torch.Tensor) else np.array_equal(np.array(after), np.array(before))
            ctx.check(ok, "aliased", f"{f.__name__}({name}): writing to the result changed the input")
            ctx.state((name, f.__name__, str(a.tolist())))
    ctx.outcome(str(m))


def do_pipe(case, ctx):
    from dhg.datapipe import compose_pipes

    fs = [lambda x: x + ["a"], lambda x: x + ["b"], lambda x: list(reversed(x)), lambda x: x + [len(x)], lambda x: x * 2]
    steps = case[1]
    p = compose_pipes(*[fs[s] for s in steps])
    ctx.trace()
    for start in ([], ["s"], [1, 2]):
        want = list(start)
        for s in steps:
            want = fs[s](want)
        for _ in range(2):
            ctx.step()
            arg = list(start)
            got = p(arg)
            ctx.check(got == want and arg == start, "compose", lambda: f"compose{steps}({start}) = {got}, expected {want}")
        ctx.state((tuple(steps), tuple(start)))
    q = compose_pipes(p, fs[0])
    ctx.check(q(["z"]) == fs[0](p(["z"])), "compose-nested", str(steps))
    if len(steps) == 2:
        X = torch.tensor([[1.0, 3.0], [0.0, 0.0]])
        from dhg.datapipe import min_max_scaler, norm_ft, to_tensor

        tp = [to_tensor, lambda x: norm_ft(x, ord=1), lambda x: min_max_scaler(x, -1, 1), lambda x: x * 2, lambda x: x.t()]
        ctx.check(torch.equal(compose_pipes(tp[steps[0]], tp[steps[1]])(X), tp[steps[1]](tp[steps[0]](X))), "compose-tensor", str(steps))
    ctx.outcome(tuple(steps))


def split(line, seps):
    out, cur = [], ""
    for ch in line.strip():
        if ch in seps:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def do_txt(case, ctx):
    from dhg.datapipe import load_from_txt

    base = Path(tempfile.mkdtemp(prefix="d01-", dir=os.environ["HOME"]))
    try:
        lines = [LINES[i] for i in case[1]]
        deep = len(lines) >= 3
        for end in ("\n", "") if lines and lines[-1] else ("\n",):
            path = base / "f.txt"
            data = ("\n".join(lines) + end) if lines else ""
            path.write_text(data)
            for sep in SEPS if not deep else SEPS[(sum(case[1]) % 2):(sum(case[1]) % 2) + 2]:
                chars = {None: ", \t", " ": " ", ",": ",", ";| ": "; "}[sep]
                for dt, conv in (("int", int), ("float", float), ("str", str), (lambda t: "<" + t + ">", lambda t: "<" + t + ">")):
                    for hd in range(min(len(lines), 3) + 1) if not deep else (0, 1):
                        body = lines[hd:]
                        rows, bad, blank = [], False, False
                        for l in body:
                            f = split(l, chars)
                            if f == [""]:
                                blank = True
                            try:
                                rows.append([conv(x) for x in f])
                            except ValueError:
                                bad = True
                        kw = {} if sep is None else {"sep": sep}
                        if hd:
                            kw["ignore_header"] = hd
                        ctx.step()
                        desc = f"load_from_txt({data!r}, {dt if isinstance(dt, str) else 'callable'}, {kw})"
                        try:
                            got = load_from_txt(path if case[1] and case[1][0] % 2 else str(path), dt, **kw)
                        except ValueError as e:
                            ctx.check(bad, "rejected", f"{desc} raised {e}")
                            continue
                        if bad and blank:
                            keep = [l for l in body if split(l, chars) != [""]]
                            try:
                                alt = [[conv(x) for x in split(l, chars)] for l in keep]
                            except ValueError:
                                alt = None
                            ctx.check(got == alt, "malformed", f"{desc} = {got}")
                            continue
                        ctx.check(not bad, "malformed", f"{desc} = {got} although a field is malformed")
                        skip = [r for r, l in zip(rows, body) if split(l, chars) != [""]]
                        ctx.check(got in (rows, skip), "content", lambda: f"{desc} = {got}, file holds {rows}")
            ctx.check(path.read_text() == data, "file-changed", data)
        ctx.trace()
        ctx.state(tuple(case[1]))
        ctx.outcome(tuple(sorted(set(case[1]))))
    finally:
        shutil.rmtree(base, ignore_errors=True)


OBJS = [{"a": 1, "b": [1, 2], "c": {"d": None}}, {"x": 0, "y": "", "z": []}, [1, "two", None], "text", 3.5, {"only": [[1, 2], [3]]}, [], {"b": False, "a": True}]


# inside a line, not at its ends: none of these ends a line or separates fields
ODD = ["\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\x00", "\u00a0", "\ufeff", "\u3000", "\\", '"', "'", "#", "%", "\u00e9", "\U0001f600", "\x1a", "\x7f"]


def do_odd(case, ctx):
    """Text files and JSON / pickle content with unusual characters and values."""
    from dhg.datapipe import load_from_json, load_from_pickle, load_from_txt

    base = Path(tempfile.mkdtemp(prefix="d01-", dir=os.environ["HOME"]))
    try:
        ctx.trace()
        c = ODD[case[1]]
        for n, (sep, join) in itertools.product((1, 3), ((",", ","), ("\t", "\t"), (";| ", ";"))):
            for at in ("a{}b", "a{0}{0}b", "{}"):
                rows = [[("a" if i or at == "{}" else "") + at.format(c) + "z", f"k{i}", at.format(c).strip() + "y"] for i in range(n)]
                if at == "{}":
                    rows = [["x" + r[0], r[1], "w" + c + "y"] for r in rows]
                for end in ("\n", ""):
                    (base / "o.txt").write_text("\n".join(join.join(r) for r in rows) + end, encoding="utf-8")
                    ctx.step()
                    got = load_from_txt(base / "o.txt", "str", sep=sep)
                    ctx.check(got == rows, "content", lambda: f"lines {rows} joined by {join!r} are read as {got}")
                    got = load_from_txt(base / "o.txt", "str", sep=sep, ignore_header=1)
                    ctx.check(got == rows[1:], "content", lambda: f"lines {rows} joined by {join!r} without the first are read as {got}")
        o = {"k" + c: [c, c * 3], c: {"n": 2**70, "f": 1e-300, "neg": -0.0, "inf": float("inf")}, "": None}
        for ascii_only in (True, False):
            (base / "o.json").write_text(json.dumps(o, ensure_ascii=ascii_only), encoding="utf-8")
            ctx.check(load_from_json(base / "o.json") == o, "json", lambda: f"{o}")
        (base / "o.json").write_text('{"a": 1.5, "a": 2.5}', encoding="utf-8")
        ctx.check(load_from_json(base / "o.json", parse_float=str, object_pairs_hook=list) == [("a", "1.5"), ("a", "2.5")], "json-options", "options are not passed to the parser")
        (base / "o.pkl").write_bytes(b"\x80\x02U\x01\xe9q\x00.")
        ctx.check(load_from_pickle(base / "o.pkl", encoding="latin1") == "\u00e9" and load_from_pickle(base / "o.pkl", encoding="bytes") == b"\xe9", "pickle-options", "options are not passed to the reader")
        big = {"t": torch.arange(6.0).view(2, 3), "n": np.arange(4), c: c}
        (base / "o.pkl").write_bytes(pickle.dumps(big) + pickle.dumps("a second object"))
        got = load_from_pickle(base / "o.pkl", keys=["n", "t", c])
        ctx.check(list(got) == ["n", "t", c] and torch.equal(got["t"], big["t"]) and np.array_equal(got["n"], big["n"]) and got[c] == c, "pickle-keys", "tensor content")
        ctx.state(("odd", case[1]))
        ctx.outcome(("odd", case[1]))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_obj(case, ctx):
    from dhg.datapipe import load_from_json, load_from_pickle

    base = Path(tempfile.mkdtemp(prefix="d01-", dir=os.environ["HOME"]))
    try:
        o = OBJS[case[1]]
        (base / "f.json").write_text(json.dumps(o))
        (base / "f.pkl").write_bytes(pickle.dumps(o))
        ctx.trace()
        ctx.step(2)
        for p in (base / "f.json", str(base / "f.json")):
            ctx.check(load_from_json(p) == o, "json", str(o))
        ctx.check(load_from_pickle(base / "f.pkl") == o, "pickle", str(o))
        if isinstance(o, dict):
            for r in range(1, len(o) + 1):
                for ks in itertools.permutations(o, r):
                    ctx.step()
                    got = load_from_pickle(base / "f.pkl", keys=list(ks))
                    ctx.check(got == {k: o[k] for k in ks}, "pickle-keys", f"{ks}: {got}")
            for k in o:
                ctx.check(load_from_pickle(base / "f.pkl", keys=k) == o[k], "pickle-key", f"{k}")
            for none in ([], ()):
                ctx.check(load_from_pickle(base / "f.pkl", keys=none) == {}, "pickle-keys", f"{o}: an empty key list gives more than an empty dictionary")
            for proto in range(6):
                (base / "g.pkl").write_bytes(pickle.dumps({**o, "": "under the empty key", "t": (1, 2)}, protocol=proto))
                ctx.step()
                ctx.check(load_from_pickle(base / "g.pkl", keys="") == "under the empty key", "pickle-key", f"{o}: the empty key")
                ctx.check(load_from_pickle(base / "g.pkl", keys=["t", ""]) == {"t": (1, 2), "": "under the empty key"}, "pickle-keys", f"{o}: protocol {proto}")
            try:
                r = load_from_pickle(base / "f.pkl", keys=["missing"])
            except (KeyError, ValueError, AssertionError):
                r = None
            ctx.check(r is None, "pickle-missing", f"{r}")
        ctx.state(case[1])
        ctx.outcome(case[1])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_bad(case, ctx):
    import dhg.datapipe as dd

    gone = os.environ["HOME"] + "/no-such-file"
    X = torch.ones(2, 2)
    for i, f in enumerate((lambda: dd.load_from_txt(gone, "int"), lambda: dd.load_from_json(gone), lambda: dd.load_from_pickle(gone), lambda: dd.load_from_pickle([gone, gone]),
                           lambda: dd.load_from_txt(__file__, "complex"), lambda: dd.min_max_scaler(X, 1, 1), lambda: dd.min_max_scaler(X, 2, 1), lambda: dd.norm_ft(torch.ones(2, 2, 2)))):
        ctx.step()
        try:
            r = f()
        except (AssertionError, ValueError, OSError):
            continue
        ctx.fail("not-rejected", f"invalid call {i} returned {r}")
