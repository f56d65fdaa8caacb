"""Dataset objects under every access history, file state and network state; every shipped dataset class."""
import inspect
import itertools
import os
import pickle
import shutil
import tempfile
import warnings
from functools import partial
from pathlib import Path

import numpy as np
import torch

from mc import net

PID = "F02"
LEVEL = "model_checking"
CHUNK = {"quick": 80, "thorough": 300}
OPS = ["get lit", "get a", "get b", "get c", "raw a", "raw b", "del f1", "bad f1", "bad f3", "net"]
BOUNDS = {
    "quick": "every history of depth 4 over {read literal / preprocessed / multi-file / shared-file item, read raw, delete or corrupt files, toggle network} from 3 initial file states, of depth 3 on two objects of the same declaration; every order of two items for every shipped dataset class with fabricated raw files (default and user data root), with and without corrupted files",
    "thorough": "as quick at depth 5 and depth 4 on two objects",
}
ASSUME = ["an item's value is not None", "items are declared with at least one raw file", "raw files of shipped datasets are fabricated and their declared checksums replaced accordingly; features may be raw or row-normalised by their 1-norm"]
VALUES = ([], {}, (), "", 0, 0.0, False, b"", float("nan"), 1, "x", [[]], [None], torch.zeros(0), torch.zeros(1), torch.zeros(3), torch.zeros(2, 2, dtype=torch.bool), np.zeros(0), np.zeros(3), set())
FILES = {"f1": b"alpha-content" * 30, "f2": b"second" * 40, "f3": b"third!" * 50}


def cases(tier):
    th = tier == "thorough"
    for init in ("all", "none", "f1bad"):
        for h in itertools.product(OPS, repeat=5 if th else 4):
            if th and h[0].startswith(("del", "bad")) and h[1].startswith(("del", "bad")):
                continue
            yield ["hist", init, [[o, 0] for o in h]]
    for h in itertools.product(["get a", "get b", "get c", "raw a", "del f1", "edit a"], repeat=4 if th else 3):
        for who in itertools.product((0, 1), repeat=len(h) - 1):
            yield ["hist", "all", [[o, w] for o, w in zip(h, (0,) + who)]]
    for i in range(40):
        yield ["shipped", i]
    yield ["declared"]
    for n in range(1, 9 if th else 7):
        states = itertools.product(("ok", "bad", "absent"), repeat=n) if n <= (4 if th else 3) else [tuple("ok" for _ in range(n))] + [
            tuple(s if j == i else "ok" for j in range(n)) for i in range(n) for s in ("bad", "absent")]
        for st in states:
            for up in (True, False):
                yield ["files", list(st), up]
    for i in range(len(VALUES)):
        for order in itertools.product(("get", "raw"), repeat=4):
            for chain in (0, 1, 2):
                yield ["values", i, list(order), chain]


def run(case, ctx):
    warnings.simplefilter("ignore")
    ctx.count(case[0])
    globals()["do_" + case[0]](case, ctx)


def make(root, log, who):
    from dhg.data import BaseData

    def load(tag):
        def loader(p):
            ps = p if isinstance(p, list) else [p]
            log.append(("load", who, tag, tuple(str(x) for x in ps)))
            return [x.read_bytes().decode() for x in ps]
        return loader

    def pipe(n):
        def f(x):
            log.append(("pipe", who, n))
            return x + [f"p{n}"]
        return f

    class Small(BaseData):
        def __init__(self, data_root):
            super().__init__("small", data_root)
            m = {k: net.md5(v) for k, v in FILES.items()}
            self._content = {
                "lit": 7,
                "a": {"upon": [{"filename": "f1", "md5": m["f1"]}], "loader": load("a"), "preprocess": [pipe(1), pipe(2)]},
                "b": {"upon": [{"filename": "f2", "md5": m["f2"]}, {"filename": "f3", "md5": m["f3"], "bk_url": "https://example.invalid/other/f3"}], "loader": load("b")},
                "c": {"upon": [{"filename": "f1", "md5": m["f1"]}], "loader": load("c"), "preprocess": []},
                "d": {"upon": [{"filename": "f2", "md5": m["f2"]}], "loader": load("d"), "preprocess": [pipe(3)]},
            }
    return Small(root)


UPON = {"a": ["f1"], "b": ["f2", "f3"], "c": ["f1"], "d": ["f2"]}
PIPES = {"a": ["p1", "p2"], "b": [], "c": [], "d": ["p3"]}


class Answers:
    """A server that knows the dataset files (when up)."""

    def __init__(self):
        self.up, self.urls = True, []

    def answer(self, adapter, request):
        self.urls.append(request.url)
        name = request.url.rsplit("/", 1)[1]
        s = net.Server(FILES.get(name, b"?"), ["ok" if self.up and name in FILES else "conn"])
        return s.answer(adapter, request)


def do_hist(case, ctx):
    import dhg._global as g

    _, init, hist = case
    base = Path(tempfile.mkdtemp(prefix="f02-", dir=os.environ["HOME"]))
    try:
        root = base / "data"
        d = root / "small"
        d.mkdir(parents=True)
        disk = {f: "ok" for f in FILES}
        if init == "none":
            disk = {f: "absent" for f in FILES}
        elif init == "f1bad":
            disk["f1"] = "bad"
        for f, s in disk.items():
            net.put(d / f, {"ok": FILES[f], "bad": FILES[f][:-3], "absent": None}[s])
        log = []
        srv = Answers()
        with net.serving(srv):
            objs = [make(str(root), log, w) for w in (0, 1)]
            loaded = [{}, {}]
            ctx.trace()
            ctx.check(not log and not srv.urls, "eager", f"{case}: constructing the dataset loaded {log} or requested {srv.urls}")
            for op, w in hist:
                kind, x = op.split() if " " in op else (op, None)
                o = objs[w]
                ctx.step()
                nlog, nurl = len(log), len(srv.urls)
                desc = f"{case} at {op}"
                if kind == "net":
                    srv.up = not srv.up
                elif kind == "del":
                    net.put(d / x, None)
                    disk[x] = "absent"
                elif kind == "bad":
                    net.put(d / x, FILES[x][:-2])
                    disk[x] = "bad"
                elif kind == "edit":
                    if x in loaded[w] and "get" in loaded[w][x]:
                        o[x].append("edited by the caller")
                        loaded[w][x]["get"] = loaded[w][x]["get"] + ["edited by the caller"]
                elif x == "lit":
                    ctx.check(o["lit"] == 7, "literal", desc)
                    ctx.check(len(log) == nlog and len(srv.urls) == nurl, "literal-loads", f"{desc}: reading a literal loaded {log[nlog:]}")
                else:
                    fresh = x not in loaded[w]
                    can = not fresh or all(disk[f] == "ok" or srv.up for f in UPON[x])
                    try:
                        v = o[x] if kind == "get" else o.raw(x)
                        ok = True
                    except Exception as e:
                        ok, v = False, e
                    new = log[nlog:]
                    ctx.check(ok == can, "access", lambda: f"{desc}: files {disk}, network {srv.up}: {'returned' if ok else 'raised'} {v!r}")
                    if fresh:
                        # files checked one after another; those not good were fetched (network up) or removed
                        for f in UPON[x]:
                            if disk[f] != "ok":
                                disk[f] = "ok" if srv.up else "absent"
                                if not srv.up:
                                    break
                        for u in srv.urls[nurl:]:
                            f = u.rsplit("/", 1)[1]
                            want = ("https://example.invalid/other/f3",) if f == "f3" else (g.REMOTE_DATASETS_ROOT + "small/" + f, g.BACKUP_REMOTE_DATASETS_ROOT + "small/" + f)
                            ctx.check(f in UPON[x] and u in want, "url", f"{desc}: requested {u}")
                    else:
                        ctx.check(len(srv.urls) == nurl, "refetch", f"{desc}: a loaded item requested {srv.urls[nurl:]}")
                    raw = [FILES[f].decode() for f in UPON[x]]
                    loads = [e for e in new if e[0] == "load"]
                    pipes = [e[2] for e in new if e[0] == "pipe"]
                    if not ok:
                        ctx.check(not new, "loaded-anyway", f"{desc}: raised but ran {new}")
                        for f in UPON[x]:
                            ctx.check((d / f).exists() == (disk[f] != "absent"), "files", f"{desc}: file {f} expected {disk[f]}")
                    else:
                        ctx.check(loads == ([("load", w, x, tuple(str(d / f) for f in UPON[x]))] if fresh else []), "loads", f"{desc}: loader calls {loads}, first access: {fresh}")
                        st = loaded[w].setdefault(x, {"raw": raw})
                        first = kind == "get" and "get" not in st
                        ctx.check(pipes == ([int(p[1]) for p in PIPES[x]] if first else []), "pipes", f"{desc}: preprocessing steps run: {pipes}")
                        if kind == "get":
                            want = st.setdefault("get", raw + PIPES[x])
                        else:
                            want = st["raw"] if x in ("a",) or "edited by the caller" not in st.get("get", []) else None
                        if want is not None:
                            ctx.check(v == want, "value", lambda: f"{desc}: value {v}, declared {want}")
                        for f in UPON[x]:
                            if fresh:
                                ctx.check(net.get(d / f) == FILES[f], "files", f"{desc}: file {f} is not the checked one")
                ctx.check(list(o.content) == ["lit", "a", "b", "c", "d"], "content", f"{desc}: content is {o.content}")
                ctx.check(isinstance(o.content, list), "content", f"{desc}: content is a {type(o.content)}")
                ctx.check(o.needs_to_load("a") and not o.needs_to_load("lit"), "needs-to-load", desc)
                if kind == "net" or kind == "del":
                    ctx.check(len(log) == nlog and len(srv.urls) == nurl, "spontaneous", desc)
                ctx.state((tuple(sorted(disk.items())), srv.up, tuple(tuple(sorted((k, tuple(sorted(v))) for k, v in l.items())) for l in loaded)))
            n = len(log)
            for bad in ("nope", "A", ""):
                for f in (objs[0].__getitem__, objs[0].needs_to_load, objs[0].raw):
                    try:
                        f(bad)
                    except (AssertionError, KeyError, ValueError):
                        continue
                    ctx.fail("undeclared", f"{case}: undeclared item {bad!r} accepted")
            ctx.check("a" in str(objs[0]) and len(log) == n, "repr", f"{case}: printing the dataset loads items")
            ctx.outcome((tuple(sorted(disk.items())), str(loaded)))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def fabricate(name, k):
    """Raw content of an item of a shipped dataset (distinct per item) and a judge of what reading it gives."""
    if name.endswith("adj_list"):
        rows = [[u] + [(u * 3 + j + k) % 17 for j in range((u + k) % 3 + u % 13)] for u in range(40)]
        return "\n".join(" ".join(map(str, r)) for r in rows).encode() + b"\n", lambda v: v == rows
    if "features" in name:
        m = [[float((i * 5 + j * 3 + k) % 4) for j in range(11)] for i in range(40)]
        m[2], m[17] = [0.0] * 11, [0.0] * 11
        t = torch.tensor(m)
        s = t.abs().sum(1, keepdim=True)
        nrm = torch.where(s > 0, t / s.clamp(min=1e-9), torch.zeros_like(t))
        data = torch.tensor(m).numpy() if k % 2 else m
        return pickle.dumps(data), lambda v: isinstance(v, torch.Tensor) and v.dtype == torch.float32 and v.shape == t.shape and (torch.allclose(v, t) or torch.allclose(v, nrm))
    if "labels" in name or name in ("state", "city"):
        l = [(i * 7 + k) % (5 if i % 4 else 23) for i in range(60)]
        return pickle.dumps(l), lambda v: isinstance(v, torch.Tensor) and v.dtype == torch.int64 and v.tolist() == l
    if name.endswith("mask"):
        l = [(i + k) % 3 == 0 for i in range(60)]
        return pickle.dumps(l), lambda v: isinstance(v, torch.Tensor) and v.dtype == torch.bool and v.tolist() == l
    if name.endswith("dict"):
        l = {i: [i + k, i + 2 * k] for i in range(3)}
        return pickle.dumps(l), lambda v: v == l
    l = [(i, (i + k) % 9) + (((i + 2 * k) % 31,) if i % 3 == 0 else ()) for i in range(50)]
    return pickle.dumps(l), lambda v: v == l


def shipped():
    import dhg.data as D

    return [getattr(D, n) for n in sorted(dir(D)) if inspect.isclass(getattr(D, n)) and issubclass(getattr(D, n), D.BaseData) and n != "BaseData"]


def do_shipped(case, ctx):
    cls = shipped()
    if case[1] >= len(cls):
        return
    C = cls[case[1]]
    for where, pair in itertools.product(("user", "default"), (True, False)):
        base = Path(tempfile.mkdtemp(prefix="f02s-", dir=os.environ["HOME"]))
        srv = Answers()
        srv.up = False
        try:
            with net.serving(srv):
                table = {}

                def fresh():
                    o = C(data_root=str(base)) if where == "user" else C()
                    for it, m in table.items():
                        o._content[it]["upon"][0]["md5"] = m
                    return o

                o = fresh()
                dirs = Path(o.data_root)
                ctx.check(str(dirs).startswith(str(base) if where == "user" else os.environ["HOME"]), "data-root", f"{C.__name__}: data root {dirs}")
                items = [i for i in o.content if o.needs_to_load(i)]
                judge, path = {}, {}
                for k, it in enumerate(items):
                    up = o._content[it]["upon"]
                    ctx.check(len(up) == 1, "declaration", f"{C.__name__}.{it}")
                    data, judge[it] = fabricate(it, k + 1)
                    table[it] = net.md5(data)
                    path[it] = dirs / up[0]["filename"]
                    path[it].parent.mkdir(parents=True, exist_ok=True)
                    path[it].write_bytes(data)
                ctx.check(len(set(path.values())) == len(items), "files", f"{C.__name__}: two items share a raw file")
                if items:
                    for a, b in itertools.permutations(items, 2) if pair and len(items) > 1 else [(i, i) for i in items]:
                        o = fresh()
                        ctx.trace()
                        for it in (a, b, a):
                            ctx.step()
                            v = o[it]
                            ctx.check(judge[it](v), "shipped-value", lambda: f"{C.__name__}[{it!r}] after {a}: {type(v).__name__} {v} from a fabricated raw file")
                        ctx.check(not srv.urls, "network", f"{C.__name__}: requested {srv.urls} although the files are valid")
                        ctx.state((C.__name__, where, a, b))
                    for it in items:
                        o = fresh()
                        good = path[it].read_bytes()
                        path[it].write_bytes(good + b" ")
                        ctx.step()
                        try:
                            v = o[it]
                            ctx.fail("corrupt-used", f"{C.__name__}[{it!r}]: corrupted raw file used: {v}")
                        except AssertionError:
                            raise
                        except Exception as e:
                            if type(e).__name__ == "Fail":
                                raise
                        path[it].write_bytes(good)
                        srv.urls.clear()
                        ctx.check(judge[it](o[it]), "shipped-value", f"{C.__name__}[{it!r}] after the raw file was restored")
                        for other in items:
                            ctx.check(judge[other](o[other]), "shipped-value", f"{C.__name__}[{other!r}] after {it} failed")
                        srv.urls.clear()
                for it in o.content:
                    if it not in items:
                        ctx.check(isinstance(o[it], int), "literal", f"{C.__name__}[{it!r}]")
                ctx.outcome((C.__name__, where))
        finally:
            shutil.rmtree(base, ignore_errors=True)
            if where == "default":
                shutil.rmtree(dirs, ignore_errors=True)


def do_declared(case, ctx):
    """Distinct datasets keep distinct names and remote folders."""
    names = {}
    for C in shipped():
        o = C()
        ctx.step()
        ctx.check(o.name not in names, "name-clash", f"{C.__name__} and {names.get(o.name)} share the folder {o.name}")
        names[o.name] = C.__name__
        p = C()
        ctx.check(p._content is not o._content, "shared-content", C.__name__)
        ctx.state(C.__name__)


def do_files(case, ctx):
    """An item of several raw files, each in any state: none is used unchecked and all reach the loader in order."""
    from dhg.data import BaseData

    _, states, up = case
    base = Path(tempfile.mkdtemp(prefix="f02f-", dir=os.environ["HOME"]))
    n = len(states)
    body = {f"g{i}": (b"body %d " % i) * (20 + i) for i in range(n)}
    seen = []

    class Srv(Answers):
        def answer(self, adapter, request):
            self.urls.append(request.url)
            name = request.url.rsplit("/", 1)[1]
            return net.Server(body.get(name, b"?"), ["ok" if self.up and name in body else "conn"]).answer(adapter, request)

    class Wide(BaseData):
        def __init__(self):
            super().__init__("wide", str(base))
            self._content = {"w": {"upon": [{"filename": f, "md5": net.md5(c)} for f, c in body.items()], "loader": lambda ps: seen.append(ps) or [Path(x).read_bytes() for x in (ps if isinstance(ps, list) else [ps])]}}
    try:
        d = base / "wide"
        d.mkdir()
        for (f, c), s in zip(body.items(), states):
            net.put(d / f, {"ok": c, "bad": c[:-1], "absent": None}[s])
        srv = Srv()
        srv.up = up
        with net.serving(srv):
            o = Wide()
            can = up or all(s == "ok" for s in states)
            for k in range(2):
                ctx.step()
                try:
                    v, ok = o["w"], True
                except Exception as e:
                    v, ok = e, False
                if not ok and k == 0 and not can:
                    srv.up = can = True
                    continue
                ctx.check(ok == can, "access", lambda: f"{case}: {'returned' if ok else 'raised'} {v!r}")
                ctx.check(v == list(body.values()), "value", lambda: f"{case}: the loader was given {v}")
                ctx.check(len(seen) == 1 and (seen[0] == [d / f for f in body] if n > 1 else seen[0] == d / "g0"), "loads", lambda: f"{case}: loader calls {seen}")
                for f, c in body.items():
                    ctx.check(net.get(d / f) == c, "files", f"{case}: {f} is not the checked file")
                need = {f for (f, c), s in zip(body.items(), states) if s != "ok"}
                ctx.check({u.rsplit("/", 1)[1] for u in srv.urls} <= need, "url", lambda: f"{case}: requested {srv.urls}, only {need} are needed")
        ctx.trace()
        ctx.state(tuple(states))
        ctx.outcome((tuple(states), up))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_values(case, ctx):
    """Loading and preprocessing run once whatever the values they give (also empty, zero or tensors)."""
    from dhg.data import BaseData

    _, i, order, chain = case
    base = Path(tempfile.mkdtemp(prefix="f02v-", dir=os.environ["HOME"]))
    log = []
    val = VALUES[i]

    def load(p):
        log.append("load")
        return val

    def pipe(x):
        log.append("pipe")
        return x

    class Val(BaseData):
        def __init__(self):
            super().__init__("val", str(base))
            self._content = {"v": {"upon": [{"filename": "f", "md5": net.md5(b"abc")}], "loader": load}}
            if chain:
                self._content["v"]["preprocess"] = [pipe] * (chain - 1)
    try:
        (base / "val").mkdir()
        (base / "val" / "f").write_bytes(b"abc")
        srv = Answers()
        srv.up = False
        with net.serving(srv):
            o = Val()
            ctx.trace()
            for op in order:
                ctx.step()
                v = o["v"] if op == "get" else o.raw("v")
                ctx.check(v is val, "value", lambda: f"{case}: {op} gives {v!r}, the loader gave {val!r}")
        want = ["load"] + ["pipe"] * (max(0, chain - 1) if "get" in order else 0)
        ctx.check(log == want, "once", lambda: f"{case}: value {val!r}: {log} ran, expected {want}")
        ctx.check(not srv.urls, "network", f"{case}: requested {srv.urls}")
        ctx.state((i, tuple(order[:2])))
        ctx.outcome((i, chain))
    finally:
        shutil.rmtree(base, ignore_errors=True)
