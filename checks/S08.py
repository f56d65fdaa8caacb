"""Persistence: every reachable small structure survives save/load and state dictionaries in every form."""
import copy
import itertools
import os
import pickle
import tempfile
from pathlib import Path

from mc import big, env, hist, structs
from checks import S01, S03, S04, S05, S07

PID = "S08"
LEVEL = "model_checking"
CHUNK = {"quick": 100, "thorough": 300}
BOUNDS = {
    "quick": "every model state of the 4 classes reached by <=3 edits over the class's edit alphabet (state cap 900 per class), each through class load, generic load and state dictionary, before and after reading all views; each followed by every of 5-8 edits on the original (file must not follow) and on the restored structure (file and original must not follow); all 4x4 wrong-class loads; all chains of two round trips; 72 fixed histories on 11-24 vertices in every form; fixed histories on 72 and 140 vertices",
    "thorough": "as quick with <=4 edits and a state cap of 5000 per class",
}
ASSUME = ["files are written and read by the same library version; CPU device"]
INITS = [["Graph", 3, False], ["Graph", 3, True], ["DiGraph", 3, False], ["BiGraph", 3, 2], ["Hypergraph", 4, None], ["Hypergraph", 4, [1.0, 2.0, 0.5, 3.0]]]
ALPHA = {"Graph": S01.ADD + S01.REM + S01.MISC[:4], "DiGraph": S03.ADD + S03.REM + S03.MISC[:5], "BiGraph": S04.ADD + S04.REM + S04.ASYM + S04.MISC[:2],
         "Hypergraph": S05.ADD + S05.REM + S05.MISC[:1]}
WAYS = ["class", "generic", "sd", "sdcopy", "twice"]


def states(init, depth, cap):
    """shortest history of every model state within depth"""
    _, m0 = structs.new(init)
    seen, frontier, out = {m0.key()}, [(m0, [])], [[]]
    for _ in range(depth):
        nxt = []
        for m, h in frontier:
            for op in ALPHA[init[0]]:
                m2 = m.copy()
                try:
                    m2.apply(op)
                except structs.Reject:
                    continue
                if m2.key() not in seen and len(seen) < cap:
                    seen.add(m2.key())
                    nxt.append((m2, h + [op]))
                    out.append(h + [op])
        frontier = nxt
    return out


def cases(tier):
    for i, j in itertools.product(range(4), repeat=2):
        yield ["wrong", i, j]
    depth, cap = (3, 900) if tier == "quick" else (4, 5000)
    for init in INITS:
        c = cap if init != INITS[1] and init != INITS[5] else cap // 3
        for n, h in enumerate(states(init, depth, c)):
            for way in WAYS:
                yield ["rt", init, h, way, n % 2]
            if n < 40:
                for k in range(len(S07.EDITS[init[0]])):
                    for way in WAYS:
                        yield ["indep", init, h, way, k]
    yield from big_cases(tier)
    for kind in S07.EDITS:
        for init, ops in big.odd_states(kind):
            for way in WAYS:
                yield ["odd", init, ops, way, 0]


def big_cases(tier):
    for kind in ("Graph", "DiGraph", "BiGraph", "Hypergraph"):
        for n in (11, 14, 24) + ((40,) if tier == "thorough" else ()):
            for s in range(6 if tier == "quick" else 20):
                init, ops = big.base(kind, n, s, 7)
                ops = big.accepted(init, ops)[0]
                for way in WAYS:
                    yield ["rt", init, ops, way, s % 2]
                    if s < 2 and n < 20:
                        for k in range(len(S07.EDITS[kind])):
                            yield ["indep", init, ops, way, k]
        for n in (72, 140):
            init, ops = big.base(kind, n, n % 5, 5)
            ops = big.accepted(init, ops)[0]
            for way in WAYS:
                yield ["rt", init, ops, way, n % 2]
            yield ["indep", init, ops, "class", n % len(S07.EDITS[kind])]


def build(init, h, ctx):
    obj, m = structs.new(init)
    for op in h:
        obj = structs.apply_real(obj, op)
        m.apply(op)
    ctx.step(len(h))
    return obj, m


def tmp():
    fd, p = tempfile.mkstemp(suffix=".dhg", dir=env.SCRATCH)
    os.close(fd)
    os.unlink(p)
    return p


def restore(obj, way, p, ctx, first=True):
    import dhg

    cls = type(obj)
    ctx.count("restore:" + way)
    if way == "class":
        if first:
            obj.save(p)
        return cls.load(p)
    if way == "generic":
        if first:
            obj.save(Path(p))
        return dhg.load_structure(Path(p))
    if way == "sd":
        return cls.from_state_dict(obj.state_dict)
    if way == "sdcopy":
        return cls.from_state_dict(pickle.loads(pickle.dumps(obj.state_dict)))
    if way == "twice":
        if first:
            obj.save(p)
        o2 = cls.load(p)
        q = tmp()
        try:
            o2.save(q)
            return dhg.load_structure(q)
        finally:
            os.unlink(q)


def run(case, ctx):
    import dhg

    if case[0] == "wrong":
        _, i, j = case
        kinds = ["Graph", "DiGraph", "BiGraph", "Hypergraph"]
        init, bases = S07.BASES[kinds[i]]
        obj, m = build(init, bases[1], ctx)
        p = tmp()
        try:
            obj.save(p)
            try:
                r = getattr(dhg, kinds[j]).load(p)
                ok = True
            except Exception:
                ok = False
            ctx.check(ok == (i == j), f"wrong-class:{kinds[i]}->{kinds[j]}", lambda: f"loading a {kinds[i]} file through {kinds[j]}.load {'succeeded' if ok else 'failed'}")
            ctx.check(type(dhg.load_structure(p)).__name__ == kinds[i], "generic-class")
        finally:
            os.unlink(p)
        for missing in (p, p + "/x/y"):
            try:
                getattr(dhg, kinds[j]).load(missing)
                ctx.fail("missing-file", f"{kinds[j]}.load of a missing file did not raise")
            except Exception as e:
                if type(e).__name__ == "Fail":
                    raise
        ctx.state(("wrong", i, j))
        ctx.trace()
        ctx.outcome(("wrong", i, j))
        return
    kind, init, h, way, k = case
    obj, m = build(init, h, ctx)
    where = f"{init} after {h} restored by {way}"
    p = tmp()
    try:
        if kind == "odd":
            r = restore(obj, way, p, ctx)
            ctx.check(type(r) is type(obj), "class", where)
            hist.observe(r, m, ctx, where, store_only=True)
            hist.observe(obj, m, ctx, where + ": the saved structure", store_only=True)
        elif kind == "rt":
            if k:
                structs.snapshot(obj)
            r = restore(obj, way, p, ctx)
            ctx.check(type(r) is type(obj), "class", where)
            hist.observe(r, m, ctx, where)
            hist.observe(obj, m, ctx, where + ": the saved structure", store_only=not k)
        else:
            # edit the original after saving: the file keeps the saved state; edit the restored one: nothing else changes
            op = S07.EDITS[init[0]][k]
            if init[0] == "Hypergraph" and op[0] == "remove" and op[2] is not None and op[2] not in m.G:
                return
            r = restore(obj, way, p, ctx)
            m2 = m.copy()
            m2.apply(op)
            obj = structs.apply_real(obj, op)
            hist.observe(r, m, ctx, where + f", original then edited by {op}")
            if os.path.exists(p):
                r2 = restore(obj, way, p, ctx, first=False)
                hist.observe(r2, m, ctx, where + f", original then edited by {op}, file loaded again")
            r = structs.apply_real(r, op)
            hist.observe(r, m2, ctx, where + f", restored one then edited by {op}")
            hist.observe(obj, m2, ctx, where + f", both edited by {op}")
            if os.path.exists(p):
                r2 = restore(obj, way, p, ctx, first=False)
                hist.observe(r2, m, ctx, where + f", restored one edited by {op}, file loaded again", store_only=True)
            ctx.step(2)
    finally:
        if os.path.exists(p):
            os.unlink(p)
    ctx.state(m.key())
    ctx.trace()
    ctx.outcome((way, m.key()))


def shrink(case):
    if case[0] != "wrong":
        yield from hist.shrink_history(case, 2)
