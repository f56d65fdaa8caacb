"""Histories over one structure: lock-step execution of real object and model, and enumeration helpers."""
import itertools

from . import structs
from .cmp import same, show


def observe(obj, m, ctx, where, reverse=False, only=None, store_only=False):
    vs = list(structs.store_views(m) if store_only else structs.views(m, obj))
    if reverse:
        vs.reverse()
    for name, thunk, exp in vs:
        if only is not None and name.split("(")[0] != only:
            continue
        try:
            got = thunk(obj)
        except Exception as e:
            ctx.fail(f"view-raises:{name.split('(')[0]}:{type(e).__name__}", f"{where}: reading {name} raised {e!r}")
        ctx.evals += 1
        if not same(got, exp):
            ctx.fail(f"view:{name.split('(')[0]}", f"{where}: {name}\n   got      {show(got)}\n   expected {show(exp)}")


def step(obj, m, op, ctx, where):
    """Apply op to both. Returns (object, model)."""
    try:
        m2 = m.copy()
        m2.apply(op)
        rejected = False
    except structs.Reject:
        m2, rejected = m, True
    ctx.count(op[0] + ("!" if rejected else ""))
    ctx.step()
    if rejected:
        try:
            structs.apply_real(obj, op)
        except structs.REJECTED:
            return obj, m
        ctx.fail(f"not-rejected:{op[0]}", f"{where}: {op} should be rejected")
    try:
        obj = structs.apply_real(obj, op)
    except Exception as e:
        ctx.fail(f"op-raises:{op[0]}:{type(e).__name__}", f"{where}: {op} raised {e!r}")
    return obj, m2


def run_history(init, ops, mode, ctx, store_only=False):
    """ops may contain ["read", view]: only that observable is read (and compared) at that point.
    modes: "warm" = everything is observed after every step (and once more in reverse order at the end);
    "cold" = everything is observed at the end only; "coldrev" = the same in reverse order;
    "coldperm:<k>" = observation list rotated by k."""
    if mode.startswith("form"):
        structs.FORM = int(mode[4:])
        try:
            return run_history(init, ops, "cold", ctx, store_only)
        finally:
            structs.FORM = 0
    obj, m = structs.new(init)
    read = ()
    ctx.state((m.key(), read))
    if mode == "warm":
        observe(obj, m, ctx, "initially", store_only=store_only)
    for i, op in enumerate(ops):
        where = f"init={init} after ops {ops[:i + 1]} (mode {mode})"
        if op[0] == "read":
            ctx.step()
            ctx.count("read")
            observe(obj, m, ctx, where, only=op[1])
            read = tuple(sorted(set(read) | {op[1]}))
        else:
            obj, m = step(obj, m, op, ctx, where)
            read = ()
        ctx.state((m.key(), read))
        if mode == "warm":
            observe(obj, m, ctx, where, store_only=store_only)
    where = f"init={init} after all ops {ops} (mode {mode})"
    observe(obj, m, ctx, where, reverse=mode in ("warm", "coldrev"), store_only=store_only)
    if mode != "warm":
        # every view a second time: reading must not have changed anything
        observe(obj, m, ctx, where + " second read", reverse=mode != "coldrev", store_only=store_only)
    ctx.trace()
    ctx.outcome(m.key())
    return obj, m


def probes(init, ops=()):
    """Names of all single observables for structures of this kind."""
    _, m = structs.new(init)
    for op in ops:
        try:
            m.apply(op)
        except structs.Reject:
            pass
    names = []
    for name, _, _ in structs.views(m, None):
        n = name.split("(")[0]
        if n not in names:
            names.append(n)
    return names


def trie(alphabet, depth):
    """all operation sequences of exactly `depth` (prefixes are checked inside warm runs)"""
    return itertools.product(alphabet, repeat=depth)


def forms(inits, alphabet, adds):
    """edits and constructions with their edge lists (and weights) given as lists or tuples of lists or tuples"""
    for init in inits:
        for op in alphabet:
            for k in (1, 2, 3):
                yield [init, [op], f"form{k}"]
        for i, ops in enumerate(trie(alphabet, 2)):
            if any(o[0] in ("add", "remove") for o in ops):
                yield [init, list(ops), f"form{1 + i % 3}"]
    for init in inits:
        for op in adds:
            for k in (1, 2, 3):
                yield [init[:3] + [op], [], f"form{k}"]


def bfs(init, alphabet, depth, max_states=None):
    """Breadth-first search over model states; yields every (history, op) transition of the state graph.
    Histories are shortest paths, so each transition is executed on a fresh real object."""
    _, m0 = structs.new(init)
    seen = {m0.key(): []}
    frontier = [(m0, [])]
    for d in range(depth):
        nxt = []
        for m, hist in frontier:
            for op in alphabet:
                m2 = m.copy()
                try:
                    m2.apply(op)
                except structs.Reject:
                    pass
                yield hist, op
                k = m2.key()
                if k not in seen and not (max_states and len(seen) >= max_states):
                    seen[k] = hist + [op]
                    nxt.append((m2, hist + [op]))
        frontier = nxt


def shrink_history(case, pos):
    """Generic shrinker: drop one op at a time from case[pos]."""
    ops = case[pos]
    for i in range(len(ops)):
        c = list(case)
        c[pos] = ops[:i] + ops[i + 1:]
        yield c
