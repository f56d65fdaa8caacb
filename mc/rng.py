"""Exhaustive exploration of all outcomes of the random source.

`explore(fn, ...)` runs fn repeatedly; every call of a random primitive becomes a branching point (integers below n,
cells of a uniform grid on [0,1), Bernoulli entries).  Executions are enumerated best-first by probability mass, so what is
not enumerated when the budget runs out is a known amount of mass (`truncated`).

The Python source is intercepted at random.Random's own primitives (`random`, `_randbelow`, `getrandbits`), so choice,
choices, sample, shuffle, randrange, ... all branch; NumPy's and PyTorch's legacy entry points are intercepted for the
functions listed below.  If code draws from a source that is not intercepted, the result is flagged `uncontrolled` and
callers must not use probabilities.
"""
import contextlib
import heapq
import itertools
import math
import random
import sys

import numpy as np
import torch


class Truncated(BaseException):
    pass


class Tape:
    """Follows `prefix`, then takes the likeliest alternative and records the others."""

    def __init__(self, prefix, mass, grid, min_mass, draws=None):
        self.prefix, self.pos, self.grid, self.mass, self.min_mass, self.draws = prefix, 0, grid, mass, min_mass, draws
        self.path, self.new = list(prefix), []

    def pick(self, weights):
        """index of the chosen alternative; weights sum to 1"""
        if len(weights) == 1:
            return 0
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            assert r < len(weights), "replayed prefix diverged"
            return r
        if self.draws is not None and len(self.path) >= self.draws:  # only executions of so many draws
            raise Truncated()
        r = max(range(len(weights)), key=lambda i: weights[i])
        for i, w in enumerate(weights):
            if i != r and w > 0:
                self.new.append((self.mass * w, tuple(self.path) + (i,)))
        self.mass *= weights[r]
        self.path.append(r)
        if self.mass < self.min_mass:
            raise Truncated()
        return r

    def below(self, n):
        return self.pick([1.0 / n] * n)

    def uniform(self):
        if isinstance(self.grid, tuple):  # cells given by their boundaries
            i = self.pick([b - a for a, b in zip(self.grid, self.grid[1:])])
            return (self.grid[i] + self.grid[i + 1]) / 2
        return (self.below(self.grid) + 0.5) / self.grid

    def bern(self, p):
        p = float(p)
        if p <= 0:
            return 0
        if p >= 1:
            return 1
        return 1 - self.pick([p, 1 - p])  # alternative 0 = success


TAPE = None


class ChoiceRandom(random.Random):
    def random(self):
        return TAPE.uniform()

    def _randbelow(self, n):
        return TAPE.below(n)

    def getrandbits(self, k):
        return TAPE.below(1 << k) if k < 12 else int(TAPE.uniform() * (1 << k))

    def seed(self, *a, **k):
        pass


_RAND = None


def _patches():
    global _RAND
    if _RAND is None:
        _RAND = ChoiceRandom()
    out = []
    names = ["random", "uniform", "randint", "randrange", "choice", "choices", "sample", "shuffle", "getrandbits", "triangular", "betavariate"]
    repl = {}
    for n in names:
        repl[id(getattr(random, n))] = (n, getattr(_RAND, n))
        out.append((random, n, getattr(_RAND, n)))
    # names bound by "from random import ..." in the library
    for mod in list(sys.modules.values()):
        if getattr(mod, "__name__", "").split(".")[0] != "dhg":
            continue
        for k, v in list(vars(mod).items()):
            if callable(v) and id(v) in repl:
                out.append((mod, k, repl[id(v)][1]))

    def np_shuffle(x):
        for i in reversed(range(1, len(x))):
            j = TAPE.below(i + 1)
            if isinstance(x, np.ndarray):
                x[[i, j]] = x[[j, i]]
            else:
                x[i], x[j] = x[j], x[i]

    def np_perm(x):
        r = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        np_shuffle(r)
        return r

    def fill(shape, f):
        shape = tuple(shape) if np.ndim(shape) else (int(shape),)
        return np.array([f() for _ in range(int(np.prod(shape)))]).reshape(shape)

    def np_random(size=None):
        return TAPE.uniform() if size is None else fill(size, TAPE.uniform)

    def np_randint(low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        f = lambda: lo + TAPE.below(int(hi) - int(lo))
        return f() if size is None else fill(size, f).astype(dtype)

    def np_choice(a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        idx = list(range(len(a)))
        pr = None if p is None else list(map(float, p))

        def one():
            i = TAPE.below(len(idx)) if pr is None else TAPE.pick([x / sum(pr) for x in pr])
            r = idx[i]
            if not replace:
                idx.pop(i)
                if pr is not None:
                    pr.pop(i)
            return r

        return a[one()] if size is None else a[fill(size, one)]

    for n, f in (("shuffle", np_shuffle), ("permutation", np_perm), ("rand", lambda *s: TAPE.uniform() if not s else fill(s, TAPE.uniform)), ("random", np_random),
                 ("random_sample", np_random), ("randint", np_randint), ("choice", np_choice)):
        out.append((np.random, n, f))

    def tshape(a, k):
        if "size" in k:
            a = (k.pop("size"),)
        if len(a) == 1 and not isinstance(a[0], int):
            a = tuple(a[0])
        return tuple(a)

    def t_rand(*a, **k):
        s = tshape(a, k)
        return torch.tensor([TAPE.uniform() for _ in range(math.prod(s))], dtype=k.get("dtype") or torch.float).reshape(s)

    def t_randperm(n, **k):
        r = list(range(n))
        np_shuffle(r)
        return torch.tensor(r, dtype=torch.long)

    def t_randint(*a, **k):
        lo, hi, s = (0, a[0], a[1]) if len(a) == 2 else (a[0], a[1], a[2])
        return torch.tensor([lo + TAPE.below(hi - lo) for _ in range(math.prod(s))], dtype=torch.long).reshape(tuple(s))

    def t_bern(x, p=None, **k):
        ps = x if p is None else torch.full_like(x, float(p))
        return torch.tensor([float(TAPE.bern(v)) for v in ps.reshape(-1).tolist()], dtype=x.dtype).reshape(ps.shape)

    def t_bern_(self, p=0.5, **k):
        ps = p.expand_as(self) if isinstance(p, torch.Tensor) else torch.full(self.shape, float(p))
        return self.copy_(torch.tensor([float(TAPE.bern(v)) for v in ps.reshape(-1).tolist()]).reshape(self.shape))

    for n, f in (("rand", t_rand), ("rand_like", lambda x, **k: t_rand(*x.shape)), ("randperm", t_randperm), ("randint", t_randint), ("bernoulli", t_bern)):
        out.append((torch, n, f))
    out.append((torch.Tensor, "bernoulli_", t_bern_))
    out.append((torch.Tensor, "bernoulli", t_bern))
    return out


@contextlib.contextmanager
def _installed():
    saved = []
    for o, n, f in _patches():
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, f)
    try:
        yield
    finally:
        for o, n, f in reversed(saved):
            if o is torch.Tensor:
                delattr_or_set(o, n, f)
            else:
                setattr(o, n, f)


def delattr_or_set(o, n, f):
    if n in o.__dict__:
        try:
            delattr(o, n)
            return
        except AttributeError:
            pass
    setattr(o, n, f)


def _fingerprint():
    s = np.random.get_state()
    return (hash(random.getstate()), hash(s[1].tobytes()), s[2], hash(torch.get_rng_state().numpy().tobytes()))


class Result:
    """leaves: list of (probability, value); truncated: probability mass not enumerated; uncontrolled: see module doc"""

    def __init__(self):
        self.leaves, self.truncated, self.uncontrolled, self.execs, self.points = [], 0.0, False, 0, 0

    def dist(self):
        d = {}
        for p, v in self.leaves:
            d[v] = d.get(v, 0.0) + p
        return d


def explore(fn, grid=4, budget=4000, min_mass=1e-9, draws=None):
    """fn() -> hashable value, executed under every outcome of the random source (best-first by mass, at most budget runs;
    paths below min_mass are cut, which bounds rejection loops)."""
    global TAPE
    res = Result()
    cnt = itertools.count()
    heap = [(-1.0, next(cnt), ())]
    with _installed():
        fp = _fingerprint()
        while heap and res.execs < budget:
            mass, _, prefix = heapq.heappop(heap)
            t = TAPE = Tape(prefix, -mass, grid, min_mass, draws)
            res.execs += 1
            try:
                v = fn()
                assert t.pos == len(prefix), "execution used fewer choices than its prefix: not deterministic"
                res.leaves.append((t.mass, v))
            except Truncated:
                res.truncated += t.mass
            finally:
                TAPE = None
            res.points += len(t.path) - len(prefix)
            for m, p in t.new:
                heapq.heappush(heap, (-m, next(cnt), p))
        if _fingerprint() != fp:
            res.uncontrolled = True
    res.truncated += sum(-m for m, _, _ in heap)
    return res


def many_seeds(fn, n):
    """Fallback when the source is not controlled: values of fn under n seeds (safety only)."""
    out = []
    for s in range(n):
        random.seed(s)
        np.random.seed(s)
        torch.manual_seed(s)
        out.append(fn())
    return out


class DevTape(Tape):
    """A base outcome (all first alternatives, all last alternatives, or a fixed pattern) with chosen deviations."""

    def __init__(self, base, devs, grid, limit):
        self.base, self.devs, self.grid, self.arity, self.limit = base, devs, grid, [], limit
        self.weights, self.chosen = [], []
        if isinstance(base, int):
            self.x = (base * 2654435761 + 97) % 2**32

    def pick(self, weights):
        ok = [i for i, w in enumerate(weights) if w > 0]
        if len(ok) == 1:
            return ok[0]
        pos = len(self.arity)
        self.arity.append(len(ok))
        if pos > self.limit:
            raise Truncated()
        if self.base == "first":
            k = 0
        elif self.base == "last":
            k = len(ok) - 1
        else:
            self.x = (self.x * 1664525 + 1013904223) % 2**32
            k = (self.x >> 8) % len(ok)
        k = (k + self.devs.get(pos, 0)) % len(ok)
        self.weights.append([weights[i] for i in ok])
        self.chosen.append(k)
        return ok[k]


def marginals(fn, base="last", grid=8, max_points=4000):
    """For every draw of the base execution: [(probability of the alternative, value of fn when only this draw takes it)].
    None if the source is not intercepted or the draws did not end."""
    global TAPE
    with _installed():
        fp = _fingerprint()

        def once(devs):
            global TAPE
            t = TAPE = DevTape(base, devs, grid, max_points)
            try:
                return fn(), t
            except Truncated:
                return None, t
            finally:
                TAPE = None

        v0, t0 = once({})
        if _fingerprint() != fp or v0 is None:
            return None
        out = []
        for p, n in enumerate(t0.arity):
            w = t0.weights[p]
            row = [(w[t0.chosen[p]], v0)]
            for d in range(1, n):
                v, t = once({p: d})
                if v is None:
                    return None
                row.append((w[(t0.chosen[p] + d) % n], v))
            out.append(row)
        return out if _fingerprint() == fp else None


def deviate(fn, base="first", grid=2, bound=1, max_points=4000, stride=1):
    """Deviation-bounded exploration: fn under the base outcome of all draws and under every outcome that differs from it in at
    most `bound` draws (bound 0, 1 or 2; with stride > 1 only every stride-th draw deviates). Yields (deviations, value); value is None if the draws did not end.
    Yields (None, None) first if the source is not intercepted."""
    global TAPE
    with _installed():
        fp = _fingerprint()

        def once(devs):
            global TAPE
            t = TAPE = DevTape(base, devs, grid, max_points)
            try:
                return fn(), t.arity
            except Truncated:
                return None, t.arity
            finally:
                TAPE = None

        v, ar = once({})
        out = [({}, v)]
        if _fingerprint() == fp and bound:
            single = [{p: d} for p in range(0, min(len(ar), max_points), stride) for d in range(1, ar[p])]
            for s in single:
                out.append((s, once(s)[0]))
            if bound > 1:
                for a, b in itertools.combinations(single, 2):
                    if set(a) != set(b):
                        out.append(({**a, **b}, once({**a, **b})[0]))
        unc = _fingerprint() != fp
    if unc:
        return [(None, None)] + out
    return out
