"""Separation of training, validation and test data in the experiment tasks."""
import itertools
import shutil

from checks import E01 as B

PID = "E02"
LEVEL = "model_checking"
CHUNK = 16
BOUNDS = {
    "quick": "vertex tasks (vertex / graph / hypergraph form) of 4 vertices: every assignment of the vertices to train, validation, test or none with non-empty parts (and a 5-vertex sample), for each every relabelling of the vertices outside the part under scrutiny and every single relabelling inside; recommender tasks of 2 users x 3 items: every split of the interactions, every single change of a training pair, test interaction or training mask; all orders of train / validate / test of length <= 4 with dropout and batch-norm models; boolean and index masks; larger tasks: 7 to 24 vertices with periodic and sorted partitions (every single relabelling, every relabelling of a whole part, fixed families of part changes), 4 x 6 and 7 x 11 interaction tables in batches of 2, 5, 16 and 64",
    "thorough": "as quick with 5 vertices over all assignments and orders of length <= 5, 48 vertices and 20 x 13 interactions",
}
ASSUME = ["a model depends on the data only through the features and the structure given to it"]


def cases(tier):
    th = tier == "thorough"
    i = 0
    for n in ((4, 5) if th else (4,)):
        for a in itertools.product("TVXN", repeat=n):
            if not {"T", "V", "X"} <= set(a):
                continue
            i += 1
            yield ["parts", ("vertex", "graph", "hyper")[i % 3], "".join(a), i % 2]
    for a in ("TTVXX", "XVTVT", "TVXNN", "VTXTV"):
        for k in ("vertex", "graph", "hyper"):
            for idx in (0, 1):
                yield ["parts", k, a, idx]
    for L in range(1, (5 if th else 4) + 1):
        for s in itertools.product("TVX", repeat=L):
            for k in ("vertex", "graph", "hyper", "recommender", "plain"):
                yield ["order", k, "".join(s)]
    for cells in itertools.product("TXN", repeat=6):
        # every user owns a training and a test interaction
        if all({"T", "X"} <= set(cells[u * 3:u * 3 + 3]) for u in (0, 1)):
            for k in ("recommender", "plain"):
                yield ["inter", k, "".join(cells)]
    yield from large(th)


def large(th):
    for n in (7, 12, 24, 48) if th else (7, 12, 24):
        for pat in ("TVX", "TTTVX", "XNVT", "TVVXXN", "NNXVT"):
            for shape in (0, 1):
                a = "".join(pat[i % len(pat)] for i in range(n))
                a = "".join(sorted(a)) if shape else a
                if {"T", "V", "X"} <= set(a):
                    for k in ("vertex", "graph", "hyper"):
                        for idx in (0, 1):
                            yield ["parts", k, a, idx]
    for nu, ni in ((4, 6), (7, 11)) + (((20, 13),) if th else ()):
        for v in range(6 if th else 3):
            cells = ["".join("TXN"[(u * (v + 1) + i * (2 * v + 1) + (u * i) % (v + 2)) % 3] for i in range(ni)) for u in range(nu)]
            if all({"T", "X"} <= set(c) for c in cells):
                for k in ("recommender", "plain"):
                    yield ["inter", k, "".join(cells)]


# ------------------------------------------------------------------------------- tasks


def mods():
    torch, nn, optuna, dhg, _ = B.env()

    class Net(nn.Module):
        """Linear model with batch norm and dropout; records the mode of every forward call."""

        def __init__(self, rec, n, drop=0.4):
            super().__init__()
            self.rec = rec
            g = torch.Generator().manual_seed(5)
            if rec:
                self.U, self.I = nn.Parameter(torch.randn(n and n[0] or 2, 3, generator=g)), nn.Parameter(torch.randn(n and n[1] or 3, 3, generator=g))
            self.lin = nn.Linear(3, 3 if rec else 2)
            with torch.no_grad():
                self.lin.weight.copy_(torch.randn(self.lin.weight.shape, generator=g))
                self.lin.bias.zero_()
            self.bn, self.drop, self.calls = nn.BatchNorm1d(3), nn.Dropout(drop), []

        def forward(self, *args):
            self.calls.append((self.training, self.bn.training, torch.is_grad_enabled(), len(args)))
            if self.rec:
                return self.lin(self.drop(self.bn(self.U))), self.I
            X, s = args
            A = X + (s.smoothing_with_HGNN(X) if isinstance(s, dhg.Hypergraph) else s.smoothing_with_GCN(X))
            return self.lin(self.drop(self.bn(A)))

    return torch, nn, dhg, Net


class Rec:
    """An evaluator of the public interface that records what it is shown."""

    def __init__(self):
        self.v, self.x, self.pend = [], [], []

    def validate(self, y, p):
        self.v.append((y.tolist(), p.detach().clone()))
        return float((p.argmax(1) == y).float().mean())

    def test(self, y, p):
        self.x.append((y.tolist(), p.detach().clone()))
        return {"acc": float((p.argmax(1) == y).float().mean())}

    def validate_add_batch(self, y, p):
        self.pend.append((y.tolist(), p.detach().clone()))

    def validate_epoch_res(self):
        self.v.append(self.pend)
        self.pend = []
        return 0.5

    def test_add_batch(self, y, p):
        self.pend.append((y.tolist(), p.detach().clone()))

    def test_epoch_res(self):
        self.x.append(self.pend)
        self.pend = []
        return {"acc": 0.5}


def task_of(kind, data, root, ev, name):
    torch, nn, dhg, Net = mods()
    import dhg.experiments as X

    cls = {"vertex": X.VertexClassificationTask, "graph": X.GraphVertexClassificationTask, "hyper": X.HypergraphVertexClassificationTask}.get(kind, X.UserItemRecommenderTask)
    return cls(root, data, lambda t: Net(kind in ("recommender", "plain"), 0), lambda t, m: {}, ev, torch.device("cpu"), study_name=name)


def structure(kind, n, dhg):
    if kind == "hyper":
        return dhg.Hypergraph(n, [tuple(range(i, min(i + 3, n))) for i in range(n - 1)])
    if kind == "recommender":
        return dhg.BiGraph(*n, [(i, i) for i in range(min(n))]) if n else dhg.BiGraph(2, 3, [(0, 0), (1, 2)])
    return None if kind == "plain" else dhg.Graph(n, [(i, i + 1) for i in range(n - 1)])


def feats(n):
    import torch

    return torch.tensor([[1.0, 0.5 * i, float((i * i) % 3)] for i in range(n)])


def state_of(m, grads=False):
    import torch

    out = [(k, v.clone()) for k, v in m.state_dict().items()]
    if grads:
        out += [("grad " + k, None if p.grad is None else p.grad.clone()) for k, p in m.named_parameters()]
        out += [("req " + k, torch.tensor(p.requires_grad)) for k, p in m.named_parameters()]
    return out


def same(a, b):
    import torch

    return len(a) == len(b) and all(k == l and ((x is None and y is None) or (x is not None and y is not None and torch.equal(x, y))) for (k, x), (l, y) in zip(a, b))


def run(case, ctx):
    ctx.count(case[0])
    root = B.scratch()
    try:
        globals()["do_" + case[0]](case, ctx, root)
    finally:
        B.close_logs()
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------------- vertex tasks


def vertex_data(kind, parts, idx, labels):
    torch, nn, dhg, Net = mods()
    d = {"features": feats(len(parts)), "structure": structure(kind, len(parts), dhg), "labels": torch.tensor(labels)}
    for k, c in (("train_mask", "T"), ("val_mask", "V"), ("test_mask", "X")):
        m = torch.tensor([p == c for p in parts])
        d[k] = m.nonzero().flatten() if idx else m
    return d


def labellings(base, where):
    """Every labelling of a small vertex set; of a larger one every single change, every change of a whole part and of every pair of parts."""
    n = len(base)
    if n <= 6:
        yield from itertools.product((0, 1), repeat=n)
        return
    rest = [i for i in range(n) if not any(i in w for w in where.values())]
    sets = [[]] + [[i] for i in range(n)] + [where["V"], where["X"], rest, where["V"] + where["X"], where["V"] + where["X"] + rest, where["T"]]
    for t in sets:
        yield [1 - b if i in t else b for i, b in enumerate(base)]


def train_twice(task, data):
    torch, nn, dhg, Net = mods()
    torch.manual_seed(11)
    m = Net(False, 0)
    opt = torch.optim.Adam(m.parameters(), lr=0.1)
    for _ in range(2):
        task.train(data, m, opt, nn.CrossEntropyLoss())
    return m


def do_parts(case, ctx, root):
    torch, nn, dhg, Net = mods()
    _, kind, parts, idx = case
    n = len(parts)
    base = [i % 2 for i in range(n)]
    ev = Rec()
    task = task_of(kind, vertex_data(kind, parts, idx, base), root, ev, "s")
    m0 = train_twice(task, task.data)
    s0 = state_of(m0)
    # what the three steps should see, from the definition
    fresh = mods()[3](False, 0)
    fresh.load_state_dict(m0.state_dict())
    fresh.eval()
    with torch.no_grad():
        pred = fresh(task.data["features"], task.data["structure"])
    where = {c: [i for i in range(n) if parts[i] == c] for c in "TVX"}

    def shown(rec, c, labels, what):
        y, p = rec
        ctx.check(y == [labels[i] for i in where[c]] and torch.allclose(p, pred[where[c]], atol=1e-6), what, lambda: f"{case}: {what} judged labels {y} with predictions {p.tolist()}, its part {where[c]} has {[labels[i] for i in where[c]]} and {pred[where[c]].tolist()}")

    def evaluate(labels):
        d = vertex_data(kind, parts, idx, labels)
        ev.v.clear(), ev.x.clear()
        r1 = task.validate(d, m0)
        r2 = task.test(d, m0)
        ctx.step(2)
        shown(ev.v[0], "V", labels, "validate")
        shown(ev.x[0], "X", labels, "test")
        acc = lambda c: sum(int(pred[i].argmax()) == labels[i] for i in where[c]) / len(where[c])
        ctx.check(abs(r1 - acc("V")) < 1e-6 and abs(r2["acc"] - acc("X")) < 1e-6, "score", lambda: f"{case}: {r1} {r2}")
        ctx.check(same(state_of(m0), s0), "changed-model", lambda: f"{case}: validating or testing changed the model")

    for lab in labellings(base, where):
        lab = list(lab)
        d = vertex_data(kind, parts, idx, lab)
        ctx.trace()
        if all(lab[i] == base[i] for i in where["T"]):
            m = train_twice(task, d)
            ctx.step(2)
            ctx.check(same(state_of(m), s0), "train-leak", lambda: f"{case}: labels {lab} instead of {base} differ outside the training vertices {where['T']} only, yet training gave other parameters")
        elif sum(lab[i] != base[i] for i in range(n)) == 1:
            m = train_twice(task, d)
            ctx.step(2)
            ctx.check(not same(state_of(m), s0), "train-ignores", lambda: f"{case}: relabelling a training vertex ({lab}) changed nothing")
        evaluate(lab)
        ctx.state((kind, parts, tuple(lab)))
    # part changes: moving a vertex between V, X and N never affects training
    free = n - len(where["T"])
    for alt in itertools.product("VXN", repeat=free) if n <= 6 else [tuple("VXN"[(a * i + b) % 3] for i in range(free)) for a in (1, 2, 4, 5) for b in range(3)] + [("V",) * k + ("X",) * (free - k) for k in range(1, free)]:
        it = iter(alt)
        q = [p if p == "T" else next(it) for p in parts]
        if {"V", "X"} <= set(q):
            m = train_twice(task, vertex_data(kind, "".join(q), idx, base))
            ctx.step(2)
            ctx.check(same(state_of(m), s0), "train-leak", lambda: f"{case}: masks {''.join(q)} gave other parameters")
    # labels are not written to
    ctx.check(task.data["labels"].tolist() == base and torch.equal(task.data["features"], feats(n)), "data-changed", str(case))
    # without data or model, the task's own data, best structure and best model are used
    task.best_model, task.best_structure = m0, task.data["structure"]
    ev.x.clear()
    task.test()
    shown(ev.x[0], "X", base, "test")
    ctx.outcome((kind, parts, idx))


# ------------------------------------------------------------------------------- call orders


def do_order(case, ctx, root):
    torch, nn, dhg, Net = mods()
    _, kind, seq = case
    rec = kind in ("recommender", "plain")
    ev = Rec()
    if rec:
        u = torch.tensor([0, 1])
        data = {"train_loader": [(u, torch.tensor([0, 2]), torch.tensor([1, 1])), (u.flip(0), torch.tensor([2, 0]), torch.tensor([1, 1]))],
                "test_loader": [(u[:1], torch.tensor([[-1e8, 0.0, 0.0]]), torch.tensor([[0.0, 1, 0]])), (u[1:], torch.tensor([[0.0, 0, -1e8]]), torch.tensor([[1.0, 0, 0]]))]}
        if kind == "recommender":
            data["structure"] = structure(kind, 0, dhg)
        crit = lambda a, b, us, p, n, model: -nn.functional.logsigmoid(((a[us] * b[p]).sum(1) - (a[us] * b[n]).sum(1))).mean()
    else:
        data = vertex_data(kind, "TTVX", 0, [0, 1, 1, 0])
        crit = nn.CrossEntropyLoss()
    task = task_of(kind, data, root, ev, "s")
    task.best_structure = data.get("structure", None)

    def go(ops, check):
        torch.manual_seed(7)
        m = Net(rec, 0)
        task.best_model = m
        opt = torch.optim.Adam(m.parameters(), lr=0.05)
        for k, o in enumerate(ops):
            m.calls.clear()
            if o == "T":
                task.train(task.data, m, opt, crit)
                ctx.check(all(c[0] and c[1] and c[2] for c in m.calls) and m.calls, "train-mode", lambda: f"{case}: step {k} trains in modes (training, batch norm, grad) {m.calls}")
            else:
                before, rng = state_of(m, True), torch.get_rng_state()
                task.validate(task.data, m) if o == "V" else (task.test(task.data, m) if k % 2 else task.test())
                ctx.check(m.calls and not any(c[0] or c[1] or c[2] for c in m.calls), "eval-mode", lambda: f"{case}: step {k} evaluates in modes (training, batch norm, grad) {m.calls}")
                ctx.check(same(before, state_of(m, True)), "changed-model", lambda: f"{case}: step {k} ({o}) changed parameters, buffers or gradients")
                ctx.check(torch.equal(rng, torch.get_rng_state()), "rng", lambda: f"{case}: step {k} ({o}) used up random numbers")
            ctx.check(all(c[3] == (0 if kind == "plain" else 1 if rec else 2) for c in m.calls), "arguments", lambda: f"{case}: model called with {[c[3] for c in m.calls]} arguments")
            ctx.step()
            ctx.state((kind, ops[:k + 1]))
        return state_of(m)

    a = go(seq, True)
    b = go(seq.replace("V", "").replace("X", ""), False)
    ctx.trace(2)
    ctx.check(same(a, b), "order", lambda: f"{case}: interleaved validation and tests changed the outcome of training")
    ctx.outcome((kind, seq))


# ------------------------------------------------------------------------------- recommender


def size(cells):
    return {6: (2, 3), 24: (4, 6), 77: (7, 11), 260: (20, 13)}[len(cells)]


def loaders(cells, bs):
    """Training batches and test batches of an interaction table."""
    import torch

    nu, ni = size(cells)
    tr = [(u, i) for u in range(nu) for i in range(ni) if cells[u * ni + i] == "T"]
    if nu > 2:  # mixed order
        tr = [tr[(k * 7 + 3) % len(tr)] for k in range(len(tr))] if len(tr) % 7 else tr[::-1]
    neg = [min(i for i in range(ni) if cells[u * ni + i] != "T") for u, _ in tr]
    train = [(torch.tensor([u for u, _ in tr[k:k + bs]]), torch.tensor([i for _, i in tr[k:k + bs]]), torch.tensor(neg[k:k + bs])) for k in range(0, len(tr), bs)]
    mask = torch.tensor([[-1e8 if cells[u * ni + i] == "T" else 0.0 for i in range(ni)] for u in range(nu)])
    true = torch.tensor([[1.0 if cells[u * ni + i] == "X" else 0.0 for i in range(ni)] for u in range(nu)])
    tbs = (1 if bs == 2 else 2) if nu == 2 else {2: 1, 5: 3, 16: 4, 64: nu}[bs]
    us = torch.arange(nu) if nu == 2 else torch.arange(nu).flip(0)
    test = [(us[k:k + tbs], mask[us[k:k + tbs]], true[us[k:k + tbs]]) for k in range(0, nu, tbs)]
    return train, test, mask, true


def do_inter(case, ctx, root):
    torch, nn, dhg, Net = mods()
    _, kind, cells = case
    ev = Rec()
    nu, ni = size(cells)
    st = structure("recommender", None if nu == 2 else (nu, ni), dhg) if kind == "recommender" else None
    crit = lambda a, b, us, p, n, model: -nn.functional.logsigmoid(((a[us] * b[p]).sum(1) - (a[us] * b[n]).sum(1))).mean()

    def data_of(train, test):
        d = {"train_loader": train, "test_loader": test}
        if st is not None:
            d["structure"] = st
        return d

    for bs in (1, 2, 6) if nu == 2 else (2, 5, 16, 64):
        train, test, mask, true = loaders(cells, bs)
        task = task_of(kind, data_of(train, test), root, ev, f"s{bs}")

        def fit(train, test):
            torch.manual_seed(3)
            m = Net(True, (nu, ni), 0.0)
            opt = torch.optim.SGD(m.parameters(), lr=0.3)
            for _ in range(2):
                task.train(data_of(train, test), m, opt, crit)
            return m

        m0 = fit(train, test)
        s0 = state_of(m0)
        ref = Net(True, (nu, ni), 0.0)
        opt = torch.optim.SGD(ref.parameters(), lr=0.3)
        torch.manual_seed(3)
        for _ in range(2):
            for us, p, q in train:
                ref.train()
                opt.zero_grad()
                a, b = ref()
                crit(a, b, us, p, q, None).backward()
                opt.step()
        ctx.check(all(torch.allclose(x, y, atol=1e-6) for (_, x), (_, y) in zip(s0, state_of(ref))), "train-definition", lambda: f"{case} batches of {bs}: one optimiser step per training batch gives other parameters")
        ctx.step(2 * len(train))
        # training ignores test data; every single training pair matters
        for i in range(nu * ni):
            u, it = divmod(i, ni)
            if nu > 2 and (i + bs) % 5:
                continue
            t2 = [(us, mk.clone(), tr.clone()) for us, mk, tr in test]
            for us, mk, tr in t2:
                for r, x in enumerate(us.tolist()):
                    if x == u:
                        tr[r, it] = 1 - tr[r, it]
            m = fit(train, t2)
            ctx.check(same(state_of(m), s0), "train-leak", lambda: f"{case}: flipping test entry {u},{it} changed the trained parameters")
            ctx.step(2)
            ctx.trace()
            for fn in ("validate", "test"):
                ev.v.clear(), ev.x.clear()
                d2 = data_of([], t2)
                task.validate(d2, m0) if fn == "validate" else task.test(d2, m0)
                seen = (ev.v if fn == "validate" else ev.x)[0]
                m0.eval()
                with torch.no_grad():
                    a, b = m0()
                    full = a @ b.t() + mask
                wy = [tr.tolist() for _, _, tr in t2]
                ctx.check([y for y, _ in seen] == wy and all(torch.allclose(p, full[us], atol=1e-4, rtol=1e-5) for (us, _, _), (_, p) in zip(t2, seen)), fn, lambda: f"{case}: {fn} judged {seen}, expected the test rows {wy} with masked scores {full.tolist()}")
                ctx.check(same(state_of(m0), s0), "changed-model", f"{case}: {fn} changed the model")
        for j in range(len(train)):
            t2 = list(train)
            us, p, q = t2[j]
            t2[j] = (us, q, p)
            ctx.check(not same(state_of(fit(t2, test)), s0), "train-ignores", lambda: f"{case}: exchanging the pairs of training batch {j} changed nothing")
        # the mask hides training items from the ranking
        with torch.no_grad():
            top = full.argmax(1)
        ctx.check(all(cells[u * ni + int(top[u])] != "T" for u in range(nu)), "masked", f"{case}: {full}")
        ctx.state((kind, cells, bs))
    ctx.outcome((kind, cells))
