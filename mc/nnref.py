"""Dense reference formulas of the convolution layers and models (torch double, differentiable).

`P` maps the layer's own state_dict keys to double tensors; `S` is a dense view of the structure built from the model."""
import numpy as np
import torch

from . import structs

D = torch.double


def t(a):
    return torch.tensor(np.asarray(a, dtype=float), dtype=D)


class GraphS:
    """dense view of a graph / bipartite graph model"""

    def __init__(self, m):
        if m.kind == "BiGraph":
            N = m.nu + m.nv
            A1 = np.eye(N)
            A1[: m.nu, m.nu:] += m.B()
            A1[m.nu:, : m.nu] += m.B().T
            self.B = t(m.B())
        else:
            N = m.n
            A1 = m.A() if m.extra else m.A() + np.eye(N)
            A = m.A()
            self.A, self.mask = t(A), torch.tensor(A != 0)
            self.mean = t(np.array([1 / x if x else 0.0 for x in A.sum(1)])[:, None] * A)
        self.n = N
        s = structs.inv_pow(A1.sum(1), -0.5)
        self.Lgcn = t(s[:, None] * A1 * s)


class HyperS:
    """dense view of a hypergraph model (hyperedge order is irrelevant to every formula below)"""

    def __init__(self, m):
        edges = m.edges()
        H = m.H(edges) if edges else np.zeros((m.n, 0))
        w = np.array([x for _, x in edges], dtype=float)
        self.n, self.edges = m.n, edges
        self.H, self.mask, self.w = t(H), torch.tensor(H != 0), t(w)
        dv, de = (H * w).sum(1), H.sum(0)
        self.dv = t(dv)
        self.dvi, self.dvh = t(structs.inv_pow(dv, -1)), t(structs.inv_pow(dv, -0.5))
        self.dei = t(structs.inv_pow(de, -1))
        self.Lh = self.dvh[:, None] * ((self.H * (self.w * self.dei)) @ self.H.T) * self.dvh
        # UniGCN: mean degree of the members of each hyperedge
        self.uni = t(structs.inv_pow((H * dv[:, None]).sum(0) / np.maximum(de, 1), -0.5))

    def v2e(self, X):
        return (self.w * self.dei)[:, None] * (self.H.T @ X)

    def e2v_mean(self, Y):
        return self.dvi[:, None] * (self.H @ Y)


def softmax_rows(scores, mask, X):
    """softmax over the existing paths of every row, then weighted sum; rows without path give zero"""
    if scores.shape[1] == 0:
        return torch.zeros(scores.shape[0], X.shape[1], dtype=D) + 0 * X.sum()
    neg = torch.where(mask, scores, torch.full_like(scores, -1e30))
    a = torch.softmax(neg, dim=1) * mask.to(D)
    return a @ X


def lin(P, pre, X):
    r = X @ P[pre + "weight"].T
    return r + P[pre + "bias"] if pre + "bias" in P else r


def bn(P, pre, X):
    if pre + "running_mean" not in P:
        return X
    return (X - P[pre + "running_mean"]) / (P[pre + "running_var"] + 1e-5).sqrt() * P[pre + "weight"] + P[pre + "bias"]


relu = torch.relu


def leaky(x, a=0.2):
    return torch.nn.functional.leaky_relu(x, a)


def elu(x):
    return torch.nn.functional.elu(x)


def post(P, pre, X, last, act=relu, drop=None):
    if last:
        return X
    X = bn(P, pre + "bn.", act(X))
    return X * drop(X.shape) if drop else X


def gcn(P, X, S, last=False, pre="", drop=None, **_):
    return post(P, pre, S.Lgcn @ lin(P, pre + "theta.", X), last, drop=drop)


def path_drop(S, drop):
    """one dropout factor per message path"""
    if drop is None:
        return 1.0
    M = torch.ones(S.mask.shape, dtype=D)
    M[S.mask] = drop((int(S.mask.sum()),))
    return M


def gat(P, X, S, last=False, pre="", slope=0.2, drop=None, **_):
    X = lin(P, pre + "theta.", X)
    src, dst = lin(P, pre + "atten_src.", X)[:, 0], lin(P, pre + "atten_dst.", X)[:, 0]
    sc = (leaky(dst[:, None] + src[None, :], slope) * path_drop(S, drop)).clamp(0.001, 5)
    return post(P, pre, softmax_rows(sc, S.mask, X), last, elu)


def sage(P, X, S, last=False, pre="", drop=None, **_):
    return post(P, pre, lin(P, pre + "theta.", torch.cat([X, S.mean @ X], 1)), last, drop=drop)


def hgnn(P, X, S, last=False, pre="", drop=None, **_):
    return post(P, pre, S.Lh @ lin(P, pre + "theta.", X), last, drop=drop)


def jh(P, X, S, last=False, pre="", drop=None, **_):
    return post(P, pre, S.Lh @ lin(P, pre + "theta.", X) + X, last, drop=drop)


def hgnnp(P, X, S, last=False, pre="", drop=None, **_):
    return post(P, pre, S.e2v_mean(S.v2e(lin(P, pre + "theta.", X))), last, drop=drop)


def hnhn(P, X, S, last=False, pre="", drop=None, **_):
    Y = relu(S.v2e(lin(P, pre + "theta_v2e.", X)))
    return post(P, pre, S.e2v_mean(lin(P, pre + "theta_e2v.", Y)), last, drop=drop)


def unigcn(P, X, S, last=False, pre="", drop=None, **_):
    Y = S.uni[:, None] * S.v2e(lin(P, pre + "theta.", X))
    return post(P, pre, S.dvh[:, None] * (S.H @ Y), last, drop=drop)


def unigat(P, X, S, last=False, pre="", slope=0.2, drop=None, **_):
    Y = S.v2e(lin(P, pre + "theta.", X))
    sc = (leaky(lin(P, pre + "atten_e.", Y)[:, 0], slope)[None, :].expand(S.n, -1) * path_drop(S, drop)).clamp(0.001, 5)
    return post(P, pre, softmax_rows(sc, S.mask, Y), last, elu)


def unisage(P, X, S, last=False, pre="", drop=None, **_):
    X = lin(P, pre + "theta.", X)
    return post(P, pre, S.H @ S.v2e(X) + X, last, drop=drop)


def unigin(P, X, S, last=False, pre="", eps=0.0, drop=None, **_):
    X = lin(P, pre + "theta.", X)
    e = P.get(pre + "eps", eps)
    return post(P, pre, (1 + e) * X + S.H @ S.v2e(X), last, drop=drop)


def params(layer):
    P = {}
    for k, v in layer.state_dict().items():
        P[k] = v.detach().to(D).clone().requires_grad_(v.is_floating_point() and "running" not in k)
    return P


def fill(layer, seed):
    """deterministic irregular parameter values (no ties, both signs), irregular batch-norm statistics"""
    i = seed
    with torch.no_grad():
        for k, v in sorted(layer.state_dict().items()):
            if not v.is_floating_point():
                continue
            flat = v.reshape(-1)
            for j in range(flat.numel()):
                x = ((i * 37 + j * 53 + j * j * 7) % 101) / 53.0 - 0.9517 + 0.0013 * j
                if "running_var" in k:
                    x = 0.5 + abs(x)
                flat[j] = x
            i += 11
    return layer


def mlp(P, X, pre="", act=relu, last=False, drop=None):
    """stack of linear layers, each (but the last one, if `last`) followed by activation, batch norm (if any) and dropout"""
    idx = sorted({int(k[len(pre) + 7:].split(".")[0]) for k in P if k.startswith(pre + "layers.")})
    lins = [i for i in idx if P[f"{pre}layers.{i}.weight"].ndim == 2]
    bns = [i for i in idx if f"{pre}layers.{i}.running_mean" in P]
    for k, i in enumerate(lins):
        X = lin(P, f"{pre}layers.{i}.", X)
        if last and k == len(lins) - 1:
            break
        X = act(X)
        if k < len(bns):
            X = bn(P, f"{pre}layers.{bns[k]}.", X)
        if drop:
            X = X * drop(X.shape)
    return X


def gin(P, X, S, pre="", eps=0.0, last=False, drop=None, **_):
    e = P.get(pre + "eps", eps)
    return mlp(P, (1 + e) * X + S.A @ X, pre + "MLP.", last=last, drop=drop)


# ---------------------------------------------------------------- models
def two_layers(conv, **kw):
    def f(P, X, S, drop=None):
        return conv(P, conv(P, X, S, pre="layers.0.", drop=drop, **kw), S, pre="layers.1.", last=True, **kw)
    return f


def attention_model(conv, heads, slope=0.2):
    def f(P, X, S, drop=None):
        if drop:
            X = X * drop(X.shape)
        X = torch.cat([conv(P, X, S, pre=f"multi_head_layer.layers.{h}.", slope=slope, drop=drop) for h in range(heads)], 1)
        if drop:
            X = X * drop(X.shape)
        return conv(P, X, S, pre="out_layer.", slope=slope, drop=drop)
    return f


def gin_model(layers, eps):
    def f(P, X, S, drop=None):
        out = lin(P, "pred_layers.0.", X)
        for i in range(layers):
            X = gin(P, X, S, pre=f"layers.{i}.", eps=eps, drop=drop)
            out = out + lin(P, f"pred_layers.{i + 1}.", X)
        return out
    return f


def embeddings(P):
    return torch.cat([P["u_embedding.weight"], P["i_embedding.weight"]], 0)


def lightgcn(layers):
    def f(P, S, drop=None):
        E = [embeddings(P)]
        for _ in range(layers):
            L = S.Lgcn
            if drop:
                M = torch.ones_like(L)
                k = L != 0
                M[k] = drop((int(k.sum()),))
                L = L * M
            E.append(L @ E[-1])
        return torch.stack(E).mean(0)
    return f


def unit(X):
    return X / X.norm(dim=1, keepdim=True).clamp(min=1e-12)


def ngcf(layers, dhcf=False):
    def f(P, S, drop=None):
        X = embeddings(P)
        E = [X]
        for i in range(layers):
            g = S.Lgcn @ X
            a = lin(P, f"W_gc.{i}.", g)
            X = leaky(a + X if dhcf else a) + leaky(lin(P, f"W_bi.{i}.", X * g))
            if drop:
                X = X * drop(X.shape)
            X = unit(X)
            E.append(X)
        return torch.stack(E).mean(0)
    return f


class Block:
    """two independent hypergraphs side by side (users, items): the operator used in place of the graph Laplacian"""

    def __init__(self, a, b):
        self.n = a.n + b.n
        self.Lgcn = torch.block_diag(a.Lh, b.Lh)


def seq(P, X, pre, acts, drop=None):
    idx = sorted({int(k[len(pre):].split(".")[0]) for k in P if k.startswith(pre)})
    for k, i in enumerate(idx):
        X = acts[k](lin(P, f"{pre}{i}.", X))
        if k == 0 and drop:
            X = X * drop(X.shape)
    return X


def bgnn(depth, mlp_decoder):
    def f(P, Xu, Xv, S, drop=None):
        for i in range(depth):
            if i % 2 == 0:
                Xu = torch.tanh(S.B @ lin(P, f"layers.{i}.", Xv))
                if mlp_decoder:
                    Xu = seq(P, Xu, f"decoders.{i}.layers.", (relu, torch.tanh), drop)
            else:
                Xv = torch.tanh(S.B.T @ lin(P, f"layers.{i}.", Xu))
                if mlp_decoder:
                    Xv = seq(P, Xv, f"decoders.{i}.layers.", (relu, torch.tanh), drop)
        return Xu
    return f
