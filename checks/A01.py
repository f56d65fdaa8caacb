"""Every way of writing a call means the same: options left out are the documented defaults, positional arguments follow the
documented order, and every combination of options given by keyword equals the positional form."""
import copy
import itertools
import os
import pickle
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch

from mc import defaults, structs
from mc.cmp import dense, same, show

PID = "A01"
LEVEL = "model_checking"
CHUNK = {"quick": 4, "thorough": 4}
BOUNDS = {
    "quick": "about 110 public functions and methods (structures, conversions, message passing, generators, metrics, evaluators, splits, datasets, id maps, sparse and feature transforms, loaders, drawing, tasks): no option, every single option and every pair of options spelled out as its documented default, every subset of <=2 options set to another value by keyword and positionally, all options positionally; every layer and model constructor with its options left out, spelled out and given positionally in the documented order",
    "thorough": "as quick with every subset of <=4 options",
}
ASSUME = ["two calls that draw random numbers are compared from the same seeds", "the device option only takes the CPU"]
CPU = torch.device("cpu")
REQ = object()


def X(n, c=2, k=0):
    return torch.tensor([[(((17 * i + 29 * j + 5 * i * j + 7 * k) % 23) - 11.3) / 6.1 for j in range(c)] for i in range(n)])


def w(n, k=0):
    return torch.tensor([0.5 + ((7 * i + 3 * k) % 5) * 0.75 for i in range(n)])


def graph():
    import dhg

    return dhg.Graph(4, [(0, 1), (1, 2), (3, 2), (3, 3)], [2.0, 0.5, 3.0, 1.5])


def digraph():
    import dhg

    return dhg.DiGraph(4, [(0, 1), (1, 2), (3, 2), (2, 0), (0, 2), (1, 0), (1, 3), (3, 1)], [2.0, 0.5, 3.0, 1.5, 4.0, 1.0, 2.5, 0.75])


def bigraph():
    import dhg

    return dhg.BiGraph(2, 3, [(0, 1), (1, 2), (1, 0), (1, 1), (0, 2)], [2.0, 0.5, 3.0, 1.5, 4.0])


def hyper():
    import dhg

    h = dhg.Hypergraph(4, [(0, 1, 2), (1, 3)], [2.0, 0.5], v_weight=[1.0, 2.0, 0.5, 3.0])
    h.add_hyperedges([(0, 3), (0, 1, 3), (1, 2, 3), (0, 2)], [3.0, 4.0, 1.5, 0.75], group_name="a")
    return h


def meth(make, name, changes=False):
    """a method of a fresh object; with changes, the object's contents afterwards belong to the result"""

    def call(*a, **k):
        o = make()
        r = getattr(o, name)(*a, **k)
        return [r, structs.snapshot(o)] if changes else r

    return call


DEV = ("device", CPU, None)
MERGE = ("merge_op", "mean", "sum")


def specs():
    """label, function of the call's arguments, required arguments [(name, value)], options [(name, documented default, another value or None)]"""
    import dhg
    from dhg import datapipe as P, metrics as M, random as R, utils as U
    from dhg.metrics import classification as mc_, recommender as mr, retrieval as mt

    out = []

    def add(label, f, req, opts, **kw):
        out.append((label, f, req, opts, kw))

    dup = [(0, 1), (1, 0), (1, 2)]
    add("Graph", dhg.Graph, [("num_v", 3)], [("e_list", None, dup), ("e_weight", None, [1.0, 2.0, 4.0]), ("extra_selfloop", False, True), MERGE, DEV], need={"e_weight": "e_list", "merge_op": "e_weight"})
    add("DiGraph", dhg.DiGraph, [("num_v", 3)], [("e_list", None, [(0, 1), (0, 1), (2, 1)]), ("e_weight", None, [1.0, 2.0, 4.0]), ("extra_selfloop", False, True), MERGE, DEV], need={"e_weight": "e_list", "merge_op": "e_weight"})
    add("BiGraph", dhg.BiGraph, [("num_u", 2), ("num_v", 3)], [("e_list", None, [(0, 1), (0, 1), (1, 2)]), ("e_weight", None, [1.0, 2.0, 4.0]), MERGE, DEV], need={"e_weight": "e_list", "merge_op": "e_weight"})
    add("Hypergraph", dhg.Hypergraph, [("num_v", 3)], [("e_list", None, [(0, 1), (1, 0), (1, 2)]), ("e_weight", None, [1.0, 2.0, 4.0]), ("v_weight", None, [1.0, 3.0, 2.0]), MERGE, DEV], need={"e_weight": "e_list", "merge_op": "e_weight"})
    for n, mk, es in (("Graph", graph, [(0, 1), (0, 3)]), ("DiGraph", digraph, [(0, 1), (0, 3)]), ("BiGraph", bigraph, [(0, 1), (0, 0)])):
        add(n + ".add_edges", meth(mk, "add_edges", True), [("e_list", es)], [("e_weight", None, [4.0, 8.0]), MERGE])
        add(n + ".drop_edges", meth(mk, "drop_edges"), [("drop_rate", 0.5)], [("ord", "uniform", None)])
        add(n + ".remove_edges", meth(mk, "remove_edges", True), [("e_list", es[:1])], [])
    add("Hypergraph.add_hyperedges", meth(hyper, "add_hyperedges", True), [("e_list", [(1, 3), (2,)])], [("e_weight", None, [4.0, 8.0]), MERGE, ("group_name", "main", "a")])
    add("Hypergraph.remove_hyperedges", meth(hyper, "remove_hyperedges", True), [("e_list", [(0, 3)])], [("group_name", None, "main")])
    add("Hypergraph.drop_hyperedges", meth(hyper, "drop_hyperedges"), [("drop_rate", 0.5)], [("ord", "uniform", None)])
    add("Hypergraph.drop_hyperedges_of_group", meth(hyper, "drop_hyperedges_of_group"), [("group_name", "a"), ("drop_rate", 0.5)], [("ord", "uniform", None)])
    add("Hypergraph.add_hyperedges_from_bigraph", lambda *a, **k: meth(lambda: dhg.Hypergraph(3 if (a[1:2] or (k.get("U_as_vertex", False),))[0] is False else 2), "add_hyperedges_from_bigraph", True)(*a, **k), [("bigraph", bigraph)], [("U_as_vertex", False, True), ("group_name", "main", "z")])
    add("Hypergraph.add_hyperedges_from_feature_kNN", meth(lambda: dhg.Hypergraph(4), "add_hyperedges_from_feature_kNN", True), [("feature", X(4)), ("k", 2)], [("group_name", "main", "z")])
    add("Hypergraph.add_hyperedges_from_graph", meth(lambda: dhg.Hypergraph(4), "add_hyperedges_from_graph", True), [("graph", graph)], [("group_name", "main", "z")])
    add("Hypergraph.add_hyperedges_from_graph_kHop", meth(lambda: dhg.Hypergraph(4), "add_hyperedges_from_graph_kHop", True), [("graph", graph), ("k", 2)], [("only_kHop", False, True), ("group_name", "main", "z")])
    adj = [[0, 1, 2], [1, 0], [2, 2]]
    add("Graph.from_adj_list", dhg.Graph.from_adj_list, [("num_v", 3), ("adj_list", adj)], [("extra_selfloop", False, True), DEV])
    add("DiGraph.from_adj_list", dhg.DiGraph.from_adj_list, [("num_v", 3), ("adj_list", adj)], [("extra_selfloop", False, True), DEV])
    add("BiGraph.from_adj_list", dhg.BiGraph.from_adj_list, [("num_u", 2), ("num_v", 3), ("adj_list", adj[:2])], [DEV])
    add("BiGraph.from_hypergraph", dhg.BiGraph.from_hypergraph, [("hypergraph", hyper)], [("vertex_as_U", True, False), ("weighted", False, True), DEV])
    add("DiGraph.from_feature_kNN", dhg.DiGraph.from_feature_kNN, [("features", X(7, 3)), ("k", 2)], [("p", 2, 1), ("distance2weight", False, True), ("include_center", False, True), ("center_as_src", True, False), DEV])
    add("Graph.from_hypergraph_clique", dhg.Graph.from_hypergraph_clique, [("hypergraph", hyper)], [("weighted", False, True), ("miu", 1.0, 0.5), DEV], need={"miu": "weighted"})
    add("Graph.from_hypergraph_star", dhg.Graph.from_hypergraph_star, [("hypergraph", hyper)], [("weighted", False, True), ("merge_op", "sum", "mean"), DEV], need={"merge_op": "weighted"})
    add("Graph.from_hypergraph_hypergcn", dhg.Graph.from_hypergraph_hypergcn, [("hypergraph", hyper), ("feature", X(4))], [("with_mediator", False, True), ("remove_selfloop", True, False), DEV])
    add("Hypergraph.from_bigraph", dhg.Hypergraph.from_bigraph, [("bigraph", bigraph)], [("U_as_vertex", True, False), DEV])
    add("Hypergraph.from_feature_kNN", dhg.Hypergraph.from_feature_kNN, [("features", X(5, 3)), ("k", 3)], [DEV])
    add("Hypergraph.from_graph", dhg.Hypergraph.from_graph, [("graph", graph)], [DEV])
    add("Hypergraph.from_graph_kHop", dhg.Hypergraph.from_graph_kHop, [("graph", graph), ("k", 2)], [("only_kHop", False, True), DEV])
    for n in ("N_v", "nbr_v"):
        add("Graph." + n, meth(graph, n), [("v_idx", 0)], [("hop", 1, 2)])
    add("Hypergraph.subgraph", meth(hyper, "subgraph"), [("v_list", [0, 1, 3])], [])
    # message passing
    A, DR = ("aggr", "mean", "sum"), ("drop_rate", 0.0, 0.5)
    ne = lambda o: o().e_weight.shape[0]
    add("Graph.v2v", meth(graph, "v2v"), [("X", X(4))], [A, ("e_weight", None, w(ne(graph))), DR])
    add("Graph.smoothing_with_GCN", meth(graph, "smoothing_with_GCN"), [("X", X(4))], [DR])
    add("DiGraph.v2v", meth(digraph, "v2v"), [("X", X(4))], [A, ("e_weight", None, w(ne(digraph))), ("direction", "dst2src", "src2dst"), DR])
    add("BiGraph.u2v", meth(bigraph, "u2v"), [("X", X(2))], [A, ("e_weight", None, w(5)), DR])
    add("BiGraph.v2u", meth(bigraph, "v2u"), [("X", X(3))], [A, ("e_weight", None, w(5)), DR])
    add("BiGraph.smoothing_with_GCN", meth(bigraph, "smoothing_with_GCN"), [("X", X(5))], [DR])
    for g in (None, "a"):
        h = hyper()
        E, N = (h.num_e, h.v2e_weight.shape[0]) if g is None else (h.num_e_of_group(g), h.v2e_weight_of_group(g).shape[0])
        pre, suf = ([], "") if g is None else ([("group_name", g)], "_of_group")
        H = lambda n: ("Hypergraph." + n + suf, meth(hyper, n + suf))
        add(*H("smoothing_with_HGNN"), pre + [("X", X(4))], [DR])
        add(*H("v2e"), pre + [("X", X(4))], [A, ("v2e_weight", None, w(N)), ("e_weight", None, w(E, 1)), DR])
        add(*H("v2e_aggregation"), pre + [("X", X(4))], [A, ("v2e_weight", None, w(N)), DR])
        add(*H("v2e_update"), pre + [("X", X(E))], [("e_weight", None, w(E, 1))])
        add(*H("e2v"), pre + [("X", X(E))], [A, ("e2v_weight", None, w(N)), DR])
        add(*H("e2v_aggregation"), pre + [("X", X(E))], [A, ("e2v_weight", None, w(N)), DR])
        add(*H("e2v_update"), pre + [("X", X(4))], [])
        add(*H("v2v"), pre + [("X", X(4))], [A, DR, ("v2e_aggr", None, "sum"), ("v2e_weight", None, w(N)), ("v2e_drop_rate", None, 0.4), ("e_weight", None, w(E, 1)), ("e2v_aggr", None, "softmax_then_sum"), ("e2v_weight", None, w(N, 2)), ("e2v_drop_rate", None, 0.3)])
    # random
    add("hypergraph_Gnm", R.hypergraph_Gnm, [("num_v", 5), ("num_e", 4)], [("method", "low_order_first", "high_order_first"), ("prob_k_list", None, [0.2, 0.3, 0.4, 0.1])], need={"prob_k_list": ("method", "custom")})
    add("normal_features", R.normal_features, [("labels", [0, 1, 1, 2])], [("noise", 1.0, 3.0)])
    for n, a in (("graph_Gnp", [("num_v", 5), ("prob", 0.3)]), ("graph_Gnp_fast", [("num_v", 5), ("prob", 0.3)]), ("graph_Gnm", [("num_v", 5), ("num_e", 3)]), ("digraph_Gnp", [("num_v", 5), ("prob", 0.3)]), ("digraph_Gnp_fast", [("num_v", 5), ("prob", 0.3)]),
                 ("digraph_Gnm", [("num_v", 5), ("num_e", 3)]), ("bigraph_Gnp", [("num_u", 3), ("num_v", 5), ("prob", 0.3)]), ("bigraph_Gnm", [("num_u", 3), ("num_v", 5), ("num_e", 4)]),
                 ("uniform_hypergraph_Gnp", [("k", 3), ("num_v", 5), ("prob", 0.4)]), ("uniform_hypergraph_Gnm", [("k", 3), ("num_v", 5), ("num_e", 4)])):
        add(n, getattr(R, n), a, [])
    # metrics
    y = torch.tensor([[0, 1, 0, 1, 0, 0, 1, 0, 1, 0], [1, 0, 1, 0, 0, 1, 0, 1, 0, 0]])
    p = torch.tensor([[0.23, 0.76, 0.01, 0.91, 0.13, 0.45, 0.12, 0.03, 0.38, 0.11], [0.33, 0.47, 0.21, 0.87, 0.24, 0.65, 0.22, 0.13, 0.58, 0.20]])
    K, RA, RB = ("k", None, 4), ("ratio", None, 0.6), ("ret_batch", False, True)
    ME = ("method", "pascal_voc", "legacy")
    yp = [("y_true", y.float()), ("y_pred", p)]
    for n, f, o in (("precision", mt.precision, [K, RA, RB]), ("recall", mt.recall, [K, RA, RB]), ("ndcg", mt.ndcg, [K, RA, RB]), ("map", mt.map, [K, RA, ME, RB]), ("mrr", mt.mrr, [("k", None, 1), ("ratio", None, 0.1), RB]), ("pr_curve", mt.pr_curve, [K, RA, ME, ("n_points", 11, 5), RB])):
        add("retrieval." + n, f, yp, o)
    add("retrieval.ap", mt.ap, [("y_true", y[1].float()), ("y_pred", p[1])], [K, RA, ME])
    add("retrieval.rr", mt.rr, [("y_true", y[1].float()), ("y_pred", p[1])], [("k", None, 1), ("ratio", None, 0.2)])
    for n in ("precision", "recall", "ndcg"):
        add("recommender." + n, getattr(mr, n), yp, [K, RA, RB])
    cy = [("y_true", torch.tensor([0, 1, 2, 2, 1, 0, 0])), ("y_pred", torch.tensor([0, 2, 2, 2, 1, 1, 0]))]
    add("classification.f1_score", mc_.f1_score, cy, [("average", "macro", "micro")])
    add("classification.accuracy", mc_.accuracy, cy, [])
    add("classification.confusion_matrix", mc_.confusion_matrix, cy, [])
    ev = lambda e, a, b, batches: ([e.validate(a, b), e.test(a, b)] if not batches else [e.validate_add_batch(a, b), e.test_add_batch(a, b), e.validate_epoch_res(), e.test_epoch_res()])
    for n, c, ms, batches in (("VertexClassificationEvaluator", mc_.VertexClassificationEvaluator, ["accuracy", {"f1_score": {"average": "macro"}}], False), ("RetrievalEvaluator", mt.RetrievalEvaluator, ["precision", {"recall": {"k": 2}}], True), ("UserItemRecommenderEvaluator", mr.UserItemRecommenderEvaluator, ["ndcg", {"recall": {"k": 2}}], True)):
        data = (cy[0][1], cy[1][1]) if not batches else (y.float(), p)
        add(n, lambda *a, c=c, data=data, batches=batches, **k: ev(c(*a, **k), *data, batches), [("metric_configs", ms)], [("validate_index", 0, 1)])
    add("build_evaluator", lambda *a, **k: ev(M.build_evaluator(*a, **k), cy[0][1], cy[1][1], False), [("task", "graph_vertex_classification"), ("metric_configs", ["accuracy", "f1_score"])], [("validate_index", 0, 1)])
    # utils
    lab = [0, 1, 0, 1, 1, 0, 1, 0]
    add("split_by_num", U.split_by_num, [("num_v", 8), ("v_label", lab), ("train_num", 1)], [("val_num", None, 2), ("test_num", None, 1)])
    add("split_by_ratio", U.split_by_ratio, [("num_v", 8), ("v_label", lab), ("train_ratio", 0.3)], [("val_ratio", None, 0.25), ("test_ratio", None, 0.25)])
    add("split_by_num_for_UI_bigraph", U.split_by_num_for_UI_bigraph, [("g", bigraph), ("train_num", 1)], [])
    add("split_by_ratio_for_UI_bigraph", U.split_by_ratio_for_UI_bigraph, [("g", bigraph), ("train_ratio", 0.5)], [])
    add("sparse_dropout", U.sparse_dropout, [("sp_mat", lambda: bigraph().B.coalesce()), ("p", 0.5)], [("fill_value", 0.0, 7.0)])

    def items(*a, **k):
        d = U.UserItemDataset(*a, **k)
        return [len(d)] + [[v.tolist() if isinstance(v, torch.Tensor) else int(v) for v in d[i]] for i in range(min(2, len(d)))]

    add("UserItemDataset", items, [("num_users", 2), ("num_items", 5), ("user_item_list", [(0, 1), (1, 3), (1, 2)])], [("train_user_item_list", None, [(0, 2), (1, 4)]), ("strict_link", True, False), ("phase", "train", "test")], need={"phase": "train_user_item_list"})
    el, al = [(1, 5), (5, 3)], [["1", "5", "9"], ["5", "3"]]
    BG = [("bipartite_graph", False, True), ("ret_map", False, True)]
    add("remap_edge_list", U.remap_edge_list, [("e_list", el)], BG)
    add("remap_edge_lists", U.remap_edge_lists, [REQ, el, [(3, 1), (7, 7)]], BG)
    add("remap_adj_list", U.remap_adj_list, [("adj_list", al)], BG)
    add("remap_adj_lists", U.remap_adj_lists, [REQ, al, [["3", "9"]]], BG)
    add("norm_ft", P.norm_ft, [("X", X(3, 3))], [("ord", None, 1)])

    def loader(f):
        def call(*a, **k):
            root = Path(tempfile.mkdtemp(prefix="a01-", dir=os.environ["HOME"]))
            try:
                (root / "d.pkl").write_bytes(pickle.dumps({"a": 1, "b": [2]}))
                (root / "d.txt").write_text("1,2 3\t4\n5 6\n")
                (root / "s.txt").write_text("1;2\n3;4\n")
                (root / "d.json").write_text('{"a": [1, 2.5]}')
                fix = lambda v: root / v[1:] if isinstance(v, str) and v.startswith("@") else v
                return f(*map(fix, a), **{x: fix(v) for x, v in k.items()})
            finally:
                shutil.rmtree(root, ignore_errors=True)
        return call

    add("load_from_pickle", loader(P.load_from_pickle), [("file_path", "@d.pkl")], [("keys", None, ["a"])])
    add("load_from_json", loader(P.load_from_json), [("file_path", "@d.json")], [])
    add("load_from_txt", loader(P.load_from_txt), [("file_path", "@d.txt"), ("dtype", "int")], [("sep", ",| |\t", "[, \t]+"), ("ignore_header", 0, 1)])
    add("load_from_txt ;", loader(P.load_from_txt), [("file_path", "@s.txt"), ("dtype", "str")], [("sep", ",| |\t", ";"), ("ignore_header", 0, 1)])
    # drawing
    from checks import V01

    sides = {"v": ("r", 1.0), "u": ("m", 1.0)}
    for cls, mk in (("graph", graph), ("digraph", digraph), ("bigraph", bigraph), ("hypergraph", hyper)):
        o = [("e_style", "circle" if cls == "hypergraph" else "line", None)]
        for s in "uv" if cls == "bigraph" else "v":
            o += [(s + "_label", None, [s + str(i) for i in range({"u": 2, "v": 3}[s] if cls == "bigraph" else 4)]), (s + "_size", 1.0, 0.5), (s + "_color", sides[s][0], "b"), (s + "_line_width", 1.0, 2.5)]
        o += [("e_color", "gray", "g")] + ([("e_fill_color", "whitesmoke", "y")] if cls in ("graph", "hypergraph") else []) + [("e_line_width", 1.0, 3.0)]
        o += ([("u_font_size", 1.0, 0.5), ("v_font_size", 1.0, 2.0)] if cls == "bigraph" else [("font_size", 1.0, 2.0)]) + [("font_family", "sans-serif", "monospace")]
        o += ([("push_u_strength", 1.0, 2.0)] if cls == "bigraph" else []) + [("push_v_strength", 1.0, 3.0), ("push_e_strength", 1.0, 0.3), ("pull_e_strength", 1.0, 0.4)]
        o += [("pull_u_center_strength", 1.0, 0.5), ("pull_v_center_strength", 1.0, 2.0)] if cls == "bigraph" else [("pull_center_strength", 1.0, 0.5)]
        nd = {"font_size": "v_label", "font_family": "v_label", "u_font_size": "u_label", "v_font_size": "v_label"}
        add("draw_" + cls, lambda *a, cls=cls, **k: picture("draw_" + cls, *a, **k), [("hg" if cls == "hypergraph" else "g", mk)], o, depth=1, need=nd)
        add(f"{type(mk()).__name__}.draw", lambda *a, mk=mk, **k: picture(mk().draw, *a, **k), [], o, depth=1, need=nd)
    emb = np.random.RandomState(1).randn(12, 5)
    big = np.random.RandomState(1).randn(40, 5)
    lbl = np.arange(12) % 3
    RM, CM = ("reduce_method", "pca", None), ("cmap", "viridis", "plasma")
    import dhg.visualization as V

    add("project_to_poincare_ball", V.project_to_poincare_ball, [("embeddings", emb)], [("dim", 2, 3), RM])
    add("draw_in_poincare_ball", lambda *a, **k: picture("draw_in_poincare_ball", *a, **k), [("embeddings", emb)], [("label", None, lbl), ("dim", 2, 3), RM, CM], need={"cmap": "label"})
    add("animation_of_3d_poincare_ball", lambda *a, **k: picture("animation_of_3d_poincare_ball", *a, **k), [("embeddings", emb)], [("label", None, lbl), RM, CM], need={"cmap": "label"})
    add("draw_in_euclidean_space", lambda *a, **k: picture("draw_in_euclidean_space", *a, **k), [("embeddings", big)], [("label", None, np.arange(40) % 3), ("dim", 2, 3), CM], depth=1, need={"cmap": "label"})
    add("animation_of_3d_euclidean_space", lambda *a, **k: picture("animation_of_3d_euclidean_space", *a, **k), [("embeddings", big)], [("label", None, np.arange(40) % 3), CM], depth=1, need={"cmap": "label"})
    # tasks
    import dhg.experiments as Xp

    for cls in ("VertexClassificationTask", "GraphVertexClassificationTask", "HypergraphVertexClassificationTask", "UserItemRecommenderTask"):
        kind = {"V": "vertex", "G": "graph", "H": "hyper", "U": "recommender"}[cls[0]]
        sb = [("structure_builder", None, "@sb")] if kind != "graph" else []
        add(cls, lambda *a, kind=kind, cls=cls, **k: task(kind, cls, "make", *a, **k), [], sb + [("study_name", None, "study"), ("overwrite", True, False)])
        add(cls + ".run", lambda *a, kind=kind, cls=cls, **k: task(kind, cls, "run", *a, **k), [("max_epoch", 2)], [("num_trials", 1, 2), ("direction", "maximize", "minimize")])
        add(cls + ".test", lambda *a, kind=kind, cls=cls, **k: task(kind, cls, "test", *a, **k), [], [("data", None, "@data"), ("model", None, "@model")])
    return out


def picture(f, *a, **k):
    import matplotlib.pyplot as plt
    import dhg.visualization as V

    from checks import V01

    plt.close("all")
    f = getattr(V, f) if isinstance(f, str) else f
    ani = f(*a, **k)
    if hasattr(ani, "_init_draw"):
        ani._draw_was_started = True
        ani._init_draw()
    ax = plt.gcf().axes[0]
    if hasattr(ax, "get_zlim"):
        out = [[np.round(np.array(c._offsets3d, dtype=float), 4), c.get_cmap().name, None if c.get_array() is None else np.asarray(c.get_array()).tolist(), np.round(c.get_facecolor(), 3)] for c in ax.collections]
    else:
        out = V01.content(ax) + [[np.round(np.asarray(c.get_offsets(), dtype=float), 4), c.get_cmap().name, None if c.get_array() is None else np.asarray(c.get_array()).tolist()] for c in ax.collections if hasattr(c, "get_cmap")]
    plt.close("all")
    return out


def task(kind, cls, what, *a, **k):
    """the task's constructor, run and test; everything the caller can see afterwards"""
    import optuna
    import time

    import dhg.experiments as Xp

    from checks import E01, X02

    optuna.logging.disable_default_handler()
    import dhg

    dhg.random.set_seed(2024)
    root = Path(tempfile.mkdtemp(prefix="a01-", dir=os.environ["HOME"]))
    clock = time.strftime
    try:
        time.strftime = lambda *_: "now"  # the generated study name
        if what == "make":
            (root / "study").mkdir(), (root / "study" / "old.txt").write_text("x")
            (root / "now").mkdir(), (root / "now" / "old.txt").write_text("x")
            proto, ev, _ = X02.make_task(kind, CPU, "maximize", root, "proto")
            sb = proto.structure_builder if kind != "graph" else None
            fix = lambda v: sb if v == "@sb" else v
            data = X02.make_data(kind, CPU, full=True)
            t = getattr(Xp, cls)(root, data, proto.model_builder, proto.train_builder, ev, CPU, *map(fix, a), **{x: fix(v) for x, v in k.items()})
            built = t.data.get("structure") if kind != "recommender" or sb is None else None
            return [t.study_name, str(t.study_root.relative_to(root)), t.structure_builder is None, sorted(str(f.relative_to(root)) for f in root.rglob("*") if "proto" not in str(f))]
        t, ev, _ = X02.make_task(kind, CPU, "maximize", root, "s")
        if what == "run":
            t.run(*a, **k)
            return [t.study.best_value, len(t.study.trials), t.study.direction.name, t.study.best_trial.number, ev.v, ev.x]
        t.run(2, 1, "maximize")
        n = len(ev.x)
        other = copy.deepcopy(t.best_model)
        with torch.no_grad():
            for p in other.parameters():
                p.mul_(-0.5)
        fix = lambda v: X02.make_data(kind, CPU, full=True) if isinstance(v, str) and v == "@data" else other if isinstance(v, str) and v == "@model" else v
        return [t.test(*map(fix, a), **{x: fix(v) for x, v in k.items()}), ev.x[n:]]
    finally:
        time.strftime = clock
        E01.close_logs()
        shutil.rmtree(root, ignore_errors=True)


SPEC = None


def all_specs():
    global SPEC
    if SPEC is None:
        SPEC = specs()
    return SPEC


def cases(tier):
    for kind in ("LAYERS", "MODELS"):
        for name in getattr(defaults, kind):
            yield ["default", kind, name]
            yield ["order", kind, name]
    for i, s in enumerate(all_specs()):
        yield [s[0], i, 4 if tier == "thorough" else 2]


def plain(x):
    import dhg

    if isinstance(x, (dhg.Graph, dhg.DiGraph, dhg.BiGraph, dhg.Hypergraph)):
        return structs.snapshot(x)
    if isinstance(x, torch.Tensor):
        return dense(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def alike(a, b):
    """equality of plain values, lists of arrays included"""
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return (isinstance(a, float) and a == b) or same(a, b)


def run(case, ctx):
    if case[0] in ("default", "order"):
        ctx.trace()
        (defaults.check if case[0] == "default" else defaults.order)(getattr(defaults, case[1]), case[2], ctx)
        return
    label, i, depth = case
    name, f, req, opts, kw = all_specs()[i]
    assert name == label
    depth = min(depth, kw.get("depth", depth))
    need = kw.get("need", {})
    star = bool(req) and req[0] is REQ
    val = lambda v: v() if callable(v) and not isinstance(v, (str, torch.Tensor)) else copy.deepcopy(v)

    def call(pos, kws, names=True):
        random.seed(0), np.random.seed(0), torch.manual_seed(1)
        if star:
            a, k = [val(v) for v in req[1:]], {}
        elif names:
            a, k = [], {n: val(v) for n, v in req}
        else:
            a, k = [val(v) for _, v in req], {}
        ctx.step()
        desc = f"{label}({'required by keyword' if names and not star else ''} {[show(p) for p in pos]} { {x: show(v) for x, v in kws.items()} })"
        try:
            return desc, plain(f(*a, *[copy.deepcopy(p) for p in pos], **k, **{x: copy.deepcopy(v) for x, v in kws.items()}))
        except Exception as e:
            return desc, f"raised {type(e).__name__}"

    def eq(a, b, what):
        ctx.check(not (isinstance(a[1], str) and a[1].startswith("raised")) or kw.get("may_raise"), f"{label}:raises", lambda: f"{a[0]} {a[1]}")
        ctx.check(alike(a[1], b[1]), f"{label}:{what}", lambda: f"{a[0]} and {b[0]} differ: {str(a[1])[:300]} / {str(b[1])[:300]}")
        ctx.state((label, a[0]))

    base = call([], {}, False)
    eq(call([], {}, True), base, "required-by-keyword")
    for r in range(1, min(depth, len(opts)) + 1):
        for os_ in itertools.combinations(opts, r):
            eq(call([], {o: d for o, d, _ in os_}, False), base, "default")
    if not star:
        eq(call([d for _, d, _ in opts], {}, False), base, "default-positional")
    eq(call([], {o: d for o, d, _ in opts}, True), base, "default")
    # other values: by keyword, in any order, and positionally; what is left out keeps its default
    for r in range(1, min(depth, len(opts)) + 1):
        for os_ in itertools.combinations([o for o in opts if o[2] is not None], r):
            sel = {o: v for o, _, v in os_}
            for o in list(sel):
                n = need.get(o)
                while n:
                    if isinstance(n, tuple):
                        sel[n[0]] = n[1]
                        n = None
                    else:
                        sel.setdefault(n, {x: v for x, _, v in opts}[n])
                        n = need.get(n)
            a = call([], sel, True)
            if r > 1 or req:
                eq(a, call([], dict(reversed(list(sel.items()))), False), "keyword-order")
            rest = {o: sel.get(o, d) for o, d, _ in opts}
            eq(a, call([], rest, False), "default-beside")
            if not star:
                if kw.get("depth") != 1:
                    eq(a, call(list(rest.values()), {}, False), "positional")
                last = max(k for k, o in enumerate(rest) if o in sel)
                eq(a, call(list(rest.values())[: last + 1], {}, False), "positional")
            if os.environ.get("A01_DEV") and r == 1 and alike(a[1], base[1]):
                print("INSENSITIVE", label, list(sel))
    ctx.trace()
    ctx.outcome(label)
