"""Writes /verif/properties.jsonl.  Run: python3 tools/gen_properties.py"""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))


G = "dhg/structure/graphs/graph.py"
D = "dhg/structure/graphs/directed_graph.py"
B = "dhg/structure/graphs/bipartite_graph.py"
H = "dhg/structure/hypergraphs/hypergraph.py"
BASE = "dhg/structure/base.py"

prop("S01", "Undirected graph: edge set and weights follow the edit history",
     "After any sequence of edge additions, edge removals, self-loop edits, extra-self-loop switches and clears, an undirected graph contains exactly the edges that sequence implies: orientation of a named edge is irrelevant, adding an existing edge merges its weight by the requested rule (mean, max or sum of old and new weight), and a removal deletes the named edges and no others. "
     "The reported vertex list, edge list, edge weights (aligned with the edge list) and edge count all describe that same set. Editing calls given an unknown merge rule or an out-of-range vertex are rejected.",
     ["histories", "inputs"], "every sequence of graph edits over small vertex sets, weights and merge rules",
     "Tests apply a couple of fixed edit sequences on random graphs; merge order, self-loop versus extra-self-loop interaction and reversed orientation combine over histories that no test enumerates.",
     [G, BASE], [("edge store keyed by sorted endpoint pair", G + ":Graph.add_edges/remove_edges"), ("merge rule", BASE + ":BaseGraph._add_edge"), ("self-loop flags", BASE + ":BaseGraph.remove_selfloop")],
     [("edge dictionary", "endpoint pair -> weight"), ("self-loop dictionary and extra-self-loop flag", "loops stored by the user / implicit loops on every vertex")], ["e, e_both_side, num_e, v, num_v"])

prop("S02", "Undirected graph: every derived view matches the current edges",
     "Whatever reads and edits happened before, and in whatever order, each derived view of an undirected graph (adjacency matrix, degrees and their inverse powers, edge source/destination/weight vectors, k-hop neighbours, and the combinatorial, symmetric, random-walk and GCN Laplacians) equals its mathematical definition on the edges currently in the graph. "
     "Reading a view never changes the graph or the value of any other view, and no value computed before an edit is visible after it.",
     ["histories", "inputs"], "every interleaving of edits and reads up to a bound, every order of reads",
     "Tests read each view once on a fresh graph; stale-cache errors need a read, an edit and a second read of the right pair of views.",
     [G, BASE], [("lazy cache", G + ":A, D_v, L, L_sym, L_rw, L_GCN, N_v"), ("cache invalidation", BASE + ":BaseGraph._clear_cache")],
     [("cache", "lazily computed tensors, valid for the current edge set only")], ["A, D_v, D_v_neg_1, D_v_neg_1_2, deg_v, nbr_v, e_src/e_dst/e_weight, L*"])

prop("S03", "Directed graph: store and views follow the edit history",
     "After any sequence of additions, removals, self-loop edits, direction reversals, clears and reads, a directed graph contains exactly the arcs implied by that sequence (orientation matters, re-adding merges by the requested rule, reversing flips every arc and keeps its weight, twice is the identity). "
     "Adjacency, in/out degrees and their inverses, in/out neighbours and per-edge vectors equal their definitions on the current arcs regardless of what was read earlier.",
     ["histories", "inputs"], "every sequence of edits and reads up to a bound",
     "Tests check views of freshly built graphs and one reversal of an unread graph; they do not interleave reads with edits or reversals.",
     [D, BASE], [("arc store", D + ":DiGraph.add_edges/remove_edges/reverse_direction"), ("lazy cache", D + ":A, A_T, D_v_in, D_v_out")],
     [("arc dictionary", "(source, destination) -> weight"), ("cache", "lazily computed tensors")], ["e, A, A_T, D_v_in/out, nbr_v_in/out, e_src/e_dst/e_weight"])

prop("S04", "Bipartite graph: store and views follow the edit history",
     "After any sequence of additions, removals, side switches, clears and reads, a bipartite graph contains exactly the edges implied by that sequence, with vertices of the two sides never confused even when they carry the same index, and indices out of range of their own side are rejected. "
     "The biadjacency and full adjacency matrices, both sides' degrees, inverses and neighbours, per-edge vectors and the GCN Laplacian equal their definitions on the current edges; switching sides yields the transposed graph and leaves the original unchanged.",
     ["histories", "inputs"], "every sequence of edits and reads up to a bound, for unequal side sizes",
     "Tests use random graphs and read each view once; side-index confusion and stale transposes only show on particular sizes and histories.",
     [B, BASE], [("edge store", B + ":BiGraph.add_edges/_add_edge/remove_edges"), ("side switch", B + ":BiGraph.switch_uv"), ("lazy cache", B + ":A, B, B_T, D_u, D_v, L_GCN")],
     [("edge dictionary", "(u, v) -> weight"), ("cache", "lazily computed tensors")], ["e, A, B, B_T, D_u, D_v, nbr_u, nbr_v, L_GCN"])

prop("S05", "Hypergraph: grouped hyperedge store follows the edit history",
     "After any sequence of hyperedge additions, removals, group removals, and clears, each hyperedge group contains exactly the vertex sets implied by that sequence: vertex order and repetition inside a hyperedge are irrelevant, re-adding a hyperedge to a group merges its weight by the requested rule and does not touch other groups, and removal affects only the named group (or all groups when none is named). "
     "The whole hypergraph is the concatenation of its groups in creation order, and all reported edge lists, weights and counts agree with it.",
     ["histories", "inputs"], "every sequence of grouped edits over small vertex sets and groups",
     "Tests exercise one or two groups in one order; cross-group leakage, re-creation of a removed group and merge order are history properties.",
     [H, BASE], [("group store", BASE + ":BaseHypergraph._add_hyperedge/_merge_hyperedges"), ("edits", H + ":Hypergraph.add_hyperedges/remove_hyperedges/remove_group")],
     [("group dictionary", "group -> (vertex tuple -> weight)")], ["e, e_of_group, num_e, num_e_of_group, group_names, num_groups"])

prop("S06", "Hypergraph: every whole and per-group view matches current hyperedges",
     "Whatever was read or edited before, every derived view of a hypergraph and of each of its groups (incidence matrix and transpose, hyperedge and vertex weight matrices, degrees and their inverses, neighbours, message-path vectors, symmetric, random-walk and HGNN Laplacians) equals its definition on the current hyperedges and weights. "
     "Whole-hypergraph views list hyperedges in the same order as the edge list, and are defined (with no columns) also when the hypergraph holds no hyperedge.",
     ["histories", "inputs"], "every interleaving of grouped edits and reads up to a bound, every order of reads",
     "Two cache levels (whole and per group) must be invalidated together; tests read views once per freshly built hypergraph.",
     [H, BASE], [("two-level lazy cache", BASE + ":BaseHypergraph._clear_cache"), ("view definitions", H + ":H, W_e, D_v, D_e, L_HGNN, L_sym, L_rw, N_e, N_v and *_of_group")],
     [("cache / group cache", "lazily computed tensors of the whole hypergraph / of a group")], ["H, H_T, W_v, W_e, D_v, D_e, L_*, nbr_*, v2e_*, e2v_*"])

prop("S07", "Copies are independent and caller-owned containers are never modified",
     "A clone of any structure equals the original (edges, weights, groups, vertex weights and all views) and from then on the two evolve independently: no edit or read of one is observable in the other. "
     "Likewise no construction, edit, conversion or restore modifies the edge lists, weight lists, tensors, state dictionaries or source structures it was given, nor does later mutation of those inputs change the structure.",
     ["histories", "inputs"], "every history of edits before and after a copy, for each structure class and each container-taking call",
     "Aliasing shows only when both objects are used after the copy, in a particular order; tests check equality immediately after cloning.",
     [G, D, B, H, BASE], [("clone", "clone() of Graph, DiGraph, BiGraph, Hypergraph"), ("input normalisation", BASE + ":_format_edges/_format_e_list")],
     [("raw stores and caches", "must not be shared between objects")], ["every public view of both objects"])

prop("S08", "Saving, loading and state dictionaries reproduce the structure exactly",
     "For every structure reachable by any edit history, saving it and loading it back (through the class, or through the generic loader), or rebuilding it from its state dictionary, yields a structure of the same class with the same vertices, edges, weights, groups, vertex weights and derived views. "
     "The restored structure is independent of the saved one, later edits do not alter the file, and loading a file through the wrong class is rejected.",
     ["histories", "inputs"], "every reachable small structure, every class pair",
     "Tests round-trip one structure per class and compare a few fields; lost fields depend on which features the history used.",
     [G, D, B, H, BASE, "dhg/__init__.py"], [("persistence", "save/load/state_dict/from_state_dict of the four classes"), ("generic loader", BASE + ":load_structure")],
     [("state dictionary", "everything needed to rebuild the structure")], ["load(), load_structure(), from_state_dict()"])

prop("S09", "Hypergraph subgraph is the exact restriction to the chosen vertices",
     "For any hypergraph and any non-empty vertex selection, the sub-hypergraph has one vertex per selected vertex, renumbered in increasing order with its vertex weight, and in each group exactly the hyperedges' intersections with the selection that keep at least one vertex (or at least two when single-vertex hyperedges are excluded). "
     "A hyperedge whose restriction is unique keeps its weight, group membership is preserved, the original is unchanged, and empty or out-of-range selections are rejected.",
     ["inputs", "histories"], "all small hypergraphs with groups and weights, all vertex subsets, both singleton policies",
     "Tests try a few selections on one hypergraph; the property ranges over all subsets and all edge/subset intersection patterns.",
     [BASE, H], [("restriction", BASE + ":BaseHypergraph.subgraph/_subgraph_filter_hyperedge")], None, ["subgraph()"])

prop("S10", "Random dropping keeps an independent, unbiased, intact sub-structure",
     "Dropping edges or hyperedges (of one group or of all) at a given rate returns a new structure over the same vertices whose edges are a subset of the original's with unchanged weights, where each edge is kept independently with probability one minus the rate; edges outside the targeted group, vertex weights and the implicit self-loop setting are kept, and the original is unchanged. "
     "Sparse matrix dropout keeps shape and positions, keeps each stored entry unchanged with probability one minus the rate and otherwise replaces it by the fill value; a rate of zero is the identity.",
     ["inputs", "histories"], "all outcomes of the random source for all small structures and rates",
     "Tests only check that a dropped structure has no more edges; which edges vanish, with what probability, needs all outcomes of the random source.",
     [G, D, B, H, "dhg/utils/sparse.py"], [("random filter", "drop_edges / drop_hyperedges / drop_hyperedges_of_group"), ("dropout on sparse values", "dhg/utils/sparse.py:sparse_dropout")], None, ["the returned structure; the sampled keep mask"])

prop("C01", "Hypergraph-to-graph expansions produce the defined graph",
     "For every hypergraph, star expansion yields exactly one edge per vertex-hyperedge membership plus the correct vertex mask, and clique expansion connects exactly the vertex pairs that share a hyperedge, weighted when asked by the scaled number of shared hyperedges. "
     "Projection-based (HyperGCN) reduction connects in each hyperedge the two vertices that are extreme under the random projection with weight 1/|e|, or, with mediators, also every other member to both extremes, each edge with weight 1/(2|e|-3), contributions of different hyperedges being summed.",
     ["inputs"], "all small hypergraphs (with groups and weights), all orders of the projected features, all option combinations",
     "Tests convert one or two fixed hypergraphs; shared pairs across hyperedges, groups, ties and option combinations are not covered.",
     [G], [("expansions", G + ":Graph.from_hypergraph_star/from_hypergraph_clique/from_hypergraph_hypergcn")], None, ["resulting graph's edges, weights, mask"])

prop("C02", "Other structure conversions preserve exactly the defined incidence",
     "Building a hypergraph from a graph, from k-hop neighbourhoods of a graph (the vertices reachable from a centre by a walk of k edges), or from either side of a bipartite graph, a bipartite graph from a hypergraph (either side), or any graph class from an adjacency list, yields exactly the (hyper)edges the definition gives, with carried or unit weights as documented and vertices unrenumbered. "
     "The add-into-group variants give the same hyperedges as the constructors and leave other groups alone; sources are unchanged and mismatching vertex counts are rejected.",
     ["inputs", "histories"], "all small source structures, hop counts, sides and options",
     "Tests compare one source per conversion; empty neighbourhoods, duplicate neighbourhoods, self-loops and hop parity appear only on particular sources.",
     [H, B, G, D], [("conversions", H + ":from_graph/from_graph_kHop/from_bigraph/add_hyperedges_from_*"), ("bipartite expansion", B + ":BiGraph.from_hypergraph"), ("adjacency lists", "from_adj_list of Graph, DiGraph, BiGraph")], None, ["resulting structure's edges and weights"])

prop("C03", "k-nearest-neighbour construction links exactly the nearest vertices",
     "For features with distinct pairwise distances, the kNN digraph has an arc between each vertex and exactly its k nearest other vertices (k-1 plus itself when the centre is included), in the requested direction and metric, with unit weight or exp(-distance), and can be used with ordinary single-precision features. "
     "The kNN hypergraph has one hyperedge per vertex consisting of the k nearest vertices including itself; k beyond the number of vertices is rejected.",
     ["inputs"], "all small point configurations with distinct distances, all k, metrics, and option combinations",
     "Tests try one random matrix and one k; the boundary values of k and the option combinations are not exercised.",
     [D, H], [("kNN", D + ":DiGraph.from_feature_kNN"), ("kNN hyperedges", H + ":Hypergraph._e_list_from_feature_kNN, add_hyperedges_from_feature_kNN")], None, ["resulting arcs/hyperedges and weights"])

prop("N01", "Graph message passing and smoothing equal their dense definitions",
     "For every small graph, directed graph and bipartite graph, in every direction, message passing with sum, mean or softmax aggregation, with stored or caller-supplied edge weights (which follow the order of the exposed edge vectors), equals the defined weighted sum, weighted average or softmax-weighted sum over neighbours, and is zero for vertices with no neighbour; with a drop rate each message is dropped independently at that rate before aggregation. "
     "Laplacian smoothing and GCN smoothing equal multiplication by the corresponding matrix, gradients with respect to features and given weights are those of these definitions, and none of these operations alters the structure or the input features.",
     ["inputs", "histories"], "all small graphs with weights, every aggregation, direction and weight source, before and after edits",
     "Tests compare a few aggregations on one random graph and check only shapes for weighted ones; isolated vertices, unsorted edges and weight alignment are not covered.",
     [G, D, B, BASE], [("aggregation", "v2v / u2v / v2u"), ("smoothing", "smoothing, smoothing_with_GCN")], None, ["returned features"])

prop("N02", "Hypergraph message passing equals its dense definition, whole and per group",
     "For every small hypergraph, vertex-to-hyperedge and hyperedge-to-vertex passing with sum, mean or softmax aggregation, with stored or caller-supplied path weights (in the order of the exposed path vectors) and hyperedge weights, equals the defined aggregation over incident vertices/hyperedges, on the whole hypergraph and on each group (a drop rate drops each path independently), and the vertex-to-vertex pass is their composition with per-stage overrides respected. "
     "HGNN and Laplacian smoothing equal multiplication by the corresponding matrix, gradients with respect to features and given weights are those of these definitions, and none of these alters the structure or the input features.",
     ["inputs", "histories"], "all small grouped hypergraphs with weights, every aggregation combination and weight source",
     "Tests compare few combinations on one hypergraph; group/whole agreement, weight alignment, and the override matrix are combinatorial.",
     [H], [("aggregation and update", H + ":v2e_aggregation, v2e_update, e2v_aggregation, v2v and *_of_group"), ("smoothing", H + ":smoothing_with_HGNN")], None, ["returned features"])

prop("N03", "Convolution layers compute their published formula on any structure",
     "On every small structure and for all option settings (bias, batch norm, dropout off in evaluation, last-layer flag, mediator, projection options), each graph and hypergraph convolution layer's evaluation-mode output equals its published formula computed densely from its own parameters: GCN, GAT, GIN, GraphSAGE, HGNN, HGNN+, HNHN, HyperGCN, JH-, UniGCN, UniGAT, UniSAGE and UniGIN convolutions; its gradients are those of that formula. "
     "The layer neither modifies the structure nor its input, and gives the same output when called again.",
     ["inputs", "configurations"], "all small structures, all layer option combinations",
     "Layer tests only check output shapes or are absent; formula errors that keep the shape pass every test.",
     ["dhg/nn/convs"], [("layer forward", "dhg/nn/convs/*/*.py forward()")], None, ["layer output"])

prop("N04", "Models are compositions of their layers and respect vertex relabelling",
     "Every model, in evaluation mode, computes the composition of its layers it is documented to be (layer stacks, multi-head combination, layer-mean embeddings for recommendation, prediction heads), repeated calls give equal results, and relabelling the vertices of the structure together with the features permutes the output in the same way. "
     "Dropout and random edge removal act only in training mode, and multi-head and MLP building blocks combine their parts as their read-out option says.",
     ["inputs", "configurations"], "all small structures up to relabelling, all model option combinations",
     "There are no tests of the models at all; relabelling equivariance quantifies over all permutations.",
     ["dhg/models", "dhg/nn/convs/common.py"], [("model forward", "dhg/models/**.py"), ("multi-head wrapper", "dhg/nn/convs/common.py"), ("MLP", "dhg/nn/convs/common.py")], None, ["model output"])

prop("N05", "Ranking loss and embedding regulariser equal their formulas",
     "The pairwise ranking loss equals the documented function of the score differences, averaged over pairs, for each of its activation choices, depends only on the (weighted) difference of the paired scores, and stays finite for finite scores. "
     "The embedding regulariser equals the configured weight times the sum over the given embeddings of the mean over rows of the sum of absolute entries to the power p divided by p, whatever the number and order of the embeddings.",
     ["inputs", "configurations"], "all small score/embedding grids and options",
     "Tests evaluate one input per option, or only shape; the formula ranges over all inputs.",
     ["dhg/nn/loss.py", "dhg/nn/regularization.py"], [("BPR loss", "dhg/nn/loss.py"), ("regulariser", "dhg/nn/regularization.py")], None, ["returned scalar"])

prop("R01", "Random structure generators only produce structures of the stated class",
     "For every outcome of the random source, each random generator returns a structure of the requested type with the requested vertex counts; fixed-count generators give exactly the requested number of distinct edges, without self-loops or duplicates, uniform hypergraph generators give only hyperedges of the requested size, and full or empty requests (all possible edges, none, probability zero or one) give the complete or empty structure. "
     "In probability-based generators each possible edge is present with the given probability independently of the others, and fixed-count generators can produce every structure of their class, none favoured by the order of the vertices.",
     ["inputs", "schedules"], "every sequence of random-source answers for small sizes and all parameters",
     "Tests sample a few random draws and check the edge count; bias, boundary probabilities and unreachable edges need all outcomes.",
     ["dhg/random/graphs", "dhg/random/hypergraphs"], [("samplers", "dhg/random/graphs/graph.py, hypergraphs/hypergraph.py, common.py")], None, ["returned structure for each random outcome"])

prop("R02", "Seeding makes every random behaviour reproducible",
     "After the library seed is set, any sequence of library operations that use randomness (generators, dropping, sampling, splits, dropout, parameter initialisation, random features) produces exactly the same results each time the sequence is repeated from the same seed, whatever ran before, and the reported seed is the one that was set. "
     "Setting the seed controls the Python, NumPy and PyTorch sources together, and different seeds are not forced to the same outcome.",
     ["histories", "configurations"], "all short sequences of random operations, preceded by all short perturbation histories, over several seeds",
     "Tests set a seed once; independence from prior history needs enumeration over prior histories and operation orders.",
     ["dhg/random/_seed.py", "dhg/random/feature.py"], [("seed", "dhg/random/_seed.py:set_seed/seed")], [("current seed", "module-level seed value")], ["results of operations; dhg.random.seed()"])

prop("U01", "Vertex splits are disjoint, complete as requested, and label-faithful",
     "For every label assignment and every random outcome, train/validation/test masks are boolean masks over all vertices, pairwise disjoint, and contain from every class exactly the requested number (or as many as the class still has) or the requested share of its vertices in train and validation; the test mask holds all remaining vertices, or the requested number or share when given. "
     "Every vertex of every class, whatever values the labels take, takes part in the split, and each vertex of a class can end in each part.",
     ["inputs", "schedules"], "all label vectors up to a length, all split parameters, all outcomes of the shuffle",
     "Tests use one contiguous label layout; missing class ids, tiny classes and shuffle outcomes are not enumerated.",
     ["dhg/utils/dataset_split.py"], [("splits", "split_by_num / split_by_ratio")], None, ["the returned masks"])

prop("U02", "User-item splits and datasets never leak or lose interactions",
     "For every bipartite interaction graph and every random outcome, splitting interactions per user partitions each user's items between the training and the test structure with the requested number or share in training and no item in both. "
     "The user-item dataset yields each training interaction exactly once with a negative item the user never interacted with, and at test time yields each user once with a mask that hides exactly the user's training items and the exact vector of held-out items.",
     ["inputs", "schedules"], "all small interaction graphs, all split parameters, all outcomes of the random source",
     "Tests check sizes on one random graph; leakage depends on the particular graph and the random draw.",
     ["dhg/utils/dataset_split.py", "dhg/utils/dataset_wrapers.py"], [("splits", "split_by_num_for_UI_bigraph / split_by_ratio_for_UI_bigraph"), ("dataset", "UserItemDataset")], None, ["returned adjacency lists and dataset items"])

prop("U03", "Edge-list and adjacency-list conversions and remapping are lossless",
     "Converting between edge lists, adjacency lists and adjacency dictionaries preserves exactly the set of edges for every input within documented shape, including empty input, repeated sources and isolated entries. "
     "Remapping identifiers applies one consistent one-to-one renumbering onto a gap-free range to every occurrence, across all files remapped together, and leaves the structure otherwise unchanged.",
     ["inputs"], "all small edge lists and adjacency lists, including duplicates and lines without neighbours",
     "Tests convert one list each; duplicates, empty lines and cross-list consistency are not enumerated.",
     ["dhg/utils/structure.py"], [("conversions", "edge_list_to_adj_list, edge_list_to_adj_dict, adj_list_to_edge_list"), ("remapping", "remap_edge_list(s), remap_adj_list(s)")], None, ["returned lists and mappings"])

prop("M01", "Retrieval metrics equal their definitions on every ranking",
     "For every relevance vector and every ranking of scores (ties excepted) and every cut-off (a number, or a share of the list rounded up), precision, recall, average precision (plain or interpolated), mean average precision, NDCG, reciprocal rank, mean reciprocal rank, and the precision-recall curve (at recall level r the precision at relevant item 1+floor(r(R-1)) of R, zero if that is beyond the cut-off) equal their definition restricted to the top k. "
     "Values lie in [0,1], a perfect ranking scores 1 in AP, NDCG and RR, batch values are the mean of per-query values, and queries without relevant item give a defined value of 0.",
     ["inputs"], "all relevance vectors and score orders up to a length, all cut-offs, graded relevance for NDCG, batches",
     "Tests evaluate two or three fixed vectors per metric; ordering and cut-off interactions are combinatorial.",
     ["dhg/metrics/retrieval.py"], [("metrics", "precision, recall, ap, map, ndcg, rr, mrr, pr_curve")], None, ["returned values"])

prop("M02", "Recommender metrics equal their definitions on every ranking",
     "For every user-item relevance matrix, every score order and every cut-off (given as a number or a share of the items), recommendation precision, recall and NDCG equal their textbook definition, averaged over users. "
     "Batched and unbatched calls agree and inputs are not modified.",
     ["inputs", "configurations"], "all small relevance matrices and score orders, all cut-offs and shares",
     "Tests evaluate fixed vectors; a share-type cut-off and users without relevant items are never exercised.",
     ["dhg/metrics/recommender.py", "dhg/metrics/retrieval.py"], [("metrics", "precision, recall, ndcg")], None, ["returned values"])

prop("M03", "Classification metrics equal their definitions on every prediction",
     "For every true-label vector and every prediction, given as class indices or as score rows, accuracy, F1 score under every averaging option and the confusion matrix equal their definitions, independently of vertex order. "
     "Classes that never occur in the labels or the predictions do not make the result undefined.",
     ["inputs", "configurations"], "all small label/prediction vectors in both input forms, all averaging options",
     "Tests use fixed vectors; absent classes and score-row input are not enumerated.",
     ["dhg/metrics/classification.py"], [("metrics", "accuracy, f1_score, confusion_matrix")], None, ["returned values"])

prop("M04", "Evaluators aggregate batches into the metric of the whole epoch",
     "For every history of batch additions and epoch results, an evaluator's validation and test epoch results equal the mean of the metric over all samples added in that epoch for each configured metric and cut-off, under stable metric names; closing an epoch clears its data so epochs never mix, and closing it again without new data repeats the last result. "
     "Validation and test phases do not influence each other, an earlier reported result never changes afterwards, and full-set evaluation equals the metric on those data.",
     ["histories", "configurations"], "all call histories up to a depth over batch contents and metric configurations",
     "Tests perform one add/close cycle; epoch mixing and result mutation show only over several cycles in particular order.",
     ["dhg/metrics/base.py", "dhg/metrics/__init__.py", "dhg/metrics/classification.py", "dhg/metrics/recommender.py", "dhg/metrics/retrieval.py"], [("batch accumulation", "BaseEvaluator.validate_add_batch/validate_epoch_res/test_*")], [("accumulated batch results", "per metric, cleared when the epoch is closed")], ["epoch results"])

prop("E01", "Experiment runs keep and test the best model they have seen",
     "For every sequence of validation scores, for maximisation and minimisation, with and without early pruning, an automatic experiment run selects the trial and the epoch with the best validation score and reports test results of exactly that model together with that trial's structure and parameters. "
     "Each trial starts from fresh model and optimiser state, per-trial temporary files of losing trials do not affect the result, and the run never fails because of the order in which scores occur.",
     ["histories", "configurations"], "all score sequences over a small value set, for several trials and epochs, both directions, all pruner decisions",
     "There are no tests of the experiments module; best-so-far logic fails only on particular score orders.",
     ["dhg/experiments/base.py", "dhg/experiments/vertex_classification.py", "dhg/experiments/recommender.py", "dhg/experiments/vertex_retrieval.py", "dhg/experiments/graphs", "dhg/experiments/hypergraphs"], [("best model tracking", "dhg/experiments/base.py:BaseTask.experiment/run")], [("best model / best structure", "the model and structure of the best epoch so far")], ["run() result, tested model state"])

prop("E02", "Training, validation and test data stay separated in experiment tasks",
     "In every experiment task, parameter updates depend only on training vertices (or interactions), validation scores only on validation data, and final results only on test data: changing labels or interactions outside the respective part changes nothing. "
     "Validation and testing run in evaluation mode without gradient and leave model parameters unchanged.",
     ["inputs", "histories"], "all mask assignments and single-label perturbations of small data sets, all short train/validate/test call orders",
     "There are no tests of the tasks; leakage is invisible in a single run and needs comparison across perturbed inputs.",
     ["dhg/experiments/vertex_classification.py", "dhg/experiments/recommender.py", "dhg/experiments/vertex_retrieval.py", "dhg/experiments/graphs", "dhg/experiments/hypergraphs"], [("task steps", "train / validate / test of the task classes")], None, ["model parameters, reported scores"])

prop("F01", "Dataset download never accepts or leaves a corrupt file as valid",
     "For every sequence of network faults (connection errors, error statuses, truncated or corrupted bodies) and every initial content of the cache, checking-and-downloading a file either ends with a file whose checksum matches or raises an error after at most three attempts; it never reports success for a corrupt or missing file, retries or falls back to the mirror as long as attempts remain, and a later call recovers from whatever an earlier failure or interruption left behind. "
     "A valid cached file is used without network access and is never rewritten.",
     ["fault_sequences", "crash_points", "histories"], "all fault sequences up to the retry bound, all initial file contents, all interruption points of the file write",
     "Tests have no network and skip download; fault orders, partial files and crash points are not covered at all.",
     ["dhg/utils/download.py"], [("download with retry and mirror", "download_file / _download_file / _retry"), ("checksum", "check_file / download_and_check")], [("cached file", "absent, valid, truncated or corrupt")], ["return value/exception, resulting file bytes, requests issued"])

prop("F02", "Dataset objects load lazily, once, and isolate their contents",
     "For every order of accesses, a dataset object returns each item as its declared loader and preprocessing chain produces it from files whose checksum matches, loads each item at most once, does not load items that were not asked for, and reports membership and needed items consistently. "
     "Asking for an undeclared item is rejected, and a missing or corrupted raw file is never silently used.",
     ["histories", "fault_sequences"], "all access orders over small dataset declarations and file states",
     "No data test runs offline; access order and partially present files are never exercised.",
     ["dhg/data/base.py", "dhg/datapipe"], [("lazy loading", "dhg/data/base.py:BaseData.__getitem__/content"), ("raw files", "dhg/data/base.py:_raw_files/_fetch_files")], [("raw cache", "items loaded so far")], ["data[item], file system"])

prop("D01", "Data-pipe transforms and loaders equal their definitions",
     "For every input, data-pipe loaders return exactly the content of the file they are given in the declared layout, composition applies transforms left to right, type and tensor conversions keep values, and min-max scaling, feature normalisation and bias addition equal their definitions for every matrix, including constant input (mapped to the lower bound) and zero rows (kept zero), without modifying the input. "
     "Loaders reject or skip malformed content as documented instead of returning shifted data.",
     ["inputs", "configurations"], "all small matrices over a value grid, all small files over a token alphabet, all short compositions",
     "Tests evaluate one matrix and one file each; zero rows, constant features, separators and blank lines are not enumerated.",
     ["dhg/datapipe/normalize.py", "dhg/datapipe/loader.py", "dhg/datapipe/common.py"], [("transforms", "norm_ft, min_max_scaler, to_tensor, to_long_tensor, to_bool_tensor, compose_pipes, ..."), ("loaders", "load_from_pickle, load_from_json, load_from_txt")], None, ["returned values"])

prop("V01", "Drawing lays out every vertex and draws exactly the structure's edges",
     "For every small structure and parameter choice, drawing produces finite positions for all and only the structure's vertices, draws exactly one mark per vertex and per (hyper)edge of the structure with the requested per-item sizes, colours, widths and labels, and accepts scalar or per-item styling of the right length (rejecting wrong lengths). With only edge attraction active, exactly the endpoints of edges are drawn together. "
     "Drawing and layout never modify the structure.",
     ["inputs", "configurations"], "all small structures, all styling forms, all random layouts seeds in a set",
     "Tests call draw and look at nothing; missing or swapped marks are invisible to them.",
     ["dhg/visualization/structure"], [("layout", "dhg/visualization/structure/layout.py"), ("drawing", "dhg/visualization/structure/draw.py, utils.py"), ("styling defaults", "dhg/visualization/structure/defaults.py")], None, ["matplotlib artists on the axes, computed coordinates"])

prop("V02", "Poincare ball maps stay in the ball and invert each other",
     "For every embedding on a value grid, the projection used for visualising features returns one finite point inside the unit ball of the requested dimension per row, also for zero and coinciding embeddings, and the manifold maps satisfy their defining identities (exponential and logarithmic map at the origin are inverse and keep directions, projecting onto the ball leaves inner points alone and moves outer points radially inside). "
     "The drawing functions plot every row exactly once with its label's colour, and the inputs are not modified.",
     ["inputs", "configurations"], "all small embedding matrices over a grid including zero and near-boundary points, all options",
     "Tests draw one random embedding; boundary and zero inputs are not enumerated.",
     ["dhg/visualization/feature"], [("projection", "dhg/visualization/feature/visualization.py, utils.py"), ("manifold maths", "dhg/visualization/feature/utils.py")], None, ["returned coordinates"])

prop("X01", "A structure follows its device: contents, views and derived structures",
     "A structure moved to a device keeps its contents, and from then on every view of it (read before the move or not, whole or per group) lives on that device with the values it has on the CPU, through every further history of moves and edits. "
     "Everything derived from it (clones, drops, subgraphs, switched and reversed graphs, and the conversions and constructors that take a device argument) lives on its own or on the requested device with the CPU's contents. "
     "Message passing with features on another device takes the structure along and returns the CPU's values.",
     ["histories", "configurations"], "every history of moves, reads, edits and message passing up to a bound, with every view read before a move and after it",
     "The tests run on the CPU only, where a tensor left behind on the old device cannot be seen.",
     ["dhg/structure"], [("device of cached tensors", "vars_for_DL and .to() of every class; " + BASE), ("conversions", "device arguments of the constructors")],
     [("cache", "tensors computed before a move must follow it")], ["device attribute of the structure and of every tensor handed out"])

prop("X02", "Models, losses, metrics, splits and tasks work on the chosen device",
     "Layers, models, losses, metrics, evaluators and splits that are given everything on a chosen device work wholly on it and give the CPU's results: outputs in both modes, gradients, optimiser steps, scores, masks. "
     "A task moves what it is given (features, labels, masks, batches, structure, model) to its own device, wherever it was before and also when the task itself is moved, and its scores, best model and test results are those of the CPU.",
     ["configurations", "inputs"], "every layer and model option on every small structure, every metric over small score tables, every task kind x schedule x order of moving and running, on an emulated second device",
     "The tests run on the CPU only, where a missing move is invisible.",
     ["dhg/nn", "dhg/models", "dhg/metrics", "dhg/experiments", "dhg/utils"], [("device of parameters and intermediate tensors", "dhg/nn, dhg/models"), ("moving data", "dhg/experiments/*.py:to, train, validate, test"), ("training on a device", "dhg/models/graphs/bgnn.py:train_with_cascaded")], None, ["device and value of every result"])

prop("L01", "Standard output mirrored to a file misses nothing and keeps its order",
     "After simple_stdout2file, everything printed or written to the standard output still reaches the terminal and is at once appended, complete and in order, to every file redirected to, whatever sequence of prints, flushes, further redirections and directory changes follows; what a file held before stays. "
     "A file in a missing directory is rejected without effect, and the default log formatter renders level, time and the complete message of every record on one line.",
     ["histories"], "every sequence of prints, writes, flushes, redirections and directory changes up to a bound",
     "No test covers it; lost or doubled output shows only after particular sequences.",
     ["dhg/utils/logging.py"], [("tee on write", "dhg/utils/logging.py:simple_stdout2file")], None, ["terminal stream and file contents"])

prop("A01", "A call means the same however its documented arguments are written",
     "For every public function, constructor and method, an option that is left out behaves exactly as its documented default, whatever combination of the other options is given. "
     "Positional arguments in the documented order and keyword arguments in any order give the same result (the same value, the same effect on the object, the same draw from the same seed), and leaving one option out never changes what another one means.",
     ["inputs"], "about 110 public callables x every subset of options up to a bound x every way of writing the call",
     "Tests write each call in one way with one set of options; wrong defaults and swapped arguments in forwarding code show only for the forms not written.",
     ["dhg"], [("option forwarding", "dhg/structure/hypergraphs/hypergraph.py:v2v/v2v_of_group; dhg/metrics/*; dhg/visualization/*; dhg/experiments/*")], None, ["result and effect of each call"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
