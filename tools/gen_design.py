"""Writes DESIGN.md: hand-written parts (design_head.md, NOTES below) merged with the bounds in the check modules,
known-findings.txt and the planted-bug results (tools/seeded_results.json).  Run: /opt/venv/bin/python tools/gen_design.py"""
import importlib, json, pathlib, sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
# property -> (what is explored / oracle, why this reaches what tests cannot)
NOTES = {
    "S01": ("Breadth-first search over states of the reference model (edges, loops, implicit-loop flag); every transition is replayed on a fresh real `Graph` in lock step, the store views are compared after every edit.",
            "A wrong merge, orientation or removal shows only after particular edit sequences; the tests run a handful of fixed ones."),
    "S02": ("Histories base - read one view - edit - read everything, for every (base, view, edit); every ordered pair of views; every small weighted graph. Oracle: dense NumPy definitions on the model's edges.",
            "A stale cache entry needs view V to be read, then edit E, then a view depending on V: the product space is enumerated."),
    "S03": ("As S01+S02 for `DiGraph`, with direction reversal as an edit.", "Orientation mistakes cancel on symmetric examples; caches must survive reversal."),
    "S04": ("As S01+S02 for `BiGraph`, with side switching as an edit that continues on the switched object.", "Sides share indices; confusion shows only with unequal sides after particular edits."),
    "S05": ("As S01 for grouped hyperedges.", "Merging is per group and per vertex set; needs several groups and re-additions."),
    "S06": ("As S02 for whole and per-group views; matrix columns are compared in the order of the object's own edge list.", "Views x groups x edits x read order; per-group caches go stale one group at a time."),
    "S07": ("Part A: interleavings of edits on two live objects (original, copy), each with its own model. Part B: every container-taking call, arguments compared with a snapshot, then mutated, structure compared with a snapshot.", "Aliasing is invisible until the other object is edited."),
    "S08": ("Every model state reached by few edits x restore form, then every edit on either side; chains of round trips, wrong-class loads.", "Round-trip loss depends on the state (loops, flags, groups, weights, reads before saving)."),
    "S09": ("Every small grouped hypergraph x every vertex selection x both policies, also nested and after edits; oracle: set restriction.", "Selection x group x collision space."),
    "S10": ("The random source is replaced (torch/numpy/random draws intercepted): every outcome of every draw on a grid is executed and its probability mass accumulated; inclusion probabilities and pairwise independence are compared exactly.", "Tests see one random outcome; bias or shared draws are invisible to them."),
    "C01": ("Every small grouped hypergraph; HyperGCN under every order of a 1-D feature and every projection direction of a grid.", "Extremes and mediators depend on feature order x hyperedge overlap."),
    "C02": ("Every small graph / bipartite graph / hypergraph / adjacency list through every conversion; set-level oracle.", "Definition must hold on loops, isolated vertices, duplicate hyperedges, several groups."),
    "C03": ("All placements of points on a Golomb ruler and plane set, offset copies, outliers and larger configurations; exhaustive sorting oracle in double precision.", "Rounding, tie and index errors depend on the configuration of points."),
    "N01": ("Every small (di/bi)graph x aggregation x direction x weight source; every drop mask through the intercepted random source; dense oracle and gradients.", "Edge-vector order x weights x isolated vertices."),
    "N02": ("Every small grouped hypergraph x stage x aggregation x weight source x group; every drop mask.", "Path order, group restriction and per-stage overrides only differ on particular hypergraphs."),
    "N03": ("Every layer x option setting x small structure with irregular parameters: output and gradients against formulas written densely from the papers/docstrings; HyperGCN under every random projection of a grid.", "Wrong normalisation/terms vanish on regular structures and default options."),
    "N04": ("Every model as composition of reference layers (mc/nnref.py); all vertex permutations; every dropout mask in training mode.", "Equivariance and mode-dependence quantify over structures and permutations."),
    "N05": ("Every pair of score vectors over a value grid incl. extreme ones; every small matrix for the regulariser; values and gradients.", "Overflow and broadcasting appear at particular shapes/values."),
    "R01": ("Every outcome of the intercepted random source, best-first by probability mass (un-enumerated mass is the tolerance): class membership on every outcome, probabilities of edges and structures.", "A generator that is wrong with small probability, or biased, passes every seeded test."),
    "R02": ("Every sequence of random operations of length <=2 (3), repeated after re-seeding and after arbitrary earlier operations; distinct seeds must give distinct states.", "Any unseeded source or cached state shows only in particular sequences."),
    "U01": ("Every label vector x request x every outcome of the shuffles.", "Requires all outcomes: leaks and unreachable vertices are outcome- and label-dependent."),
    "U02": ("Every small interaction graph x request x every outcome (shuffles, negative sampler).", "As U01; negatives must never be positives for any outcome."),
    "U03": ("Every small edge/adjacency list, marker set and combination of files.", "Empty, repeated, isolated and text-ordered cases."),
    "M01": ("Every relevance vector x every ranking x every cut-off for short lists, singly and in batches; larger deterministic lists.", "Definitions differ only on particular rankings/cut-offs."),
    "M02": ("As M01 for recommender metrics.", "As M01."),
    "M03": ("Every label/prediction vector pair; confusion-matrix oracle.", "Absent classes, unordered label values, averaging."),
    "M04": ("Every history of add/close/full-set calls on one and two evaluators against a model holding the raw samples.", "Leaks between epochs/phases are history properties."),
    "E01": ("Every score table (trials x epochs) x direction x pruning decision is played through the real `Auto` experiment with a scripted task; the model predicts best trial, epoch, test result.", "Selection errors depend on the order of scores and prunings."),
    "E02": ("Non-interference: every assignment of vertices/interactions to parts, every change outside the part under scrutiny must leave the result bit-identical; all orders of train/validate/test.", "Leakage is a two-run property over all splits."),
    "F01": ("The HTTP transport is replaced; fault scripts are grown request by request until the call ends, times initial cache states, with process death / interruption at every read of the body; the file system outcome is judged after each call and a recovery call.", "Crash points and fault sequences."),
    "F02": ("Every access history of dataset objects over file states and network states, against a model of lazy loading; every shipped dataset class with fabricated raw files.", "Laziness/isolation are history properties."),
    "D01": ("Every small matrix / file content through every transform and loader; composition sequences.", "Degenerate rows/columns and malformed lines."),
    "V01": ("Every small structure x styling form x layout seed; marks read back from the matplotlib axes.", "Marks must correspond for every structure incl. loops, duplicates, empty."),
    "L01": ("Every sequence of steps on the redirected standard output; terminal stream and all files compared with a model after each step.", "Order and completeness are history properties."),
    "A01": ("Every public callable x every subset (<=2; thorough <=4) of its options x every way of writing the call (left out, spelled out as the default, keyword in both orders, positional prefixes); all forms must agree with the shortest one.", "Defaults and forwarding are a product of options no test enumerates."),
    "X01": ("The real code runs inside `mc/vdev.py`, an emulated second device: tensors carry a device tag, results inherit it, operations on tensors of two devices raise as torch's do. Histories of moves, reads, edits and message passing are enumerated; each view's device and value is compared with the model and with the same computation on the CPU.",
            "No second device is present here or in the tests' CI; a stale cache entry on the old device needs read - move - read."),
    "X02": ("As X01 for the layers, models, losses, metrics, splits and tasks: the same computation on the CPU is the reference; parameters, gradients and everything a model or evaluator is shown must be on the task's device.",
            "A missing `.to()` is invisible on the CPU."),
    "V02": ("Every embedding matrix over a value grid; maps over vector grids.", "Degenerate inputs (zero, coinciding, huge)."),
}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
seedres = json.loads((V / "tools/seeded_results.json").read_text()) if (V / "tools/seeded_results.json").exists() else {}
out = [(V / "tools/design_head.md").read_text().rstrip(), "", "## Properties, one by one", ""]
na = []
for p in props:
    pid = p["id"]
    f = V / "checks" / f"{pid}.py"
    if not f.exists():
        na.append(pid)
        continue
    m = importlib.import_module(f"checks.{pid}")
    what, why = NOTES[pid]
    out += [f"### {pid} {p['title']}", "", what, "", f"- Bounds, quick: {m.BOUNDS['quick']}.", f"- Bounds, thorough: {m.BOUNDS['thorough']}.",
            f"- Assumes: {'; '.join(m.ASSUME)}.", f"- Why beyond tests: {why}", ""]
out += ["Not claimed: " + (", ".join(na) or "none (every listed property has a check)") + ".", ""]
out += ["## Planted bugs and which check catches them", "", "Result of the property's quick check on the tree with the patch applied.", "", "| id | needs | caught by |", "|---|---|---|"]
for d in sorted((V / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text())
    out.append(f"| {d.parent.name} | {m['needs'].replace('|', '/')} | {seedres.get(d.parent.name, 'not yet run')} |")
out += ["", "## Defects found in the code under test", "", "All were shown against the real code and repaired by `fix:` commits (known-findings.txt):", ""]
for l in (V / "known-findings.txt").read_text().splitlines():
    if l.startswith(("fixed:", "known:")):
        out.append("- " + l)
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
print("DESIGN.md", len(out), "lines")
