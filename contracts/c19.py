"""C19-C21: region trees, with an arbitrary heterogeneity function and through the regional methods."""
import numpy as np
from vapi import scenario
import tree_spec as ts
from effector.partitioning import Regions
from effector.regional_effect_ale import RegionalALE, RegionalRHALE
from effector.regional_effect_pdp import RegionalPDP, RegionalDerPDP
import effector.binning_methods as bm


def heterogeneity(v, d, min_points, total):
    """an arbitrary deterministic function of the instances (and effects)"""
    kind = v.one_of("heterogeneity", ["variance", "range", "levels", "noise", "sum", "size", "size"])
    j = v.int("column", 0, d)
    w = v.rng.normal(size=d)
    table = np.sort(v.rng.uniform(0, 2, size=5))[::-1] * v.rng.choice([1.0, 1.0, 0.2], size=5)

    def value(x, e):
        z = x[:, j] if e is None else e[:, j]
        if kind == "variance":
            return float(np.var(z))
        if kind == "range":
            return float(z.max() - z.min())
        if kind == "levels":
            return float(len(np.unique(np.round(z))))
        if kind == "size":        # the level of the tree decides, so every pattern of drops occurs
            return float(table[min(4, int(np.log2(total / len(x) + 0.5)))] + 0.001 * np.var(z))
        if kind == "noise":
            return float((abs(np.sum(np.sin(1000 * (x @ w)))) * 7.3) % 1.0)
        return float(abs(np.sum(z)) + 0.1)

    def heter(x, e=None):
        return ts.BIG if len(x) < min_points else value(x, e)
    return heter


def regions_input(v):
    n = v.size("N", 1, conc=(3, 60))
    d = v.size("D", 2, conc=(2, 5))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d)) if v.one_of("effects", [True, False]) else None
    types = v.one_of("types", [None, ["cat", "cont"] * 3, ["cont"] * 5, ["cat"] * 5])
    limit = v.int("cat_limit", 1, 12)
    T = types[:d] if types is not None else ["cat" if len(np.unique(X[:, q])) < limit else "cont" for q in range(d)]
    foc = [q for q in range(d) if q != s]
    ask = "all"
    if v.one_of("candidates", [True, False, False]):
        foc = [int(q) for q in v.rng.permutation(foc)[: v.rng.integers(1, len(foc) + 1)]]
        ask = list(foc)
    k = v.int("positions", 1, 9)
    depth = v.int("depth", 1, len(foc) + 1)
    mp = v.int("min_points", 2, 10)
    thr = v.real("threshold", choices=[0.0, 0.05, 0.1, 0.3, -0.5], lo=-1, hi=1)
    small = v.real("small enough", choices=[0.0, 0.1, 0.0], lo=0, hi=1)
    cat = v.one_of("split categorical", [True, False])
    names = v.one_of("names", [["x_%d" % q for q in range(d)], ["a", "b long", "c|d", "e and f", "g<=1"][:d]])
    heter = heterogeneity(v, d, mp, n)
    r = Regions(s, heter, X, E, None if types is None else T, names, "y", limit, ask, mp, k, depth, thr, small, cat)
    return r, X, E, s, T, foc, k, depth, mp, thr, small, cat, names, heter


def build(v):
    r, X, E, s, T, foc, k, depth, mp, thr, small, cat, names, heter = regions_input(v)
    r.search_all_splits()
    r.choose_important_splits()
    full, pruned = r.splits_to_tree(), r.splits_to_tree(True)
    if T[s] == "cat" and not cat:
        v.holds("a categorical feature is not split", full is None and pruned is None)
        v.stop()
    if len(X) < mp:
        v.stop()
    return r, full, pruned, X, E, s, T, foc, k, depth, mp, thr, small, names, heter


@scenario("C19", sym=False, n=600)
def structure(v):
    r, full, pruned, X, E, s, T, foc, k, depth, mp, thr, small, names, heter = build(v)
    ts.check_structure(v, full, X, E, s, names)
    ts.check_structure(v, pruned, X, E, s, names)
    scale = [{"mean": float(v.rng.normal() * 5), "std": float(v.rng.uniform(0.1, 9))} for _ in names]
    for imp in (True, False):
        ts.check_structure(v, r.splits_to_tree(imp, scale), X, E, s, names, scale)
    v.unchanged()


@scenario("C20", sym=False, n=900)
def best_split(v):
    r, full, pruned, X, E, s, T, foc, k, depth, mp, thr, small, names, heter = build(v)
    ts.check_search(v, full, X, E, foc, T, k, heter, depth, mp)
    for i in range(1, len(r.splits)):
        old, new = r.splits[i - 1], r.splits[i]
        w = (np.array(new["nof_instances"]) + 1) / np.sum(np.array(new["nof_instances"]) + 1)
        h = np.array(new["heterogeneity"])
        v.close("weighted heterogeneity reported", new["weighted_heter"], np.sum(w * h), rtol=1e-7, atol=1e-9)
        v.close("weighted drop reported", new["weighted_heter_drop"], np.sum(w * (np.repeat(old["heterogeneity"], 2) - h)), rtol=1e-7, atol=1e-9 * max(1.0, np.max(np.abs(h)) if np.max(np.abs(h)) < ts.BIG else ts.BIG))
    v.unchanged()


@scenario("C21", sym=False, n=1200)
def pruning(v):
    r, full, pruned, X, E, s, T, foc, k, depth, mp, thr, small, names, heter = build(v)
    ts.check_depth(v, full, depth, mp)
    ts.check_pruned(v, full, pruned, thr, small)
    v.unchanged()


def regional(v):
    """a regional method, fitted"""
    n = v.size("N", 4, conc=(8, 36))
    d = v.size("D", 2, conc=(2, 4))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    f = v.model("f", d)
    J = v.one_of("jacobian", [True, False]) and f.jac
    which = v.one_of("method", ["ALE", "RHALE", "PDP", "d-PDP"])
    limit = v.int("cat_limit", 1, 9)
    types = v.one_of("types", [None, ["cat", "cont"] * 2, ["cont"] * 4])
    types = None if types is None else types[:d]
    T = types if types is not None else ["cat" if len(np.unique(X[:, q])) < limit else "cont" for q in range(d)]
    kw = dict(nof_instances="all", cat_limit=limit, feature_types=types)
    E = None
    if which == "ALE":
        e = RegionalALE(X, f, **kw)
    elif which == "RHALE":
        E = f.jac(X)
        e = RegionalRHALE(X, f, f.jac, **kw) if J else RegionalRHALE(X, f, f.jac, instance_effects=E, **kw)
    elif which == "PDP":
        e = RegionalPDP(X, f, **kw)
    else:
        e = RegionalDerPDP(X, f, f.jac, **kw)
    foc = [q for q in range(d) if q != s]
    ask = "all"
    if v.one_of("candidates", [True, False, False]):
        foc = [int(q) for q in v.rng.permutation(foc)[: v.rng.integers(1, len(foc) + 1)]]
        ask = list(foc)
    o = dict(max_depth=v.int("depth", 1, len(foc) + 1), nof_candidate_splits_for_numerical=v.int("positions", 1, 7),
             min_points_per_subregion=v.int("min_points", 2, 9), candidate_conditioning_features=ask,
             heter_pcg_drop_thres=v.real("threshold", choices=[0.0, 0.05, 0.1, 0.3, -0.5], lo=-1, hi=1),
             heter_small_enough=v.real("small enough", choices=[0.0, 0.1, 0.0], lo=0, hi=1),
             split_categorical_features=v.one_of("split categorical", [True, False]))
    bins = {}
    if which in ("ALE", "RHALE"):
        bins["binning_method"] = bm.Fixed(nof_bins=v.int("bins", 1, 6), min_points_per_bin=0)
    e.fit(v.one_of("features", [s, [s], "all" if foc == [q for q in range(d) if q != s] else s]), **o, **bins)
    key = "feature_" + str(s)
    full, pruned = e.tree_full[key], e.tree_pruned[key]
    if T[s] == "cat" and not o["split_categorical_features"]:
        v.holds("a categorical feature is not split", full is None and pruned is None)
        v.stop()
    if n < o["min_points_per_subregion"]:
        v.stop()
    return e, full, pruned, X, E, s, T, foc, o


@scenario("C19", sym=False, n=60)
def regional_structure(v):
    e, full, pruned, X, E, s, T, foc, o = regional(v)
    names = ["x_%d" % q for q in range(X.shape[1])]
    ts.check_structure(v, full, X, E, s, names)
    ts.check_structure(v, pruned, X, E, s, names)
    for n in pruned.nodes:
        x, ef, name = e.get_node_info(s, n.idx)
        v.equal("node info, instances", x, n.data["data"])
        v.equal("node info, label", name, n.name)
        if E is not None:
            v.equal("node info, effects", ef, n.data["data_effect"])
    v.unchanged()


@scenario("C20", sym=False, n=60)
def regional_best_split(v):
    e, full, pruned, X, E, s, T, foc, o = regional(v)
    h = e.partitioners["feature_" + str(s)].heter_func
    ts.check_search(v, full, X, E, foc, T, o["nof_candidate_splits_for_numerical"], (lambda x, ef: h(x)) if E is None else h, o["max_depth"], o["min_points_per_subregion"])
    v.unchanged()


@scenario("C21", sym=False, n=60)
def regional_pruning(v):
    e, full, pruned, X, E, s, T, foc, o = regional(v)
    ts.check_depth(v, full, o["max_depth"], o["min_points_per_subregion"])
    ts.check_pruned(v, full, pruned, o["heter_pcg_drop_thres"], o["heter_small_enough"])
    v.unchanged()


@scenario("C21", sym=False, n=300)
def drop_patterns(v):
    """every pattern of important and unimportant levels"""
    d = v.size("D", 3, conc=(3, 5))
    depth = v.int("depth", 1, d)
    # balanced data: every split halves every node
    X = np.array([[(i >> q) & 1 for q in range(d)] for i in range(2 ** d)] * v.small("copies", 1, 3)) + v.array("jitter", (1, d), style="normal")
    table = [float(q) for q in v.rng.uniform(0.05, 2, size=depth + 1)]
    exact = v.one_of("drops of exactly the threshold", [False, False, True])
    if exact:        # sums of these are exact
        table = [float(4.0 * 0.5 ** q) for q in np.cumsum(v.rng.integers(0, 3, size=depth + 1))]
    n = len(X)

    def heter(x):
        return table[int(round(np.log2(n / len(x))))] if len(x) and abs(np.log2(n / len(x)) - round(np.log2(n / len(x)))) < 1e-9 and n / len(x) <= 2 ** depth else ts.BIG
    thr = v.real("threshold", choices=[0.0, 0.05, 0.1, 0.3], lo=-1, hi=1)
    small = v.real("small enough", choices=[0.0, 0.1, 0.0, 0.5], lo=0, hi=1)
    if exact:
        thr = v.one_of("exact threshold", [0.5, 0.75, 0.0])
        small = v.one_of("exact small enough", [0.0, table[0], table[0] / 2])
    r = Regions(0, heter, X, None, ["cont"] * d, ["x_%d" % q for q in range(d)], "y", 10, "all", 2, 1, depth, thr, small, False)
    r.search_all_splits()
    r.choose_important_splits()
    full = r.splits_to_tree()
    ts.check_depth(v, full, depth, 2)
    ts.check_pruned(v, full, r.splits_to_tree(True), thr, small, exact)


@scenario("C21", conc=False)
def important_splits(v):
    """any number of levels with any heterogeneities: the leading run of levels
    whose relative drop exceeds the threshold"""
    n = v.size("N", 1)
    d = v.size("D", 2)
    X = v.data("X", (n, d))
    k = v.size("levels", 1)
    w = v.array("w", (k + 1,))
    thr = v.real("threshold")
    small = v.real("small enough")
    v.assume_each("w", 0)
    v.assume(np.all(w > 0))
    r = Regions(0, None, X, None, ["cont", "cont"], ["a", "b"], "y", 10, [1], 10, 20, 2, thr, small, False)
    r.splits = [{"weighted_heter": w[i], "level": i} for i in range(k + 1)]
    r.split_found = True
    kept = r.choose_important_splits()
    m = len(kept)
    v.holds("the kept splits are remembered", len(r.important_splits) == m)
    if np.logical_or(w[0] == ts.BIG, w[0] < small):
        v.holds("nothing to split", m == 0)
        v.stop()
    v.holds("no more than there are", m <= k)
    i = v.int("i", 0, k)
    drop = (w[i] - w[i + 1]) / w[i]
    v.holds("a kept level is important", np.logical_or(i >= m, drop > thr))
    v.holds("the first level dropped is not important", np.logical_or(i != m, drop <= thr))
    j = v.int("j", 0, m)
    v.equal("the levels are kept in order", kept[j]["level"], j + 1)
    v.equal("the levels are kept in order", r.important_splits[j]["level"], j + 1)
    v.unchanged()


@scenario("C19", "C20", conc=False)
def split_rows(v):
    """a split sends every row, and its effects, to exactly one child"""
    n = v.size("N", 1)
    d = v.size("D", 2)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    q = v.int("feature", 0, d)
    pos = v.real("position")
    typ = v.one_of("type", ["cat", "cont"])
    r = Regions(0, None, X, E, ["cont", "cont"], ["a", "b"], "y", 10, [1])
    m = X[:, q] == pos if typ == "cat" else X[:, q] <= pos
    a, b = r.split_dataset(X, None, q, pos, typ)
    v.equal("first child", a, X[m, :])
    v.equal("second child", b, X[np.logical_not(m), :])
    a, b = r.split_dataset(X, E, q, pos, typ)
    v.equal("effects of the first child", a, E[m, :])
    v.equal("effects of the second child", b, E[np.logical_not(m), :])
    v.unchanged()


@scenario("C20", conc=False)
def candidate_positions(v):
    """candidates: the values of a categorical feature, the middles of equal cells
    of the range of a numerical one"""
    n = v.size("N", 1)
    d = v.size("D", 2)
    X = v.data("X", (n, d))
    q = v.int("feature", 0, d)
    k = v.size("positions", 1)
    r = Regions(0, None, X, None, ["cont", "cont"], ["a", "b"], "y", 10, [1])
    x = X[:, q]
    v.equal("values", r.find_positions_cat(X, q), np.unique(x))
    p = r.find_positions_cont(X, q, k)
    v.holds("as many as asked for", len(p) == k)
    lo, hi = np.min(x), np.max(x)
    i = v.int("i", 0, k)
    v.equal("middles of the cells", p[i], lo + (i + 0.5) * ((hi - lo) / k))
    v.unchanged()
