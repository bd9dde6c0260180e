"""C16: selection and alignment of instances, C17: the caller's inputs,
C26: axis limits, feature types, average output."""
import numpy as np
from vapi import scenario
import spec
import effector.binning_methods as bm
from effector.global_effect_ale import ALE, RHALE
from effector.global_effect_pdp import PDP, DerPDP
from effector.global_effect_shap import ShapDP
from effector.interaction import HIndex, REPID
from effector.regional_effect_ale import RegionalALE, RegionalRHALE
from effector.regional_effect_pdp import RegionalPDP, RegionalDerPDP
from effector.regional_effect_shap import RegionalShapDP
import effector.helpers as helpers
import effector.utils as utils

GLOBAL = ["PDP", "d-PDP", "ALE", "RHALE", "RHALE effects", "SHAP"]
REGIONAL = ["r-PDP", "r-d-PDP", "r-ALE", "r-RHALE", "r-RHALE effects", "r-SHAP"]
INDEX = ["HIndex", "REPID"]


def build(kind, X, f, J, E, m, lims=None):
    """an effect object with m instances"""
    if kind == "PDP":
        return PDP(X, f, axis_limits=lims, nof_instances=m)
    if kind == "d-PDP":
        return DerPDP(X, f, J, axis_limits=lims, nof_instances=m)
    if kind == "ALE":
        return ALE(X, f, axis_limits=lims, nof_instances=m)
    if kind == "RHALE":
        return RHALE(X, f, J, axis_limits=lims, nof_instances=m)
    if kind == "RHALE effects":
        return RHALE(X, f, axis_limits=lims, nof_instances=m, data_effect=E)
    if kind == "SHAP":
        return ShapDP(X, f, axis_limits=lims, nof_instances=m)
    if kind == "r-PDP":
        return RegionalPDP(X, f, axis_limits=lims, nof_instances=m)
    if kind == "r-d-PDP":
        return RegionalDerPDP(X, f, J, axis_limits=lims, nof_instances=m)
    if kind == "r-ALE":
        return RegionalALE(X, f, axis_limits=lims, nof_instances=m)
    if kind == "r-RHALE":
        return RegionalRHALE(X, f, J, axis_limits=lims, nof_instances=m)
    if kind == "r-RHALE effects":
        return RegionalRHALE(X, f, instance_effects=E, axis_limits=lims, nof_instances=m)
    if kind == "r-SHAP":
        return RegionalShapDP(X, f, axis_limits=lims, nof_instances=m)
    if kind == "HIndex":
        return HIndex(X, f, nof_instances=m)
    return REPID(X, f, J, m)


def effects(e):
    return e.data_effect if hasattr(e, "data_effect") else e.instance_effects


@scenario("C16", n=200)
def all_instances(v):
    """'all', or as many as there are: every row, in the caller's order"""
    n = v.size("N", 1)
    d = v.size("D", 1)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    kind = v.one_of("kind", GLOBAL + REGIONAL + INDEX)
    m = v.one_of("nof_instances", ["all", n, n + 3])
    e = build(kind, X, f, J, E, m)
    v.equal("the caller's rows in order", e.data, X)
    if kind in ["RHALE effects", "r-RHALE effects"]:
        v.equal("the caller's effects in order", effects(e), E)
    if kind == "r-RHALE":
        v.equal("the Jacobian of the caller's rows", effects(e), J(X))
    v.unchanged()


@scenario("C16", n=200)
def some_instances(v):
    """fewer than there are: distinct rows, everything attached from the same row"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    m = v.int("nof_instances", 1, n)
    X = np.array(v.data("X", (n, d)), dtype=float)
    X[:, 0] = np.arange(n)      # the first feature tells the row
    X0 = v.copy(X)
    E = v.array("E", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    kind = v.one_of("kind", GLOBAL + REGIONAL + INDEX)
    e = build(kind, X, f, J, E, m)
    v.equal("as many as asked for", e.data.shape[0], m)
    r = e.data[:, 0].astype(int)
    i = v.int("i", 0, m)
    j = v.int("j", 0, m)
    v.holds("rows of the caller", np.logical_and(0 <= r[i], r[i] < n))
    if i != j:
        v.holds("without replacement", r[i] != r[j])
    v.equal("whole rows", e.data[i, :], X0[r[i], :])
    if kind in ["RHALE effects", "r-RHALE effects"]:
        v.equal("effects of the same rows", effects(e)[i, :], E[r[i], :])
    if kind == "r-RHALE":
        v.equal("Jacobian of the same rows", effects(e)[i, :], J(X0)[r[i], :])
    if kind in GLOBAL:
        v.equal("average output of the same rows", e.avg_output, np.mean(f(X0[r])))
    v.equal("the caller's data are not written", X, X0)
    v.unchanged()


@scenario("C16", n=60, sym=False)
def aligned_bins(v):
    """the bin effects of a subsampled RHALE are means of the effects of the rows in the bin"""
    n = v.size("N", 2, conc=(3, 30))
    d = v.size("D", 1, conc=(1, 3))
    m = v.int("nof_instances", 2, n)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    X[:, 0] = np.argsort(np.argsort(X[:, 0])) + 0.5
    v.freeze("X")
    f = v.model("f", d)
    e = RHALE(X, f, nof_instances=m, data_effect=E)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    r = np.array([np.flatnonzero(X[:, 0] == x)[0] for x in e.data[:, 0]])
    if v.raises(lambda: e.fit(features=s, binning_method=bm.Fixed(nof_bins=v.size("bins", 1, conc=(1, 5)), min_points_per_bin=0, cat_limit=1))):
        v.stop()
    p = e.feature_effect["feature_" + str(s)]
    L = p["limits"]
    for k in range(len(L) - 1):
        b = spec.in_bin(X[r, s], L, k)
        if np.sum(b) > 0:
            v.equal("mean effect of the rows of the bin", p["bin_effect"][k], np.mean(E[r, s][b]))
    v.unchanged()


@scenario("C26", n=200)
def limits_from_data(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    s = v.int("s", 0, d)
    i = v.int("i", 0, n)
    kind = v.one_of("kind", GLOBAL + REGIONAL)
    m = v.one_of("nof_instances", ["all", v.int("M", 1, n + 1)])
    e = build(kind, X, f, J, E, m)
    U = X if kind in REGIONAL else e.data
    v.equal("lower limits", e.axis_limits[0, s], np.min(U[:, s]))
    v.equal("upper limits", e.axis_limits[1, s], np.max(U[:, s]))
    v.equal("one pair per feature", e.axis_limits.shape[1], d)
    v.holds("no instance is outside", np.all(np.logical_and(e.data[:, s] >= e.axis_limits[0, s], e.data[:, s] <= e.axis_limits[1, s])))
    v.unchanged()


@scenario("C26", n=150)
def limits_given(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    al = v.array("axis_limits", (2, d))
    kind = v.one_of("kind", GLOBAL + REGIONAL)
    e = build(kind, X, f, J, E, v.one_of("nof_instances", ["all", v.int("M", 1, n + 1)]), lims=al)
    v.equal("the limits given", e.axis_limits, al)
    v.unchanged()


@scenario("C26", n=150)
def average_output(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    m = v.one_of("nof_instances", ["all", v.int("M", 1, n + 1)])
    kind = v.one_of("kind", GLOBAL)
    e = build(kind, X, f, J, E, m)
    v.equal("mean output over the instances used", e.avg_output, np.mean(f(e.data)))
    a = v.real("avg_output", choices=[0.0, 2.5])
    if kind == "PDP":
        e = PDP(X, f, nof_instances=m, avg_output=a)
    elif kind == "d-PDP":
        e = DerPDP(X, f, J, nof_instances=m, avg_output=a)
    elif kind == "ALE":
        e = ALE(X, f, nof_instances=m, avg_output=a)
    elif kind == "SHAP":
        e = ShapDP(X, f, nof_instances=m, avg_output=a)
    else:
        e = RHALE(X, f, J, nof_instances=m, avg_output=a)
    v.equal("the average output given", e.avg_output, a)
    v.unchanged()


@scenario("C26", n=150)
def feature_types(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    c = v.int("cat_limit", 0, 9)
    s = v.int("s", 0, d)
    b = v.array("categorical", (d,), "b")
    types = ["cat" if b[i] else "cont" for i in range(d)]
    given = v.one_of("given", [True, False])
    kind = v.one_of("kind", REGIONAL)
    kw = {"cat_limit": c}
    if given:
        kw["feature_types"] = types
    if kind == "r-PDP":
        e = RegionalPDP(X, f, **kw)
    elif kind == "r-d-PDP":
        e = RegionalDerPDP(X, f, J, **kw)
    elif kind == "r-ALE":
        e = RegionalALE(X, f, **kw)
    elif kind == "r-SHAP":
        e = RegionalShapDP(X, f, **kw)
    else:
        e = RegionalRHALE(X, f, J, **kw)
    if given:
        v.holds("the type given", e.feature_types[s] == ("cat" if b[s] else "cont"))
    elif len(np.unique(X[:, s])) < c:
        v.holds("few distinct values: categorical", e.feature_types[s] == "cat")
    else:
        v.holds("otherwise continuous", e.feature_types[s] == "cont")
    v.unchanged()


CURVE = ("find_limits", "compute_local_effects", "compute_ale_params", "compute_accumulated_effect")


def inputs(v, nmin=2):
    n = v.size("N", nmin, conc=(nmin, 24))
    d = v.size("D", 1, conc=(1, 3))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    return X, E, s, v.model("f", d), v.jac("J", d)


@scenario("C17", uses=CURVE, budget=200, n=200)
def frame_global(v):
    """fit, eval and plot write to none of the caller's arrays, lists and settings"""
    X, E, s, f, J = inputs(v)
    d = X.shape[1]
    al = v.array("axis_limits", (2, d))
    v.assume(al[0, s] < al[1, s])
    if not v.symbolic:
        al[0, :] = X.min(axis=0)
        al[1, :] = X.max(axis=0) + 0.5
        v.freeze("axis_limits")
    v.assume(np.any(np.logical_and(X[:, s] >= al[0, s], X[:, s] <= al[1, s])))
    xs = v.array("xs", (v.size("T", 1),))
    names = ["name " + str(i) for i in range(d)]
    kind = v.one_of("kind", GLOBAL[:-1])
    lims = v.one_of("limits", [True, False])
    c = v.one_of("centering", [False, True, "zero_start"])
    scale = v.one_of("scale", [True, False])
    sx = {"mean": v.real("mean x"), "std": v.real("std x", pos=True)}
    sy = {"mean": v.real("mean y"), "std": v.real("std y", pos=True)}
    mx, my = sx["mean"], sy["mean"]
    px, py = sx["std"], sy["std"]
    lim = al if lims else None
    if kind == "PDP":
        e = PDP(X, f, axis_limits=lim, nof_instances="all", feature_names=names)
    elif kind == "d-PDP":
        e = DerPDP(X, f, J, axis_limits=lim, nof_instances="all", feature_names=names)
    elif kind == "ALE":
        e = ALE(X, f, axis_limits=lim, feature_names=names)
    elif kind == "RHALE":
        e = RHALE(X, f, lambda x: E if x.shape[0] == E.shape[0] else J(x), axis_limits=lim, feature_names=names)
    else:
        e = RHALE(X, f, axis_limits=lim, data_effect=E, feature_names=names)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    if kind in ["PDP", "d-PDP"]:
        e.fit(features=s, centering=c)
        het = v.one_of("heterogeneity", [False, "std", "ice"])
    else:
        m = bm.Fixed(nof_bins=v.size("bins", 1, conc=(1, 7)), min_points_per_bin=0, cat_limit=2)
        if v.raises(lambda: e.fit(features=s, binning_method=m, centering=c)):
            v.stop()
        het = v.one_of("heterogeneity", [False, True])
    e.eval(feature=s, xs=xs, heterogeneity=True, centering=c)
    e.plot(feature=s, heterogeneity=het, centering=c, scale_x=sx if scale else None, scale_y=sy if scale else None, show_avg_output=scale)
    v.unchanged()
    v.equal("scale of x", [sx["mean"], sx["std"]], [mx, px])
    v.equal("scale of y", [sy["mean"], sy["std"]], [my, py])
    v.equal("number of names", len(names), d)
    v.holds("feature names", names[s] == "name " + str(s))


@scenario("C17", sym=False, n=60)
def frame_bins(v):
    """the same with real bins of every kind, SHAP included"""
    X, E, s, f, J = inputs(v, 6)
    d = X.shape[1]
    kind = v.one_of("kind", GLOBAL)
    e = build(kind, X, f, J, E, "all")
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    xs = v.array("xs", (v.size("T", 1),))
    c = v.one_of("centering", [False, True, "zero_start"])
    kw = {}
    if kind in ["RHALE", "RHALE effects"]:
        kw["binning_method"] = v.one_of("method", ["greedy", "dp", "fixed", bm.Greedy(10, 1, 0.3, 2), bm.DynamicProgramming(5, 1, 0.3, 2)])
    if kind == "SHAP":
        v.assume(len(X) <= 10)

    def run():
        e.fit(features=s, centering=c, **kw)
        e.eval(feature=s, xs=xs, heterogeneity=True, centering=c)
        e.plot(feature=s, heterogeneity=v.one_of("het", [False, True]), centering=c)
    v.raises(run)
    v.unchanged()
    v.holds("checked", True)


@scenario("C17", sym=False, n=60)
def frame_regional(v):
    X, E, s, f, J = inputs(v, 12)
    n, d = X.shape
    v.assume(d >= 2)
    kind = v.one_of("kind", REGIONAL[:-1])
    names = ["name %d" % i for i in range(d)]
    types = [v.one_of("type", ["cat", "cont"]) for i in range(d)]
    al = np.stack([X.min(axis=0), X.max(axis=0)])
    foc = [i for i in range(d) if i != s]
    scales = [{"mean": 1.0 + i, "std": 2.0} for i in range(d)]
    sy = {"mean": 3.0, "std": 0.5}
    keep = v.copy((names, types, al, foc, scales, sy))
    kw = dict(axis_limits=al, feature_types=types, feature_names=names, nof_instances=v.one_of("nof_instances", ["all", n - 2]))
    if kind == "r-PDP":
        e = RegionalPDP(X, f, **kw)
    elif kind == "r-d-PDP":
        e = RegionalDerPDP(X, f, J, **kw)
    elif kind == "r-ALE":
        e = RegionalALE(X, f, **kw)
    elif kind == "r-RHALE":
        e = RegionalRHALE(X, f, lambda x: E if len(x) == n else J(x), **kw)
    else:
        e = RegionalRHALE(X, f, instance_effects=E, **kw)
    fit = dict(heter_pcg_drop_thres=0.0, heter_small_enough=0.0, max_depth=v.small("depth", 1, d - 1), min_points_per_subregion=2, candidate_conditioning_features=v.one_of("foc", ["all", foc]),
               nof_candidate_splits_for_numerical=v.small("splits", 1, 5), split_categorical_features=True)
    if kind in ["r-ALE", "r-RHALE", "r-RHALE effects"]:
        fit["binning_method"] = bm.Fixed(nof_bins=2, min_points_per_bin=0, cat_limit=1)
    c = v.one_of("centering", [False, True, "zero_start"])
    xs = v.array("xs", (3,))

    def run():
        e.fit(s, centering=c, **fit)
        nodes = e.tree_pruned["feature_%d" % s].nodes
        k = nodes[int(v.rng.integers(len(nodes)))].idx
        e.eval(s, k, xs, heterogeneity=True, centering=c)
        e.plot(s, k, heterogeneity=v.one_of("het", [False, True]), centering=c, scale_x_list=v.one_of("scale", [None, scales]), scale_y=sy)
        e.describe_subregions(s, scale_x_list=scales)
        e.show_partitioning(s, scale_x_list=scales)
        e.eval(s, 0, xs)
    v.raises(run)
    v.unchanged()
    for name, a, b in zip(["feature names", "feature types", "axis limits", "candidate features", "scales", "scale of y"], (names, types, al, foc, scales, sy), keep):
        v.holds(name, np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)
