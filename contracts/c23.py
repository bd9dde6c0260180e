"""C22, C23, C24: what regional methods compute on a node, against the global
methods (symbolic: the tree is any tree the partitioner may return)."""
import numpy as np
from vapi import scenario
import spec
from effector.global_effect_ale import ALE, RHALE
from effector.global_effect_pdp import PDP, DerPDP
from effector.global_effect_shap import ShapDP
from effector.regional_effect_ale import RegionalALE, RegionalRHALE
from effector.regional_effect_pdp import RegionalPDP, RegionalDerPDP
from effector.regional_effect_shap import RegionalShapDP
import effector.binning_methods as bm

TREE = ("search_all_splits", "choose_important_splits", "splits_to_tree")
BINS = ("find_limits", "compute_local_effects", "compute_ale_params", "compute_accumulated_effect")
CENT = [False, True, "zero_start"]
PDPS = ["pdp", "d-pdp", "d-pdp numeric"]


class World:
    def __init__(self, v):
        self.n = v.size("N", 4)
        self.d = v.size("D", 2)
        self.s = v.int("s", 0, self.d)
        self.X = v.data("X", (self.n, self.d))
        self.f = v.model("f", self.d)
        self.J = v.jac("J", self.d)
        self.E = v.array("E", (self.n, self.d))
        self.fitkw = {}
        self.own = None

    def regional(self, kind, **kw):
        if kind == "pdp":
            return RegionalPDP(self.X, self.f, nof_instances="all", **kw)
        if kind == "d-pdp":
            return RegionalDerPDP(self.X, self.f, self.J, nof_instances="all", **kw)
        if kind == "d-pdp numeric":
            return RegionalDerPDP(self.X, self.f, nof_instances="all", **kw)
        if kind == "ale":
            return RegionalALE(self.X, self.f, **kw)
        if kind == "rhale":
            return RegionalRHALE(self.X, self.f, self.J, **kw)
        if kind == "rhale effects":
            return RegionalRHALE(self.X, self.f, self.J, instance_effects=self.E, **kw)
        return RegionalShapDP(self.X, self.f, nof_instances="all", **kw)

    def effect(self, kind, x, e, **kw):
        """the global method on those instances"""
        if kind == "pdp":
            return PDP(x, self.f, nof_instances="all", **kw)
        if kind == "d-pdp":
            return DerPDP(x, self.f, self.J, nof_instances="all", **kw)
        if kind == "d-pdp numeric":
            return DerPDP(x, self.f, nof_instances="all", **kw)
        if kind == "ale":
            return ALE(x, self.f, **kw)
        if kind == "rhale" or kind == "rhale effects":
            return RHALE(x, self.f, self.J, data_effect=e, **kw)
        return ShapDP(x, self.f, nof_instances="all", **kw)


def method(v, which):
    """a binning method given to the regional fit, and the same one for the global method"""
    if which == "Fixed":
        k = v.size("bins", 1)
        m = v.size("min points per bin", 0)
        return bm.Fixed(nof_bins=k, min_points_per_bin=m), bm.Fixed(nof_bins=k, min_points_per_bin=m)
    if which == "DP":
        k = v.size("bins", 1)
        return bm.DynamicProgramming(max_nof_bins=k, min_points_per_bin=2), bm.DynamicProgramming(max_nof_bins=k, min_points_per_bin=2)
    if which == "greedy":
        return "greedy", bm.Greedy()
    return "dp", bm.DynamicProgramming()


def node(v, kinds, bins):
    """a fitted regional method, a node and its instances"""
    w = World(v)
    kind = v.one_of("kind", kinds)
    r = w.regional(kind)
    if bins:
        b, w.own = method(v, v.one_of("binning", bins) if kind not in bins else bins[kind])
        r.fit(w.s, max_depth=1, binning_method=b)
    else:
        r.fit(w.s, max_depth=1)
    t = r.tree_pruned["feature_" + str(w.s)]
    k = v.one_of("node", [1, 0])
    return w, kind, r, k, t.nodes[k].data["data"], t.nodes[k].data["data_effect"]


def region_eval(v, kinds, bins):
    w, kind, r, k, x, e = node(v, kinds, bins)
    xs = v.array("xs", (v.size("T", 1),))
    c = v.one_of("centering", CENT)
    g = w.effect(kind, x, e)
    v.assume(g.axis_limits[0, w.s] < g.axis_limits[1, w.s])
    if bins and v.raises(lambda: g.fit(w.s, binning_method=w.own, centering=c)):
        v.stop()
    y, h = g.eval(w.s, xs, True, c)
    y2, h2 = r.eval(w.s, k, xs, True, c)
    v.close("curve", y2, y)
    v.close("heterogeneity", h2, h)
    v.close("curve without the heterogeneity", r.eval(w.s, k, xs, False, c), y)
    v.unchanged()


@scenario("C23", "C17", uses=TREE, conc=False, budget=200)
def pdp_node(v):
    region_eval(v, PDPS, None)


@scenario("C23", "C17", uses=TREE + BINS, conc=False, budget=200)
def ale_node(v):
    region_eval(v, ["ale"], ["Fixed", "greedy", "dp"])


@scenario("C23", "C17", uses=TREE + BINS, conc=False, budget=250)
def rhale_node(v):
    region_eval(v, ["rhale", "rhale effects"], {"rhale": "DP", "rhale effects": "greedy"})


@scenario("C23", "C17", uses=TREE, conc=False, budget=200)
def shap_node(v):
    region_eval(v, ["shap"], None)


def region_plot(v, kinds, bins):
    """what a regional plot draws is what the global method's plot draws"""
    w, kind, r, k, x, e = node(v, kinds, bins)
    c = v.one_of("centering", CENT)
    g = w.effect(kind, x, e)
    v.assume(g.axis_limits[0, w.s] < g.axis_limits[1, w.s])
    if bins and v.raises(lambda: g.fit(w.s, binning_method=w.own, centering=c)):
        v.stop()
    het = v.one_of("heterogeneity", [False, True])
    scale = not het
    mx, px = v.array("mean x", (w.d,)), v.array("std x", (w.d,))
    v.assume(px[w.s] > 0)
    sx = [{"mean": mx[i], "std": px[i]} for i in range(w.d)] if scale else None
    sy = {"mean": v.real("mean y"), "std": v.real("std y", pos=True)} if scale else None
    g.plot(feature=w.s, heterogeneity=het, centering=c, scale_x=sx[w.s] if scale else None, scale_y=sy)
    n = len(v.plots)
    r.plot(w.s, k, heterogeneity=het, centering=c, scale_x_list=sx, scale_y=sy)
    p = v.plots
    v.equal("as many drawing calls", len(p), 2 * n)
    for i in range(n):
        a, b = p[i], p[n + i]
        v.holds("the same drawing call", a[1] == b[1])
        if a[1] in ["plot", "fill_between", "bar", "axhline"]:
            v.equal(a[1], b[2], a[2])
            for q in a[3]:
                v.equal(a[1] + " " + q, b[3][q], a[3][q])
    v.unchanged()


@scenario("C24", "C17", uses=TREE, conc=False, budget=200)
def pdp_region_plot(v):
    region_plot(v, PDPS[:2], None)


@scenario("C24", "C17", uses=TREE + BINS, conc=False, budget=200)
def ale_region_plot(v):
    region_plot(v, ["ale"], ["Fixed"])


@scenario("C24", "C17", uses=TREE + BINS, conc=False, budget=200)
def rhale_region_plot(v):
    region_plot(v, ["rhale effects"], ["dp"])


@scenario("C24", "C17", uses=TREE, conc=False, budget=200)
def shap_region_plot(v):
    region_plot(v, ["shap"], None)


BIG = 1e8


def objective(v, kinds, bins):
    """the heterogeneity function that drives the partitioning, on any subset of the instances"""
    w = World(v)
    s = w.s
    kind = v.one_of("kind", kinds)
    given = v.one_of("axis limits", [False, True])
    lims = None
    if given:
        lims = v.array("axis_limits", (2, w.d))
        v.assume(lims[0, s] < lims[1, s])
    r = w.regional(kind, axis_limits=lims)
    if not given:
        lims = np.array([w.X.min(axis=0), w.X.max(axis=0)])
        v.assume(lims[0, s] < lims[1, s])
    least = v.size("min points", 2)
    c = v.one_of("centering", CENT)
    k = v.size("points for centering", 2)
    if bins:
        b, own = method(v, bins[kind])
        r.fit(s, min_points_per_subregion=least, centering=c, binning_method=b)
    else:
        r.fit(s, min_points_per_subregion=least, centering=c, points_for_centering=k)
    heter = r.partitioners["feature_" + str(s)].heter_func
    m = v.array("in_node", (w.n,), "b")
    v.assume(np.any(m))
    x, e = w.X[m, :], w.E[m, :]
    if given:
        v.assume(len(spec.inside(x, lims, s)) > 0)
    if kind == "shap":
        g = w.effect(kind, x, e)
        v.assume(g.axis_limits[0, s] < g.axis_limits[1, s])
    h = heter(x, e) if kind in ["rhale", "rhale effects"] else heter(x)
    if x.shape[0] < least:
        v.equal("too few instances", h, BIG)
        v.stop()
    lo, hi = np.min(x[:, s]), np.max(x[:, s])
    if bins:
        g = w.effect(kind, x, e)
        if v.raises(lambda: g.fit(s, binning_method=own, centering=c)):
            v.equal("cannot be fitted", h, BIG)
            v.stop()
        v.close("heterogeneity at the right end", h, g.eval(s, np.array([hi]), True)[1][0])
        v.stop()
    if kind != "shap":
        g = w.effect(kind, x, e, axis_limits=lims)
    if v.raises(lambda: g.fit(s, centering=c, points_for_centering=k)):
        v.equal("cannot be fitted", h, BIG)
        v.stop()
    v.close("mean heterogeneity", h, np.mean(g.eval(s, np.linspace(lo, hi, 10), True, c)[1]))


@scenario("C22", uses=TREE, conc=False, budget=200)
def pdp_heterogeneity(v):
    objective(v, PDPS, None)


@scenario("C22", uses=TREE + BINS, conc=False, budget=200)
def ale_heterogeneity(v):
    objective(v, ["ale"], {"ale": "Fixed"})


@scenario("C22", uses=TREE + BINS, conc=False, budget=250)
def rhale_heterogeneity(v):
    objective(v, ["rhale", "rhale effects"], {"rhale": "dp", "rhale effects": "greedy"})


@scenario("C22", uses=TREE, conc=False, budget=200)
def shap_heterogeneity(v):
    objective(v, ["shap"], None)
