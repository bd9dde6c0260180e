"""C22, C23: regional methods against the global ones."""
import numpy as np
from vapi import scenario
import tree_spec as ts
from effector.global_effect_ale import ALE, RHALE
from effector.global_effect_pdp import PDP, DerPDP
from effector.global_effect_shap import ShapDP
from effector.regional_effect_ale import RegionalALE, RegionalRHALE
from effector.regional_effect_pdp import RegionalPDP, RegionalDerPDP
from effector.regional_effect_shap import RegionalShapDP
import effector.binning_methods as bm

CENT = [False, True, "zero_start", "zero_integral"]


def binning(v):
    """a binning method, and the same one written out (the names mean the defaults)"""
    which = v.one_of("binning", ["fixed", "greedy", "dp", "Fixed", "Greedy", "DP"])
    if which == "fixed":
        return "fixed", bm.Fixed()
    if which == "greedy":
        return "greedy", bm.Greedy()
    if which == "dp":
        return "dp", bm.DynamicProgramming()
    if which == "Fixed":
        kw = dict(nof_bins=v.int("bins", 1, 6), min_points_per_bin=v.one_of("min points per bin", [0, 0, 2]))
        return bm.Fixed(**kw), bm.Fixed(**kw)
    if which == "Greedy":
        kw = dict(init_nof_bins=v.int("initial bins", 2, 9), min_points_per_bin=2, discount=v.real("discount", choices=[0.1, 0.5, 0.0], lo=0, hi=1))
        return bm.Greedy(**kw), bm.Greedy(**kw)
    kw = dict(max_nof_bins=v.int("max bins", 1, 5), min_points_per_bin=2)
    return bm.DynamicProgramming(**kw), bm.DynamicProgramming(**kw)


class Case:
    """a regional method, fitted on one feature, and its global counterpart"""

    def __init__(self, v, which, conc_n=(10, 40), effects=None):
        self.v, self.which = v, which
        self.n = v.size("N", 4, conc=conc_n)
        self.d = v.size("D", 2, conc=(2, 4))
        self.s = v.int("s", 0, self.d)
        self.X = v.data("X", (self.n, self.d)) if which != "SHAP" else v.data("X", (self.n, self.d), style="normal")
        self.f = v.model("f", self.d)
        self.J = self.f.jac
        self.E = None
        self.cent = v.one_of("centering of fit", CENT)
        self.kw = {}
        self.fitkw = {}
        self.own = None
        given = v.one_of("axis limits", [True, False])
        lims = np.array([self.X.min(axis=0) - 1.0, self.X.max(axis=0) + 0.5]) if given else None
        if which in ("ALE", "RHALE"):
            self.fitkw["binning_method"], self.own = binning(v)
        if which == "ALE":
            self.r = RegionalALE(self.X, self.f, nof_instances="all", axis_limits=lims)
        elif which == "RHALE":
            source = v.one_of("effects", ["jacobian", "given", "both", "numeric"])
            if source == "numeric":
                self.J = None
                self.r = RegionalRHALE(self.X, self.f, nof_instances="all", axis_limits=lims)
                self.E = self.r.instance_effects
            elif source == "jacobian":
                self.E = self.J(self.X)
                self.r = RegionalRHALE(self.X, self.f, self.J, nof_instances="all", axis_limits=lims)
            else:
                self.E = v.array("E", (self.n, self.d), style="normal")
                self.J = self.J if source == "both" else None
                self.r = RegionalRHALE(self.X, self.f, self.J, instance_effects=self.E, nof_instances="all", axis_limits=lims)
        elif which == "PDP":
            self.r = RegionalPDP(self.X, self.f, nof_instances="all", axis_limits=lims)
        elif which == "d-PDP":
            self.J = v.one_of("jacobian", [self.J, None])
            self.r = RegionalDerPDP(self.X, self.f, self.J, nof_instances="all", axis_limits=lims)
        else:
            self.r = RegionalShapDP(self.X, self.f, nof_instances="all", axis_limits=lims)
        self.pts = 30
        if which in ("PDP", "d-PDP", "SHAP"):
            self.pts = v.one_of("points for centering", [30, 100, 7])
            self.fitkw["points_for_centering"] = self.pts
        if which in ("PDP", "d-PDP") and v.one_of("vectorized", [True, False]):
            self.fitkw["use_vectorized"] = v.one_of("use vectorized", [True, False])
        self.lims = np.array([self.X.min(axis=0), self.X.max(axis=0)]) if lims is None else lims
        self.min_points = v.int("min points", 2 if which != "SHAP" else 8, 9)
        self.types = ["cat" if len(np.unique(self.X[:, q])) < 10 else "cont" for q in range(self.d)]

    def fit(self, depth=None):
        v = self.v
        depth = v.int("depth", 1, self.d) if depth is None else depth
        self.k = v.int("positions", 1, 5)
        self.r.fit(self.s, max_depth=depth, heter_pcg_drop_thres=-1e30, heter_small_enough=-1.0, nof_candidate_splits_for_numerical=self.k,
                   min_points_per_subregion=self.min_points, split_categorical_features=True, centering=self.cent, **self.fitkw)
        return self.r.tree_full["feature_" + str(self.s)]

    def global_effect(self, x, e):
        """the global method on those instances"""
        if self.which == "ALE":
            return ALE(x, self.f)
        if self.which == "RHALE":
            return RHALE(x, self.f, self.J, data_effect=e)
        if self.which == "PDP":
            return PDP(x, self.f, nof_instances="all")
        if self.which == "d-PDP":
            return DerPDP(x, self.f, self.J, nof_instances="all")
        return ShapDP(x, self.f, nof_instances="all")

    def heter(self, x, e):
        """C22: the heterogeneity of a node"""
        if len(x) < self.min_points:
            return ts.BIG
        lo, hi = x[:, self.s].min(), x[:, self.s].max()
        s = self.s
        try:
            if self.which in ("ALE", "RHALE"):
                g = self.global_effect(x, e)
                g.fit(s, binning_method=self.own, centering=self.cent)
                return g.eval(feature=s, xs=np.array([hi]), heterogeneity=True)[1][0]
            xs = np.linspace(lo, hi, 10)
            if self.which == "PDP":
                g = PDP(x, self.f, axis_limits=self.lims, nof_instances="all")
            elif self.which == "d-PDP":
                g = DerPDP(x, self.f, self.J, axis_limits=self.lims, nof_instances="all")
            else:
                g = ShapDP(x, self.f, nof_instances="all")
            g.fit(s, centering=self.cent, points_for_centering=self.pts)
            return np.mean(g.eval(feature=s, xs=xs, heterogeneity=True, centering=self.cent)[1])
        except Exception:       # noqa
            if self.which == "SHAP":
                raise
            return ts.BIG


def objective(v, which, **kw):
    c = Case(v, which, **kw)
    tree = c.fit()
    v.assume(tree is not None)
    for n in tree.nodes:
        h = c.heter(n.data["data"], n.data["data_effect"])
        v.close("heterogeneity of a node: the global method's on its instances", float(n.heterogeneity), float(h), rtol=1e-6, atol=1e-8)
    ts.check_search(v, tree, c.X, c.E, [q for q in range(c.d) if q != c.s], c.types, c.k, c.heter, None, c.min_points)
    v.unchanged()


@scenario("C22", sym=False, n=40)
def ale_objective(v):
    objective(v, "ALE")


@scenario("C22", sym=False, n=40)
def rhale_objective(v):
    objective(v, "RHALE")


@scenario("C22", sym=False, n=40)
def pdp_objective(v):
    objective(v, "PDP")


@scenario("C22", sym=False, n=40)
def derpdp_objective(v):
    objective(v, "d-PDP")


@scenario("C22", sym=False, n=3)
def shap_objective(v):
    objective(v, "SHAP", conc_n=(16, 22))


def check_eval(v, which, **kw):
    c = Case(v, which, **kw)
    c.fit()
    tree = c.r.tree_pruned["feature_" + str(c.s)]
    v.assume(tree is not None)
    for n in tree.nodes:
        x, e = n.data["data"], n.data["data_effect"]
        if len(x) < c.min_points or x[:, c.s].min() == x[:, c.s].max():
            continue
        for cent in v.one_of("centering", [[False, True], ["zero_start", False], ["zero_integral"]]):
            xs = np.linspace(x[:, c.s].min(), x[:, c.s].max(), v.int("points", 1, 8))
            g = c.global_effect(x, e)
            if c.own is not None:
                if v.raises(lambda: g.fit(c.s, binning_method=c.own, centering=cent)):
                    continue
            y, h = g.eval(c.s, xs, True, cent)
            y2, h2 = c.r.eval(c.s, n.idx, xs, True, cent)
            v.close("curve", y2, y, rtol=1e-7, atol=1e-9)
            v.close("heterogeneity", h2, h, rtol=1e-7, atol=1e-9)
            v.close("curve without the heterogeneity", c.r.eval(c.s, n.idx, xs, False, cent), y, rtol=1e-7, atol=1e-9)
            v.close("default: no centering, no heterogeneity", c.r.eval(c.s, n.idx, xs), c.r.eval(c.s, n.idx, xs, False, False), rtol=1e-7, atol=1e-9)
    v.unchanged()


@scenario("C23", sym=False, n=50)
def ale_region(v):
    check_eval(v, "ALE")


@scenario("C23", sym=False, n=50)
def rhale_region(v):
    check_eval(v, "RHALE")


@scenario("C23", sym=False, n=50)
def pdp_region(v):
    check_eval(v, "PDP")


@scenario("C23", sym=False, n=50)
def derpdp_region(v):
    check_eval(v, "d-PDP")


@scenario("C23", sym=False, n=2)
def shap_region(v):
    check_eval(v, "SHAP", conc_n=(16, 22))
