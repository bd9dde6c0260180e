"""C07 (heterogeneity curve), C09, C10: ALE and RHALE curves."""
import numpy as np
from vapi import scenario
import spec
from effector.global_effect_ale import ALE, RHALE
import effector.binning_methods as bm
import effector.utils as utils


@scenario("C09", budget=200)
def accumulated(v):
    """utils.compute_accumulated_effect against its contract"""
    k = v.size("K", 1)
    t = v.size("T", 1)
    L = v.array("limits", (k + 1,))
    v.assume_increasing(L)
    be = v.array("bin_effect", (k,))
    x = v.array("xs", (t,))
    r = utils.compute_accumulated_effect(x, L, be, L[1:] - L[:k])
    v.equal("accumulated effect", r, spec.accumulated(x, L, be))
    v.unchanged()


CURVE = ("find_limits", "compute_local_effects", "compute_ale_params", "compute_accumulated_effect")


def fixed(v):
    return bm.Fixed(nof_bins=v.size("nof_bins", 1, conc=(1, 7)), min_points_per_bin=v.int("min_points", 0, 2), cat_limit=v.int("cat_limit", 1, 5))


def fitted(v, centering, lims=True):
    """an ALE or RHALE object fitted on feature s with the given centering"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    f = v.model("f", d)
    al = v.array("axis_limits", (2, d)) if lims else None
    if lims:
        v.assume(al[0, s] < al[1, s])
        v.assume(np.all(X[:, s] >= al[0, s]))
        v.assume(np.all(X[:, s] <= al[1, s]))
    if v.one_of("method", ["ALE", "RHALE"]) == "ALE":
        e = ALE(X, f, axis_limits=al)
    else:
        e = RHALE(X, f, v.jac("J", d), axis_limits=al)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    if v.raises(lambda: e.fit(features=s, binning_method=fixed(v), centering=centering)):
        v.stop()
    return e, s


def points(v, e, s):
    t = v.size("T", 1)
    return v.array("xs", (t,))


@scenario("C09", uses=CURVE, budget=200)
def curve(v):
    """ALE and RHALE eval: the accumulated bin effects"""
    e, s = fitted(v, False)
    xs = points(v, e, s)
    fe = e.feature_effect["feature_" + str(s)]
    L = fe["limits"]
    be = fe["bin_effect"]
    y = e.eval(feature=s, xs=xs, centering=False)
    v.equal("uncentred curve", y, spec.accumulated(xs, L, be))
    v.equal("uncentred curve, with heterogeneity", e.eval(feature=s, xs=xs, heterogeneity=True, centering=False)[0], spec.accumulated(xs, L, be))
    v.unchanged()


@scenario("C07", uses=CURVE, budget=200)
def heterogeneity(v):
    """the heterogeneity of the curve accumulates the bin standard deviations"""
    e, s = fitted(v, False)
    xs = points(v, e, s)
    fe = e.feature_effect["feature_" + str(s)]
    h = e.eval(feature=s, xs=xs, heterogeneity=True, centering=False)[1]
    v.equal("heterogeneity", h, spec.accumulated(xs, fe["limits"], np.sqrt(fe["bin_variance"])))
    v.unchanged()


@scenario("C10", uses=CURVE, budget=200)
def centred_at_fit(v):
    """centering requested at fit time"""
    c = v.one_of("centering", [True, "zero_integral", "zero_start"])
    e, s = fitted(v, c)
    check_centering(v, e, s, c)


@scenario("C10", uses=CURVE, budget=200)
def centred_at_eval(v):
    """fitted without centering, centred by eval"""
    c = v.one_of("centering", [True, "zero_integral", "zero_start"])
    e, s = fitted(v, False, lims=False)
    check_centering(v, e, s, c)


def check_centering(v, e, s, c):
    xs = points(v, e, s)
    a, b = e.axis_limits[0, s], e.axis_limits[1, s]
    y, h = e.eval(feature=s, xs=xs, heterogeneity=True, centering=c)
    u, g = e.eval(feature=s, xs=xs, heterogeneity=True, centering=False)
    if c == "zero_start":
        z = e.eval(feature=s, xs=np.array([a]), centering=False)[0]
    else:
        p = np.linspace(a, b, 100)
        z = np.mean(e.eval(feature=s, xs=(p[:-1] + p[1:]) / 2, centering=False))
    v.equal("one constant is subtracted", y, u - z)
    v.equal("without heterogeneity the same curve", e.eval(feature=s, xs=xs, centering=c), y)
    v.equal("heterogeneity is not affected", h, g)
    v.unchanged()
