"""C05-C08: bin effects, variances and the filling of sparse bins."""
import numpy as np
from vapi import scenario
import spec
from effector.global_effect_ale import ALE, RHALE
import effector.binning_methods as bm
import effector.utils as utils


def fixed(v):
    return bm.Fixed(nof_bins=v.size("nof_bins", 1, conc=(1, 7)), min_points_per_bin=v.int("min_points", 0, 2), cat_limit=v.int("cat_limit", 1, 5))


def check_ale(v, e, f, U, s):
    fe = e.feature_effect["feature_" + str(s)]
    L = fe["limits"]
    k = v.int("k", 0, L.shape[0] - 1)
    x = U[:, s]
    c = spec.bin_count(x, L, k)
    v.equal("number of bins", fe["bin_effect"].shape[0], L.shape[0] - 1)
    v.equal("number of instances", fe["points_per_bin"][k], c)
    v.equal("width", fe["dx"][k], L[k + 1] - L[k])
    v.assume(c > 0)
    v.equal("bin effect", fe["bin_effect"][k], np.mean(spec.ale_bin(f, U, s, L, k)))
    v.unchanged()


@scenario("C05", uses=("find_limits", "fill_nans", "compute_bin_variance"), budget=200)
def ale_bins(v):
    """any bins the binning step may return, user axis limits"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    lims = v.array("axis_limits", (2, d))
    f = v.model("f", d)
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 1)
    v.assume(len(np.unique(U[:, s])) > 1)
    e = ALE(X, f, axis_limits=lims)
    if v.raises(lambda: e.fit(features=s, binning_method=fixed(v), centering=False)):
        v.stop()
    check_ale(v, e, f, U, s)


@scenario("C05", uses=("find_limits", "fill_nans", "compute_bin_variance"), budget=200)
def ale_bins_integer_data(v):
    """integer data, axis limits from the data"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.array("X", (n, d), "i")
    f = v.model("f", d)
    e = ALE(X, f)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    if v.raises(lambda: e.fit(features=s, binning_method=fixed(v), centering=False)):
        v.stop()
    check_ale(v, e, f, X, s)


# ------------------------------------------------------------------ RHALE
def methods(v):
    if v.symbolic:
        return "greedy"      # find_limits is used through its contract: any method
    mp = v.int("min_points", 0, 3)
    return v.one_of("method", ["greedy", "dp", "fixed", fixed(v), bm.Greedy(init_nof_bins=v.size("gbins", 1, conc=(1, 12)), min_points_per_bin=mp, cat_limit=2),
                               bm.DynamicProgramming(max_nof_bins=v.size("dpbins", 1, conc=(1, 5)), min_points_per_bin=mp, cat_limit=2)])


def check_rhale(v, e, U, E, s):
    """E: the effects of feature s of the rows of U"""
    fe = e.feature_effect["feature_" + str(s)]
    L = fe["limits"]
    k = v.int("k", 0, L.shape[0] - 1)
    x = U[:, s]
    c = spec.bin_count(x, L, k)
    v.equal("number of bins", fe["bin_effect"].shape[0], L.shape[0] - 1)
    v.equal("number of instances", fe["points_per_bin"][k], c)
    v.equal("width", fe["dx"][k], L[k + 1] - L[k])
    v.assume(c > 0)
    v.equal("bin effect", fe["bin_effect"][k], np.mean(E[spec.in_bin(x, L, k)]))
    v.unchanged()


@scenario("C06", uses=("find_limits", "fill_nans", "compute_bin_variance"), budget=200)
def rhale_user_effects(v):
    """the user's instance effects, user axis limits"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.array("data_effect", (n, d))
    lims = v.array("axis_limits", (2, d))
    f = v.model("f", d)
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 1)
    v.assume(len(np.unique(U[:, s])) > 1)
    e = RHALE(X, f, v.jac("J", d), axis_limits=lims, data_effect=E)
    if v.raises(lambda: e.fit(features=s, binning_method=methods(v), centering=False)):
        v.stop()
    check_rhale(v, e, U, spec.inside_of(E, X, lims, s)[:, s], s)


@scenario("C06", uses=("find_limits", "fill_nans", "compute_bin_variance"), budget=200)
def rhale_jacobian(v):
    """the user's jacobian at the data, axis limits from the data"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    e = RHALE(X, f, J)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    if v.raises(lambda: e.fit(features=s, binning_method=methods(v), centering=False)):
        v.stop()
    check_rhale(v, e, X, J(X)[:, s], s)


@scenario("C06", uses=("find_limits", "fill_nans", "compute_bin_variance"), budget=200)
def rhale_numerical(v):
    """no jacobian: forward differences, integer data"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.array("X", (n, d), "i")
    f = v.model("f", d)
    e = RHALE(X, f)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    if v.raises(lambda: e.fit(features=s, binning_method=methods(v), centering=False)):
        v.stop()
    check_rhale(v, e, X, spec.forward(f, X, s), s)


# --------------------------------------------------------------- variances
def check_var(v, e, U, E, s):
    fe = e.feature_effect["feature_" + str(s)]
    L = fe["limits"]
    k = v.int("k", 0, L.shape[0] - 1)
    x = U[:, s]
    c = spec.bin_count(x, L, k)
    v.assume(c > 1)
    I = E[spec.in_bin(x, L, k)]
    var = np.mean((I - np.mean(I)) ** 2)
    v.equal("bin variance", fe["bin_variance"][k], var)
    v.equal("variance of the estimate", fe["bin_estimator_variance"][k], var / c)
    v.unchanged()


@scenario("C07", uses=("find_limits", "fill_nans"), budget=250)
def rhale_variance(v):
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.array("data_effect", (n, d))
    f = v.model("f", d)
    e = RHALE(X, f, data_effect=E)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    if v.raises(lambda: e.fit(features=s, binning_method=methods(v), centering=False)):
        v.stop()
    check_var(v, e, X, E[:, s], s)


@scenario("C07", uses=("find_limits", "fill_nans", "compute_local_effects"), budget=250)
def ale_variance(v):
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    f = v.model("f", d)
    e = ALE(X, f)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    if v.raises(lambda: e.fit(features=s, binning_method=fixed(v), centering=False)):
        v.stop()
    L = e.feature_effect["feature_" + str(s)]["limits"]
    check_var(v, e, X, spec.local_effects(f, X, s, L), s)


@scenario("C05", budget=200)
def local_effects(v):
    """utils.compute_local_effects against its contract"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    k = v.size("K", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    L = v.array("limits", (k + 1,))
    v.assume_increasing(L)
    v.assume(np.all(X[:, s] >= L[0]))
    v.assume(np.all(X[:, s] <= L[k]))
    f = v.model("f", d)
    L0 = np.array(L)
    M = np.array(L)
    r = utils.compute_local_effects(X, f, M, s)
    v.equal("inner limits kept", M[:k], L0[:k])
    v.equal("last limit nudged", M[k], L0[k] + 1e-8)
    v.equal("local effects", r, spec.local_effects(f, X, s, M))
    v.unchanged()
