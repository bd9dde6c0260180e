"""C11: fixed-size and categorical bins."""
import numpy as np
from vapi import scenario
import spec
import effector.binning_methods as bm
from effector.global_effect_ale import ALE, RHALE


def binning_input(v, lims=True):
    n = v.size("N", 1, conc=(1, 40))
    d = v.size("D", 1, conc=(1, 3))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    al = v.array("axis_limits", (2, d))
    v.assume(al[0, s] < al[1, s])
    v.assume(np.all(X[:, s] >= al[0, s]))
    v.assume(np.all(X[:, s] <= al[1, s]))
    return X, s, al


def minimum(v):
    return v.one_of("has_minimum", [None, v.int("min_points", 0, 12)])


@scenario("C11", budget=200)
def fixed_bins(v):
    X, s, al = binning_input(v)
    m = minimum(v)
    k = v.size("nof_bins", 1, conc=(1, 8))
    c = v.int("cat_limit", 0, 8)
    v.assume(len(np.unique(X[:, s])) > c)
    L = bm.find_limits(X, None, s, al, bm.Fixed(nof_bins=k, min_points_per_bin=m, cat_limit=c)).limits
    x = X[:, s]
    G = spec.grid(al[0, s], al[1, s], k + 1)
    bad = len(np.unique(x)) == 1
    if m is not None:
        bad = np.logical_or(bad, np.logical_or(len(x) < m, np.any(np.array([spec.held(x, G[i], G[i + 1]) < m for i in range(k)]))))
    if L is False:
        v.holds("limits are refused only for a bin with too few instances or a constant feature", bad)
    else:
        v.holds("no bin has too few instances", np.logical_not(bad))
        v.equal("equal-width bins that span the axis limits", L, G)
    v.unchanged()


@scenario("C11", budget=200)
def categorical_bins(v):
    X, s, al = binning_input(v)
    m = minimum(v)
    k = v.size("nof_bins", 1, conc=(1, 8))
    c = v.int("cat_limit", 1, conc=(1, 8))
    x = X[:, s]
    u = np.unique(x)
    v.assume(len(u) <= c)
    v.assume(len(u) > 1)
    L = bm.find_limits(X, None, s, al, bm.Fixed(nof_bins=k, min_points_per_bin=m, cat_limit=c)).limits
    C = spec.category_limits(u)
    bad = False
    if m is not None:
        bad = np.logical_or(len(x) < m, np.any(np.array([spec.held(x, C[i], C[i + 1]) < m for i in range(len(u))])))
    if L is False:
        v.holds("limits are refused only for a bin with too few instances", bad)
    else:
        v.holds("no bin has too few instances", np.logical_not(bad))
        v.equal("one bin per value, limits at the midpoints", L, C)
        v.holds("the limits increase", np.all(L[1:] > L[:-1]))
        v.holds("each value is strictly inside its bin", np.all(np.logical_and(L[:-1] < u, u < L[1:])))
        v.holds("the bins cover the data", np.logical_and(np.all(x >= L[0]), np.all(x <= L[-1])))
    v.unchanged()


@scenario("C11", uses=("compute_local_effects", "compute_ale_params"), budget=200)
def fit_refuses(v):
    """fitting fails exactly when no bins exist"""
    X, s, al = binning_input(v)
    n, d = X.shape
    f = v.model("f", d)
    k = v.size("nof_bins", 1, conc=(1, 5))
    m = v.int("min_points", 0, 8)
    x = X[:, s]
    u = np.unique(x)
    v.assume(len(u) > 3)
    if v.one_of("method", ["ALE", "RHALE"]) == "ALE":
        e = ALE(X, f, axis_limits=al)
    else:
        e = RHALE(X, f, v.jac("J", d), axis_limits=al)
    G = spec.grid(al[0, s], al[1, s], k + 1)
    # bins with a single instance each leave no variance to report: not considered here
    v.assume(np.any(np.array([spec.held(x, G[i], G[i + 1]) >= 4 for i in range(k)])))
    bad = np.logical_or(len(x) < m, np.any(np.array([spec.held(x, G[i], G[i + 1]) < m for i in range(k)])))
    if v.raises(lambda: e.fit(features=s, binning_method=bm.Fixed(nof_bins=k, min_points_per_bin=m, cat_limit=3))):
        v.holds("fitting fails only if some bin has too few instances", bad)
    else:
        v.holds("fitting fails if some bin has too few instances", np.logical_not(bad))
    v.unchanged()
