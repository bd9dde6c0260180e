"""C08: bins without a value are filled by interpolation over bin index."""
import numpy as np
from vapi import scenario
import spec
import effector.utils as utils
from effector.global_effect_ale import ALE, RHALE
import effector.binning_methods as bm


def holes(v, k):
    """an array of K values of which some are undefined"""
    x = v.array("values", (k,))
    m = v.array("undefined", (k,), "b")
    return x, m, np.where(m, np.nan, x)


@scenario("C08")
def fill_keeps(v):
    """defined values are kept, the argument is not written"""
    k = v.size("K", 1)
    x, m, y = holes(v, k)
    v.assume(np.any(np.logical_not(m)))
    r = utils.fill_nans(y)
    j = v.int("j", 0, k)
    v.equal("length", r.shape[0], k)
    v.holds("no undefined value is left", np.logical_not(np.isnan(r[j])))
    v.equal("argument unchanged", y, np.where(m, np.nan, x))
    v.assume(np.logical_not(m[j]))
    v.equal("defined values kept", r[j], x[j])
    v.unchanged()


@scenario("C08")
def fill_between(v):
    """an undefined bin between its nearest defined bins a < j < b"""
    k = v.size("K", 3)
    x, m, y = holes(v, k)
    a = v.int("a", 0, k)
    b = v.int("b", 0, k)
    j = v.int("j", 0, k)
    v.assume(a < j)
    v.assume(j < b)
    v.assume(np.logical_not(m[a]))
    v.assume(np.logical_not(m[b]))
    v.assume(np.all(m[a + 1:b]))
    r = utils.fill_nans(y)
    v.equal("linear interpolation over bin index", r[j], x[a] + (x[b] - x[a]) * (j - a) / (b - a))


@scenario("C08")
def fill_edges(v):
    """undefined bins before the first and after the last defined bin"""
    k = v.size("K", 2)
    x, m, y = holes(v, k)
    b = v.int("b", 0, k)
    j = v.int("j", 0, k)
    v.assume(np.logical_not(m[b]))
    r = utils.fill_nans(y)
    if v.one_of("side", ["left", "right"]) == "left":
        v.assume(j < b)
        v.assume(np.all(m[:b]))
    else:
        v.assume(j > b)
        v.assume(np.all(m[b + 1:]))
    v.equal("nearest defined value", r[j], x[b])


@scenario("C08")
def params_are_filled(v):
    """compute_ale_params reports the filled effects and variances of its bins"""
    n = v.size("N", 2)
    k = v.size("K", 1)
    x = v.array("xs", (n,))
    E = v.array("effects", (n,))
    L = v.array("limits", (k + 1,))
    v.assume_increasing(L)
    v.assume(np.all(x >= L[0]))
    v.assume(np.all(x <= L[k]))
    eff, cnt = utils.compute_bin_effect(x, E, L)
    var, est = utils.compute_bin_variance(x, E, L, eff)
    v.assume(np.any(np.logical_not(np.isnan(var))))
    p = utils.compute_ale_params(x, E, L)
    v.equal("bin effects are the filled ones", p["bin_effect"], utils.fill_nans(eff))
    v.equal("bin variances are the filled ones", p["bin_variance"], utils.fill_nans(var))
    v.equal("variances of the estimate are the filled ones", p["bin_estimator_variance"], utils.fill_nans(est))
    v.equal("counts", p["points_per_bin"], cnt)
    v.equal("limits", p["limits"], L)
    j = v.int("j", 0, k)
    c = spec.bin_count(x, L, j)
    v.equal("effect undefined exactly for bins without instances", np.isnan(eff[j]), c == 0)
    v.equal("variance undefined exactly for bins with fewer than two", np.isnan(var[j]), c < 2)
    v.equal("variance of the estimate undefined exactly for bins with fewer than two", np.isnan(est[j]), c < 2)
    v.unchanged()


@scenario("C08", sym=False)
def reported_values_are_filled(v):
    """end to end on the API: every bin, effects and variances"""
    n = v.size("N", 2, conc=(3, 14))
    d = v.size("D", 1, conc=(1, 3))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    f = v.model("f", d)
    m = bm.Fixed(v.size("nof_bins", 1, conc=(1, 25)), 0, 1)
    if v.one_of("method", ["ALE", "RHALE"]) == "ALE":
        e = ALE(X, f)
    else:
        e = RHALE(X, f, data_effect=v.array("data_effect", (n, d)))
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    if v.raises(lambda: e.fit(features=s, binning_method=m, centering=False)):
        v.stop()
    fe = e.feature_effect["feature_" + str(s)]
    L = fe["limits"]
    K = L.shape[0] - 1
    c = np.array([spec.bin_count(X[:, s], L, j) for j in range(K)])
    E = e.data_effect[:, s] if e.method_name == "rhale" else spec.local_effects(f, X, s, L)
    I = [E[spec.in_bin(X[:, s], L, j)] for j in range(K)]
    v.equal("bin effects", fe["bin_effect"], spec.filled([np.mean(I[j]) for j in range(K)], c > 0), rtol=1e-4, atol=1e-6)
    if np.any(c > 1):
        var = [np.var(I[j]) for j in range(K)]
        v.equal("bin variances", fe["bin_variance"], spec.filled(var, c > 1), rtol=1e-4, atol=1e-6)
        v.equal("variances of the estimate", fe["bin_estimator_variance"], spec.filled([var[j] / c[j] if c[j] else 0 for j in range(K)], c > 1), rtol=1e-4, atol=1e-6)
