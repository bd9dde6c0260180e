"""C14: the binning configuration, C15: no dependence on the call history."""
import numpy as np
from vapi import scenario
import spec
import effector.binning_methods as bm
import effector.bin_splitting as be
from effector.global_effect_ale import ALE, RHALE
from effector.global_effect_pdp import PDP, DerPDP
from effector.global_effect_shap import ShapDP


def any_method(v, kind):
    """a binning method with its own settings, or a name"""
    m = v.int("min_points", 0, 4)
    c = v.int("cat_limit", 0, 8)
    k = v.size("bins", 1, conc=(1, 12))
    disc = v.real("discount", 0.0, 1.0)
    fx = bm.Fixed(nof_bins=k, min_points_per_bin=m, cat_limit=c)
    if kind == "ALE":
        return v.one_of("method", [fx, "fixed"])
    return v.one_of("method", [fx, "fixed", bm.Greedy(init_nof_bins=k, min_points_per_bin=m, discount=disc, cat_limit=c), "greedy",
                               bm.DynamicProgramming(max_nof_bins=k, min_points_per_bin=m, discount=disc, cat_limit=c), "dp"])


def limits_of(method, X, D, s, al):
    """the bins a method, or what its name stands for, finds with exactly its own settings"""
    if isinstance(method, str):
        method = {"fixed": bm.Fixed(nof_bins=20, min_points_per_bin=0, cat_limit=15),
                  "greedy": bm.Greedy(init_nof_bins=100, min_points_per_bin=0, discount=0.3, cat_limit=15),
                  "dp": bm.DynamicProgramming(max_nof_bins=20, min_points_per_bin=0, discount=0.3, cat_limit=15)}[method]
    common = {"min_points": method.min_points_per_bin, "cat_limit": method.cat_limit}
    if isinstance(method, bm.Fixed):
        return be.Fixed(X, D, feature=s, axis_limits=al).find(nof_bins=method.nof_bins, **common)
    if isinstance(method, bm.Greedy):
        return be.Greedy(X, D, feature=s, axis_limits=al).find(init_nof_bins=method.max_nof_bins, discount=method.discount, **common)
    return be.DP(X, D, feature=s, axis_limits=al).find(max_nof_bins=method.max_nof_bins, discount=method.discount, **common)


@scenario("C14", sym=False, n=500)
def configuration(v):
    n = v.size("N", 2, conc=(2, 60))
    d = v.size("D", 1, conc=(1, 3))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    f = v.model("f", d)
    kind = v.one_of("kind", ["ALE", "RHALE"])
    method = any_method(v, kind)
    if kind == "ALE":
        e = ALE(X, f)
        D = None
    else:
        e = RHALE(X, f, data_effect=E)
        D = E
    al = e.axis_limits
    v.assume(al[0, s] < al[1, s])
    cents = [False, True, "zero_integral", "zero_start"]
    c1 = v.one_of("fit centering", cents)
    c2 = v.one_of("eval centering", cents)
    if v.one_of("first", ["fit", "eval"]) == "fit":
        want = limits_of(method, X, D, s, al)
        v.assume(want is not False)
        if v.raises(lambda: e.fit(features=s, binning_method=method, centering=c1)):
            v.holds("a fit with bins that hold enough points", all(np.sum(spec.in_bin(X[:, s], want, k)) <= 1 for k in range(len(want) - 1)))
            v.stop()
    else:
        want = limits_of("fixed" if kind == "ALE" else "greedy", X, D, s, al)
        v.assume(want is not False)
        if v.raises(lambda: e.eval(feature=s, xs=al[:, s], centering=c1)):
            v.stop()
    key = "feature_" + str(s)
    v.close("bins of the method given", e.feature_effect[key]["limits"], want, rtol=1e-7, atol=2e-8)
    e.eval(feature=s, xs=al[:, s], centering=c2, heterogeneity=True)
    v.close("bins kept by eval", e.feature_effect[key]["limits"], want, rtol=1e-7, atol=2e-8)
    e.plot(feature=s, centering=v.one_of("plot centering", cents), heterogeneity=v.one_of("het", [True, False]))
    v.close("bins kept by plot", e.feature_effect[key]["limits"], want, rtol=1e-7, atol=2e-8)
    v.unchanged()


@scenario("C14", sym=False, n=1500)
def settings(v):
    """every setting reaches the method"""
    n = v.size("N", 2, conc=(2, 40))
    d = v.size("D", 1, conc=(1, 3))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    if v.one_of("few values", [True, False]):
        X = np.floor(X * v.one_of("coarse", [1.0, 4.0, 0.5]))
    E = v.array("E", (n, d))
    method = any_method(v, "RHALE")
    al = np.array([X.min(axis=0), X.max(axis=0) + v.one_of("wider", [0.0, 0.5])])
    v.assume(al[0, s] < al[1, s])
    got = bm.find_limits(X, E, s, al, method).limits
    want = limits_of(method, X, E, s, al)
    v.equal("no bins", got is False, want is False)
    if want is not False:
        v.close("bins", got, want, rtol=1e-7, atol=1e-8)
    v.unchanged()


FINDERS = ("fixed_find", "greedy_find", "dp_find")
BINS = FINDERS + ("compute_local_effects", "compute_ale_params", "compute_accumulated_effect")


@scenario("C14", uses=FINDERS, conc=False)
def settings_passed(v):
    """every setting of every method, and what the names stand for"""
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    al = v.array("axis_limits", (2, d))
    method = any_method(v, "RHALE")
    v.equal("the bins of the method", bm.find_limits(X, E, s, al, method).limits, limits_of(method, X, E, s, al))
    v.unchanged()


def same_bins(v, name, got, want):
    """the bins wanted, up to the nudge of the last limit"""
    k = want.shape[0] - 1
    v.equal(name + ": number", got.shape[0], k + 1)
    v.equal(name, got[:k], want[:k])
    v.holds(name + ": last limit", np.logical_or(got[k] == want[k], got[k] == want[k] + 1e-8))


def kept(v, kind, first, then):
    n = v.size("N", 2)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.array("E", (n, d))
    f = v.model("f", d)
    if kind == "ALE":
        e = ALE(X, f)
        D = None
    else:
        e = RHALE(X, f, data_effect=E)
        D = E
    al = e.axis_limits
    v.assume(al[0, s] < al[1, s])
    c2 = v.one_of("eval centering", [False, True, "zero_start"])
    if first == "fit":
        method = any_method(v, kind)
        want = limits_of(method, X, D, s, al)
        v.assume(want is not False)
        e.fit(features=s, binning_method=method, centering=v.one_of("fit centering", [False, "zero_integral", "zero_start"]))
    else:
        want = limits_of("fixed" if kind == "ALE" else "greedy", X, D, s, al)
        v.assume(want is not False)
    key = "feature_" + str(s)
    if then == "eval":
        e.eval(feature=s, xs=al[:, s], centering=c2, heterogeneity=True)
    else:
        e.plot(feature=s, centering=c2, heterogeneity=True)
    same_bins(v, "bins of the method given", e.feature_effect[key]["limits"], want)
    v.unchanged()


@scenario("C14", uses=BINS, conc=False, budget=200)
def ale_bins_kept_by_eval(v):
    kept(v, "ALE", "fit", "eval")


@scenario("C14", uses=BINS, conc=False, budget=200)
def ale_bins_kept_by_plot(v):
    kept(v, "ALE", "fit", "plot")


@scenario("C14", uses=BINS, conc=False, budget=200)
def rhale_bins_kept_by_eval(v):
    kept(v, "RHALE", "fit", "eval")


@scenario("C14", uses=BINS, conc=False, budget=200)
def rhale_bins_kept_by_plot(v):
    kept(v, "RHALE", "fit", "plot")


@scenario("C14", uses=BINS, conc=False, budget=200)
def default_bins(v):
    kept(v, v.one_of("kind", ["ALE", "RHALE"]), "eval", v.one_of("then", ["eval", "plot"]))


KINDS = ["PDP", "d-PDP", "ALE", "RHALE"]


def make(kind, X, f, J, E):
    if kind == "PDP":
        return PDP(X, f, nof_instances="all")
    if kind == "d-PDP":
        return DerPDP(X, f, J, nof_instances="all")
    if kind == "ALE":
        return ALE(X, f)
    if kind == "RHALE":
        return RHALE(X, f, J)
    return ShapDP(X, f, nof_instances="all")


def fit_args(v, kind):
    """arguments of an explicit fit"""
    cents = [False, True, "zero_integral", "zero_start"]
    a = {"centering": v.one_of("fit centering", cents)}
    if kind in ["ALE", "RHALE"]:
        a["binning_method"] = bm.Fixed(nof_bins=v.size("bins", 1, conc=(1, 9)), min_points_per_bin=0, cat_limit=3)
    else:
        a["points_for_centering"] = v.size("K", 2, conc=(2, 40))
    return a


def noise(v, e, kind, d, X, f, J):
    """calls that must not matter: evaluations and plots of any feature"""
    cents = [False, True, "zero_integral", "zero_start"]
    for i in range(v.small("calls", 0, 4)):
        t = v.int("feature", 0, d)
        if e.axis_limits[0, t] == e.axis_limits[1, t]:
            continue
        what = v.one_of("what", ["eval", "eval heterogeneity", "plot"])
        c = v.one_of("centering", cents)
        if what == "plot":
            e.plot(feature=t, centering=c, heterogeneity=v.one_of("het", [True, False]))
        else:
            e.eval(feature=t, xs=v.array("points", (v.size("P", 1, conc=(1, 4)),)), centering=c, heterogeneity=what != "eval")


def history(v, kinds, nmin, style=None):
    n = v.size("N", 2, conc=(nmin, 24))
    d = v.size("D", 1, conc=(1, 3))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d), style=style)
    f = v.model("f", d)
    J = v.jac("J", d)
    kind = v.one_of("kind", kinds)
    e1 = make(kind, X, f, J, None)
    e2 = make(kind, X, f, J, None)
    al = v.copy(e1.axis_limits)
    v.assume(al[0, s] < al[1, s])
    xs = v.array("xs", (v.size("T", 1, conc=(1, 6)),))
    cent = v.one_of("asked centering", [False, True, "zero_integral", "zero_start"])
    het = v.one_of("asked heterogeneity", [True, False])
    bad = None
    explicit = v.one_of("explicit fit", [True, False])

    def run():
        noise(v, e1, kind, d, X, f, J)
        if v.one_of("earlier fit", [True, False]) and explicit:
            e1.fit(features=s, **fit_args(v, kind))
            noise(v, e1, kind, d, X, f, J)
        if explicit:
            a = fit_args(v, kind)
            e1.fit(features=s, **a)
            e2.fit(features=s, **a)
        noise(v, e1, kind, d, X, f, J)
        if v.one_of("other feature fitted", [True, False]):
            t = v.int("other", 0, d)
            if t != s and al[0, t] < al[1, t]:
                e1.fit(features=t, **fit_args(v, kind))
        noise(v, e1, kind, d, X, f, J)
        return e2.eval(feature=s, xs=xs, centering=cent, heterogeneity=het)
    r = []
    if v.raises(lambda: r.append(run())):
        v.stop()            # some feature cannot be fitted at all
    v.equal("the same as without the other calls", e1.eval(feature=s, xs=xs, centering=cent, heterogeneity=het), r[0], rtol=1e-9)
    v.equal("and again", e1.eval(feature=s, xs=xs, centering=cent, heterogeneity=het), r[0], rtol=1e-9)
    v.same("the data of the object", e1.data, X)
    v.same("the axis limits of the object", e1.axis_limits, al)
    v.unchanged()


@scenario("C15", sym=False, n=260)
def no_history(v):
    history(v, KINDS, 2)


@scenario("C15", sym=False, n=12)
def no_history_shap(v):
    history(v, ["SHAP"], 8, style="normal")
