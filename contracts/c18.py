"""C18: SHAP dependence."""
import numpy as np
import shap
from scipy.interpolate import UnivariateSpline
from vapi import scenario
import spec
from effector.global_effect_shap import ShapDP


def pairs(f, U, s):
    """(feature value, SHAP value of the feature) of the instances, in increasing order"""
    phi = shap.Explainer(f, U)(U).values[:, s]
    o = np.argsort(U[:, s])
    return U[o, s], phi[o]


def shap_input(v):
    n = v.size("N", 5, conc=(8, 14))
    d = v.size("D", 1, conc=(1, 3))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d), style="normal")
    al = v.array("axis_limits", (2, d))
    lims = v.one_of("limits", ["default", "given"])
    if not v.symbolic:
        al[0, :] = X.min(axis=0) - v.one_of("low", [0.5, 0.0, -0.2])
        al[1, :] = X.max(axis=0) + v.one_of("high", [0.5, 0.0, -0.2])
        v.freeze("axis_limits")
    v.assume(al[0, s] < al[1, s])
    f = v.model("f", d)
    e = ShapDP(X, f, axis_limits=al if lims == "given" else None, nof_instances=v.one_of("nof_instances", ["all", n]))
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    U = spec.inside(X, e.axis_limits, s)
    v.assume(len(U) >= 5)
    return e, f, U, s


@scenario("C18", n=24)
def shap_values(v):
    """uncentred curve and heterogeneity"""
    e, f, U, s = shap_input(v)
    xs = v.array("xs", (v.size("T", 1),))
    xx, yy = pairs(f, U, s)
    m = UnivariateSpline(xx, yy)
    r = UnivariateSpline(xx, np.abs(yy - m(xx)))
    if v.one_of("fit", [True, False]):
        e.fit(features=s, centering=v.one_of("centering", [False, True, "zero_start"]))
    v.equal("curve", e.eval(feature=s, xs=xs, centering=False), m(xs))
    y, h = e.eval(feature=s, xs=xs, heterogeneity=True, centering=False)
    v.equal("curve, with heterogeneity", y, m(xs))
    v.equal("heterogeneity", h, r(xs))
    v.unchanged()


@scenario("C18", n=24)
def shap_centering(v):
    e, f, U, s = shap_input(v)
    xs = v.array("xs", (v.size("T", 1),))
    k = v.size("K", 2, conc=(2, 40))
    c = v.one_of("centering", [True, "zero_integral", "zero_start"])
    xx, yy = pairs(f, U, s)
    m = UnivariateSpline(xx, yy)
    r = UnivariateSpline(xx, np.abs(yy - m(xx)))
    if v.one_of("fit", [True, False]):
        e.fit(features=s, centering=v.one_of("fit centering", [False, True, "zero_start"]), points_for_centering=k)
    else:
        k = 100
    if c == "zero_start":
        z = m(xx[0])
    else:
        p = np.linspace(xx[0], xx[-1], k)
        q = m(p)
        z = np.sum((q[1:] + q[:-1]) / 2 * (p[1:] - p[:-1])) / (xx[-1] - xx[0])
    y, h = e.eval(feature=s, xs=xs, heterogeneity=True, centering=c)
    v.equal("centred curve", y, m(xs) - z)
    v.equal("without heterogeneity", e.eval(feature=s, xs=xs, centering=c), m(xs) - z)
    v.equal("heterogeneity is not affected", h, r(xs))
    v.unchanged()
