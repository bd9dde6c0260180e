"""C24: what the plots draw."""
import numpy as np
from vapi import scenario
import spec
import effector.binning_methods as bm
from effector.global_effect_ale import ALE, RHALE
from effector.global_effect_pdp import PDP, DerPDP
from effector.global_effect_shap import ShapDP

CURVE = ("find_limits", "compute_local_effects", "compute_ale_params", "compute_accumulated_effect")


def calls(v, what):
    """arguments of the recorded drawing calls of that name"""
    return [(p[2], p[3]) for p in v.plots if p[1] == what]


def labelled(v, label):
    """the line drawn under that label"""
    r = [a for a, k in calls(v, "plot") if "label" in k and k["label"] == label]
    return r[0]


def scales(v):
    """a scale for x and y, or none; and whether to draw the average output"""
    which = v.one_of("scale", ["none", "x", "y", "both"])
    sx = {"mean": v.real("mean x"), "std": v.real("std x", pos=True)} if which in ["x", "both"] else None
    sy = {"mean": v.real("mean y"), "std": v.real("std y", pos=True)} if which in ["y", "both"] else None
    avg = which in ["none", "y"] if v.symbolic else v.one_of("average", [True, False])
    return sx, sy, avg


def affine(x, sc):
    return x if sc is None else x * sc["std"] + sc["mean"]


def linear(x, sc):
    return x if sc is None else x * sc["std"]


def check_average(v, e, shown, sy):
    lines = calls(v, "axhline")
    if shown:
        v.equal("one average line", len(lines), 1)
        a, k = lines[0]
        v.equal("average output", k["y"] if "y" in k else a[0], affine(e.avg_output, sy))
    else:
        v.equal("no average line", len(lines), 0)


CENT = [False, True, "zero_start"]


@scenario("C24", budget=200, n=200)
def pdp_plot(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    lims = v.array("axis_limits", (2, d))
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 0)
    kind = v.one_of("kind", ["PDP", "d-PDP"])
    e = PDP(X, f, axis_limits=lims, nof_instances="all") if kind == "PDP" else DerPDP(X, f, J, axis_limits=lims, nof_instances="all")
    c = v.one_of("centering", CENT)
    het = v.one_of("heterogeneity", [False, True, "std_err", "ice"])
    sx, sy, avg = scales(v)
    k = v.size("points", 2)
    e.plot(feature=s, heterogeneity=het, centering=c, nof_points=k, scale_x=sx, scale_y=sy, show_avg_output=avg)
    g = spec.grid(lims[0, s], lims[1, s], k)
    Y = e.eval(feature=s, xs=g, centering=c, return_all=True)
    y = np.mean(Y, axis=1)
    var = np.mean((Y - y[:, np.newaxis]) ** 2, axis=1)
    gx = affine(g, sx)
    der = kind == "d-PDP"
    Ys = linear(Y, sy) if der else affine(Y, sy)
    ys = linear(y, sy) if der else affine(y, sy)
    a = labelled(v, kind)
    v.equal("grid", a[0], gx)
    v.equal("mean curve", a[1], ys)
    bands = calls(v, "fill_between")
    if het is True or het == "std_err":
        v.equal("one band", len(bands), 1)
        b = bands[0][0]
        v.equal("band grid", b[0], gx)
        half = b[2] - a[1]
        v.holds("band, upper end above the curve", np.all(half >= 0))
        v.close("band, half width squared", half ** 2, linear(linear(var, sy), sy), rtol=1e-6, atol=1e-6)
        v.equal("band, symmetric", b[1], a[1] - half)
    else:
        v.equal("no band", len(bands), 0)
    curves = [a for a, kw in calls(v, "plot") if a[1].ndim == 2]
    if het == "ice":
        v.equal("individual curves, grid", curves[0][0], gx)
        v.equal("individual curves", curves[0][1], Ys)
    else:
        v.equal("no individual curves", len(curves), 0)
    check_average(v, e, avg, sy)
    v.unchanged()


@scenario("C24", sym=False, n=60)
def ice_subset(v):
    """nof_ice: that many of the individual curves, without repetition"""
    n = v.size("N", 1)
    d = v.size("D", 1, conc=(1, 4))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d), style="normal")
    f = v.model("f", d)
    e = PDP(X, f, nof_instances="all")
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    m = v.int("nof_ice", 1, n + 3)
    c = v.one_of("centering", CENT)
    e.plot(feature=s, heterogeneity="ice", centering=c, nof_ice=m, nof_points=5)
    g = spec.grid(e.axis_limits[0, s], e.axis_limits[1, s], 5)
    Y = e.eval(feature=s, xs=g, centering=c, return_all=True)
    D = [a for a, kw in calls(v, "plot") if np.ndim(a[1]) == 2][0][1]
    v.equal("as many as asked for", D.shape, (5, min(m, n)))
    left = [tuple(np.round(q, 9)) for q in Y.T]
    for q in D.T:
        q = tuple(np.round(q, 9))
        v.holds("an individual curve not drawn yet", q in left)
        left.remove(q)
    v.equal("mean of all curves", labelled(v, "PDP")[1], np.mean(Y, axis=1))


@scenario("C24", uses=CURVE, budget=250, n=200)
def ale_plot(v):
    n = v.size("N", 2, conc=(4, 24))
    d = v.size("D", 1, conc=(1, 4))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    f = v.model("f", d)
    J = v.jac("J", d)
    e = ALE(X, f) if v.one_of("kind", ["ALE", "RHALE"]) == "ALE" else RHALE(X, f, J)
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    c = v.one_of("centering", CENT)
    het = v.one_of("heterogeneity", [False, True])
    sx, sy, avg = scales(v)
    m = bm.Fixed(nof_bins=v.size("bins", 1, conc=(1, 7)), min_points_per_bin=0, cat_limit=3)
    if v.raises(lambda: e.fit(features=s, binning_method=m, centering=c)):
        v.stop()
    e.plot(feature=s, heterogeneity=het, centering=c, scale_x=sx, scale_y=sy, show_avg_output=avg)
    p = e.feature_effect["feature_" + str(s)]
    L = p["limits"]
    K = L.shape[0] - 1
    a = labelled(v, "average effect")
    g = spec.grid(L[0], L[K], a[0].shape[0])
    v.equal("grid", a[0], affine(g, sx))
    y = e.eval(feature=s, xs=g, centering=c)
    v.equal("curve", a[1], affine(y, sy))
    bars = calls(v, "bar")
    v.equal("one set of bins", len(bars), 1)
    b, kw = bars[0]
    Lx = affine(L, sx)
    v.equal("bin positions", kw["x"] if "x" in kw else b[0], (Lx[1:] + Lx[:K]) / 2)
    v.equal("bin widths", kw["width"], Lx[1:] - Lx[:K])
    px = 1 if sx is None else sx["std"]
    py = 1 if sy is None else sy["std"]
    v.equal("bin effects", kw["height"] if "height" in kw else b[1], p["bin_effect"] * py / px)
    if het:
        v.holds("error bars, not negative", np.all(kw["yerr"] >= 0))
        v.equal("error bars, squared", kw["yerr"] ** 2, p["bin_variance"] * (py / px) ** 2)
    else:
        v.holds("no error bars", "yerr" not in kw or kw["yerr"] is None)
    check_average(v, e, avg, sy)
    v.unchanged()


@scenario("C24", n=20, budget=200)
def shap_plot(v):
    n = v.size("N", 5, conc=(8, 12))
    d = v.size("D", 1, conc=(1, 3))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d), style="normal")
    f = v.model("f", d)
    e = ShapDP(X, f, nof_instances="all")
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    c = v.one_of("centering", CENT)
    het = v.one_of("heterogeneity", [False, True, "shap_values"])
    sx, sy, avg = scales(v)
    k = v.size("points", 2)
    e.plot(feature=s, heterogeneity=het, centering=c, nof_points=k, scale_x=sx, scale_y=sy, show_avg_output=avg)
    g = spec.grid(e.axis_limits[0, s], e.axis_limits[1, s], k)
    y, h = e.eval(feature=s, xs=g, centering=c, heterogeneity=True)
    a = labelled(v, "SHAP curve")
    v.equal("grid", a[0], affine(g, sx))
    v.equal("curve", a[1], affine(y, sy))
    bands = calls(v, "fill_between")
    if het is True:
        b = bands[0][0]
        v.equal("band grid", b[0], affine(g, sx))
        v.equal("band, lower end", b[1], affine(y, sy) - linear(h, sy))
        v.equal("band, upper end", b[2], affine(y, sy) + linear(h, sy))
    else:
        v.equal("no band", len(bands), 0)
    if het == "shap_values":
        p = e.feature_effect["feature_" + str(s)]
        z = 0 if c is False else p["norm_const"]
        pts = [a for a, kw in calls(v, "plot") if "label" not in kw][0]
        v.equal("SHAP points, x", pts[0], affine(p["xx"], sx))
        v.equal("SHAP points, y", pts[1], affine(p["yy"] - z, sy))
    check_average(v, e, avg, sy)
    v.unchanged()
