"""C01-C04: PDP and d-PDP."""
import numpy as np
from vapi import scenario
import spec
from effector.global_effect_pdp import PDP, DerPDP


@scenario("C01")
def pdp_values(v):
    """default axis limits, all instances, both evaluation modes"""
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    vec = v.one_of("use_vectorized", [True, False])
    pdp = PDP(X, f, nof_instances="all")
    v.assume(pdp.axis_limits[0, s] < pdp.axis_limits[1, s])
    y = pdp.eval(feature=s, xs=xs, centering=False, heterogeneity=False, use_vectorized=vec)
    I = spec.ice(f, X, s, xs)
    v.equal("pdp curve", y, np.mean(I, axis=1))
    v.equal("ice curves", pdp.eval(feature=s, xs=xs, centering=False, return_all=True, use_vectorized=vec), I)
    v.unchanged()


@scenario("C01")
def pdp_axis_limits(v):
    """user axis limits: only the instances inside them count"""
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    lims = v.array("axis_limits", (2, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    vec = v.one_of("use_vectorized", [True, False])
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 0)
    pdp = PDP(X, f, axis_limits=lims, nof_instances="all")
    I = spec.ice(f, U, s, xs)
    v.equal("ice curves", pdp.eval(feature=s, xs=xs, centering=False, return_all=True, use_vectorized=vec), I)
    v.equal("pdp curve", pdp.eval(feature=s, xs=xs, centering=False, use_vectorized=vec), np.mean(I, axis=1))
    v.unchanged()


@scenario("C01")
def pdp_integer_data(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.array("X", (n, d), "i")
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    vec = v.one_of("use_vectorized", [True, False])
    pdp = PDP(X, f, nof_instances="all")
    v.assume(pdp.axis_limits[0, s] < pdp.axis_limits[1, s])
    v.equal("ice curves", pdp.eval(feature=s, xs=xs, centering=False, return_all=True, use_vectorized=vec), spec.ice(f, X, s, xs))
    v.unchanged()


@scenario("C01")
def pdp_subsample(v):
    """a random subset of the instances: the curve is the one of the subset"""
    n = v.size("N", 1)
    m = v.size("M", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    vec = v.one_of("use_vectorized", [True, False])
    pdp = PDP(X, f, nof_instances=m)
    v.assume(pdp.axis_limits[0, s] < pdp.axis_limits[1, s])
    U = X[pdp.indices, :]
    v.equal("pdp curve", pdp.eval(feature=s, xs=xs, centering=False, use_vectorized=vec), np.mean(spec.ice(f, U, s, xs), axis=1))
    v.unchanged()


@scenario("C02")
def dpdp_jacobian(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    lims = v.array("axis_limits", (2, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    J = v.jac("J", d)
    vec = v.one_of("use_vectorized", [True, False])
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 0)
    e = DerPDP(X, f, J, axis_limits=lims, nof_instances="all")
    D = spec.dice_jac(J, U, s, xs)
    v.equal("d-ice curves", e.eval(feature=s, xs=xs, centering=False, return_all=True, use_vectorized=vec), D)
    v.equal("d-pdp curve", e.eval(feature=s, xs=xs, centering=False, use_vectorized=vec), np.mean(D, axis=1))
    v.unchanged()


@scenario("C02")
def dpdp_numerical(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    lims = v.array("axis_limits", (2, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    vec = v.one_of("use_vectorized", [True, False])
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 0)
    e = DerPDP(X, f, None, axis_limits=lims, nof_instances="all")
    D = spec.dice_num(f, U, s, xs)
    v.equal("d-ice curves", e.eval(feature=s, xs=xs, centering=False, return_all=True, use_vectorized=vec), D, rtol=1e-6, atol=1e-6)
    v.equal("d-pdp curve", e.eval(feature=s, xs=xs, centering=False, use_vectorized=vec), np.mean(D, axis=1), rtol=1e-6, atol=1e-6)
    v.unchanged()


@scenario("C02")
def dpdp_integer_data(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.array("X", (n, d), "i")
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    J = v.jac("J", d)
    vec = v.one_of("use_vectorized", [True, False])
    given = v.one_of("jacobian", [True, False])
    e = DerPDP(X, f, J if given else None, nof_instances="all")
    v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
    D = spec.dice_jac(J, X, s, xs) if given else spec.dice_num(f, X, s, xs)
    v.equal("d-pdp curve", e.eval(feature=s, xs=xs, centering=False, use_vectorized=vec), np.mean(D, axis=1), rtol=1e-6, atol=1e-6)
    v.unchanged()


def make(v, kind, X, f, J, lims):
    if kind == "pdp":
        return PDP(X, f, axis_limits=lims, nof_instances="all")
    return DerPDP(X, f, J, axis_limits=lims, nof_instances="all")


def curves(kind, f, J, U, s, xs):
    return spec.ice(f, U, s, xs) if kind == "pdp" else spec.dice_jac(J, U, s, xs)


@scenario("C03")
def heterogeneity(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    lims = v.array("axis_limits", (2, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    J = v.jac("J", d)
    kind = v.one_of("kind", ["pdp", "d-pdp"])
    vec = v.one_of("use_vectorized", [True, False])
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 0)
    e = make(v, kind, X, f, J, lims)
    I = curves(kind, f, J, U, s, xs)
    y, h = e.eval(feature=s, xs=xs, heterogeneity=True, centering=False, use_vectorized=vec)
    v.equal("heterogeneity", h, spec.pstd(I))
    v.equal("mean", y, np.mean(I, axis=1))
    v.unchanged()


@scenario("C03")
def heterogeneity_centered(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    k = v.size("K", 2)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    lims = v.array("axis_limits", (2, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    J = v.jac("J", d)
    kind = v.one_of("kind", ["pdp", "d-pdp"])
    cent = v.one_of("centering", ["zero_start", "zero_integral"])
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 0)
    e = make(v, kind, X, f, J, lims)
    e.fit(features=s, centering=cent, points_for_centering=k)
    I = curves(kind, f, J, U, s, xs) - center_const(kind, f, J, U, s, lims, cent, k)
    y, h = e.eval(feature=s, xs=xs, heterogeneity=True, centering=cent)
    v.equal("heterogeneity", h, spec.pstd(I))
    v.equal("mean", y, np.mean(I, axis=1))
    v.unchanged()


def center_const(kind, f, J, U, s, lims, cent, k):
    """(1, N): the constant subtracted from each instance's curve"""
    if cent == "zero_start":
        return curves(kind, f, J, U, s, lims[0:1, s])
    return np.mean(curves(kind, f, J, U, s, spec.grid(lims[0, s], lims[1, s], k)), axis=0)[np.newaxis, :]


@scenario("C04")
def centering_after_fit(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    k = v.size("K", 2)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    lims = v.array("axis_limits", (2, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    J = v.jac("J", d)
    kind = v.one_of("kind", ["pdp", "d-pdp"])
    vec = v.one_of("use_vectorized", [True, False])
    fitted = v.one_of("fit centering", [False, True, "zero_start", "zero_integral"])
    cent = v.one_of("centering", [True, "zero_start", "zero_integral"])
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 0)
    e = make(v, kind, X, f, J, lims)
    e.fit(features=s, centering=fitted, points_for_centering=k, use_vectorized=vec)
    I = curves(kind, f, J, U, s, xs) - center_const(kind, f, J, U, s, lims, cent, k)
    v.equal("centred curves", e.eval(feature=s, xs=xs, centering=cent, return_all=True, use_vectorized=vec), I)
    v.equal("centred mean", e.eval(feature=s, xs=xs, centering=cent, use_vectorized=vec), np.mean(I, axis=1))
    v.equal("no centering", e.eval(feature=s, xs=xs, centering=False, return_all=True, use_vectorized=vec), curves(kind, f, J, U, s, xs))
    v.unchanged()


@scenario("C04")
def centering_without_fit(v):
    n = v.size("N", 1)
    d = v.size("D", 1)
    t = v.size("T", 1)
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    lims = v.array("axis_limits", (2, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    J = v.jac("J", d)
    kind = v.one_of("kind", ["pdp", "d-pdp"])
    cent = v.one_of("centering", [True, "zero_start", "zero_integral"])
    how = v.one_of("how", ["eval", "fit default"])
    v.assume(lims[0, s] < lims[1, s])
    U = spec.inside(X, lims, s)
    v.assume(len(U) > 0)
    e = make(v, kind, X, f, J, lims)
    if how == "fit default":
        e.fit(features=[s])
    I = curves(kind, f, J, U, s, xs) - center_const(kind, f, J, U, s, lims, cent, 100)
    v.equal("centred mean", e.eval(feature=s, xs=xs, centering=cent), np.mean(I, axis=1))
    v.unchanged()


@scenario("C04", bounded="at most 3 features")
def centering_fit_all(v):
    n = v.size("N", 2)
    d = v.small("D", 1, 3)
    t = v.size("T", 1)
    s = v.one_of("s", list(range(d)))
    X = v.data("X", (n, d))
    xs = v.array("xs", (t,))
    f = v.model("f", d)
    cent = v.one_of("centering", [True, "zero_start"])
    e = PDP(X, f, nof_instances="all")
    lims = e.axis_limits
    v.assume(lims[0, s] < lims[1, s])
    e.fit(centering=cent)
    I = spec.ice(f, X, s, xs) - center_const("pdp", f, None, X, s, lims, cent, 100)
    v.equal("centred mean", e.eval(feature=s, xs=xs, centering=cent), np.mean(I, axis=1))
    v.unchanged()
