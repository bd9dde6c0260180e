"""C15: the state of an effect object after any history.  By induction on the
calls: the entries of a feature are always those of a fresh object on which only
the last explicit fit of that feature (or none) and one fit with the centering
last asked for were made, and what eval returns does not depend on that centering."""
import numpy as np
from vapi import scenario
import effector.binning_methods as bm
from effector.global_effect_ale import ALE, RHALE
from effector.global_effect_pdp import PDP, DerPDP
from effector.global_effect_shap import ShapDP

BINS = ("find_limits", "compute_local_effects", "compute_ale_params", "compute_accumulated_effect")
CENT = [False, "zero_integral", "zero_start"]


class World:
    def __init__(self, v, kind):
        self.kind = kind
        self.n = v.size("N", 5)
        self.d = v.size("D", 2)
        self.X = v.data("X", (self.n, self.d))
        self.E = v.array("E", (self.n, self.d))
        self.f = v.model("f", self.d)
        self.J = v.jac("J", self.d)

    def fresh(self):
        k = self.kind
        if k == "PDP":
            return PDP(self.X, self.f, nof_instances="all")
        if k == "d-PDP":
            return DerPDP(self.X, self.f, self.J, nof_instances="all")
        if k == "ALE":
            return ALE(self.X, self.f)
        if k == "RHALE":
            return RHALE(self.X, self.f, self.J)
        if k == "RHALE effects":
            return RHALE(self.X, self.f, data_effect=self.E)
        return ShapDP(self.X, self.f, nof_instances="all")

    def feature(self, v, name, e):
        s = v.int(name, 0, self.d)
        v.assume(e.axis_limits[0, s] < e.axis_limits[1, s])
        return s

    def args(self, v, name):
        """arguments of an explicit fit, other than the centering"""
        if self.kind == "ALE":
            return {"binning_method": bm.Fixed(nof_bins=v.size("bins" + name, 1), min_points_per_bin=0)}
        if self.kind == "RHALE" or self.kind == "RHALE effects":
            return {"binning_method": bm.DynamicProgramming(max_nof_bins=v.size("bins" + name, 1), min_points_per_bin=2)}
        return {"points_for_centering": v.size("K" + name, 2)}


def after(q, c):
    """the centering of the entries after a call that asked for q"""
    return c if q is False else "zero_integral" if q is True else q


def after_call(v, kind, op):
    """entries of the feature after one call, from any earlier state of it"""
    w = World(v, kind)
    e = w.fresh()
    s = w.feature(v, "s", e)
    a = {}
    c = False
    if v.one_of("fitted", [True, False]):
        a = w.args(v, "")
        c = v.one_of("fit centering", CENT)
        if v.raises(lambda: e.fit(features=s, centering=c, **a)):
            v.stop()
    elif v.raises(lambda: w.fresh().fit(features=s, centering=False)):
        v.stop()
    if op == "eval":
        q = v.one_of("asked", [False, True, "zero_start"])
        xs = v.array("xs", (v.size("T", 1),))
        e.eval(feature=s, xs=xs, centering=q, heterogeneity=True)
        c = after(q, c)
    elif op == "plot":
        q = v.one_of("asked", [False, True, "zero_start"])
        e.plot(feature=s, centering=q, heterogeneity=True)
        c = after(q, c)
    else:
        a = w.args(v, " again")
        c = v.one_of("again centering", [False, "zero_start"])
        if v.raises(lambda: e.fit(features=s, centering=c, **a)):
            v.stop()
    g = w.fresh()
    g.fit(features=s, centering=c, **a)
    v.same_state("state", e, g)
    v.unchanged()


def value(v, kind):
    """what eval returns does not depend on the centering the entries were made with"""
    w = World(v, kind)
    e = w.fresh()
    s = w.feature(v, "s", e)
    a = {}
    g = w.fresh()
    if v.one_of("fitted", [True, False]):
        a = w.args(v, "")
        if v.raises(lambda: g.fit(features=s, centering=False, **a)):
            v.stop()
    elif v.raises(lambda: w.fresh().fit(features=s, centering=False)):
        v.stop()
    e.fit(features=s, centering=v.one_of("fit centering", CENT), **a)
    xs = v.array("xs", (v.size("T", 1),))
    q = v.one_of("asked", [False, True, "zero_start"])
    h = v.one_of("heterogeneity", [True, False])
    v.equal("value", e.eval(feature=s, xs=xs, centering=q, heterogeneity=h), g.eval(feature=s, xs=xs, centering=q, heterogeneity=h))
    v.unchanged()


def other_feature(v, kind):
    """calls on one feature leave the entries of the others as they are, and do
    not depend on them"""
    w = World(v, kind)
    e = w.fresh()
    g = w.fresh()
    s = w.feature(v, "s", e)
    t = w.feature(v, "t", e)
    v.assume(s != t)
    a, b = w.args(v, " of s"), w.args(v, " of t")
    if v.raises(lambda: g.fit(features=t, centering="zero_start", **b)) or v.raises(lambda: g.fit(features=s, centering="zero_integral", **a)):
        v.stop()
    op = v.one_of("op", ["eval", "plot", "fit", "fit both"])
    if op == "fit both":
        if v.raises(lambda: w.fresh().fit(features=s, centering=False, **b)):
            v.stop()
        e.fit(features=[s, t], centering="zero_start", **b)
        g.fit(features=s, centering="zero_start", **b)
    else:
        e.fit(features=s, centering="zero_integral", **a)
        if op == "fit":
            e.fit(features=t, centering="zero_start", **b)
        else:
            e.fit(features=t, centering=False, **b)
            if op == "eval":
                e.eval(feature=t, xs=v.array("xs", (v.size("T", 1),)), centering="zero_start", heterogeneity=True)
            else:
                e.plot(feature=t, centering="zero_start", heterogeneity=True)
    v.same_state("state", e, g)
    v.unchanged()


@scenario("C15", conc=False, budget=200)
def pdp_after_eval(v):
    after_call(v, "PDP", "eval")


@scenario("C15", conc=False, budget=200)
def pdp_after_plot(v):
    after_call(v, "PDP", "plot")


@scenario("C15", conc=False, budget=200)
def pdp_after_fit(v):
    after_call(v, "PDP", "fit")


@scenario("C15", conc=False, budget=200)
def pdp_value(v):
    value(v, "PDP")


@scenario("C15", conc=False, budget=200)
def pdp_other_feature(v):
    other_feature(v, "PDP")


@scenario("C15", conc=False, budget=200)
def dpdp_after_eval(v):
    after_call(v, "d-PDP", "eval")


@scenario("C15", conc=False, budget=200)
def dpdp_after_plot(v):
    after_call(v, "d-PDP", "plot")


@scenario("C15", conc=False, budget=200)
def dpdp_after_fit(v):
    after_call(v, "d-PDP", "fit")


@scenario("C15", conc=False, budget=200)
def dpdp_value(v):
    value(v, "d-PDP")


@scenario("C15", conc=False, budget=200)
def dpdp_other_feature(v):
    other_feature(v, "d-PDP")


@scenario("C15", uses=BINS, conc=False, budget=200)
def ale_after_eval(v):
    after_call(v, "ALE", "eval")


@scenario("C15", uses=BINS, conc=False, budget=200)
def ale_after_plot(v):
    after_call(v, "ALE", "plot")


@scenario("C15", uses=BINS, conc=False, budget=200)
def ale_after_fit(v):
    after_call(v, "ALE", "fit")


@scenario("C15", uses=BINS, conc=False, budget=200)
def ale_value(v):
    value(v, "ALE")


@scenario("C15", uses=BINS, conc=False, budget=200)
def ale_other_feature(v):
    other_feature(v, "ALE")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_after_eval(v):
    after_call(v, "RHALE", "eval")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_after_plot(v):
    after_call(v, "RHALE", "plot")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_after_fit(v):
    after_call(v, "RHALE", "fit")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_value(v):
    value(v, "RHALE")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_other_feature(v):
    other_feature(v, "RHALE")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_effects_after_eval(v):
    after_call(v, "RHALE effects", "eval")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_effects_after_plot(v):
    after_call(v, "RHALE effects", "plot")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_effects_after_fit(v):
    after_call(v, "RHALE effects", "fit")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_effects_value(v):
    value(v, "RHALE effects")


@scenario("C15", uses=BINS, conc=False, budget=200)
def rhale_effects_other_feature(v):
    other_feature(v, "RHALE effects")


@scenario("C15", conc=False, budget=200)
def shap_after_eval(v):
    after_call(v, "SHAP", "eval")


@scenario("C15", conc=False, budget=200)
def shap_after_plot(v):
    after_call(v, "SHAP", "plot")


@scenario("C15", conc=False, budget=200)
def shap_after_fit(v):
    after_call(v, "SHAP", "fit")


@scenario("C15", conc=False, budget=200)
def shap_value(v):
    value(v, "SHAP")


@scenario("C15", conc=False, budget=200)
def shap_other_feature(v):
    other_feature(v, "SHAP")
