"""C25: interaction indices."""
import numpy as np
from vapi import scenario
import spec
from effector.interaction import HIndex, REPID
from effector.global_effect_pdp import PDP


def replaced(X, cols, row):
    """X with the features cols set to those of row"""
    Z = np.array(X, dtype=float)
    for c in cols:
        Z[:, c] = row[c]
    return Z


def pd(f, X, cols):
    """partial dependence on the features cols at every instance, centred"""
    n = X.shape[0]
    y = np.array([np.mean(f(replaced(X, cols, X[i, :]))) for i in range(n)])
    return y - np.mean(y)


def h_input(v, dmin):
    n = v.size("N", 1, conc=(2, 12))
    d = v.size("D", dmin, conc=(dmin, 4))
    X = v.data("X", (n, d))
    f = v.model("f", d)
    return X, f, HIndex(X, f, nof_instances=v.one_of("nof_instances", ["all", n]))


@scenario("C25", n=120, sym=False)
def h_pairwise(v):
    X, f, h = h_input(v, 2)
    d = X.shape[1]
    a = v.int("a", 0, d)
    b = v.int("b", 0, d)
    v.assume(a != b)
    two = pd(f, X, [a, b])
    v.assume(np.mean(two ** 2) > 0)
    one = two - pd(f, X, [a]) - pd(f, X, [b])
    want = np.mean(one ** 2) / np.mean(two ** 2)
    v.equal("pairwise index", h.eval_pairwise(a, b), want, scale=1.0)
    v.equal("the same in either order", h.eval_pairwise(b, a), want, scale=1.0)
    v.unchanged()


@scenario("C25", n=120, sym=False)
def h_one_vs_all(v):
    X, f, h = h_input(v, 2)
    d = X.shape[1]
    a = v.int("a", 0, d)
    y = f(X)
    v.assume(np.mean(y ** 2) > 0)
    rest = y - pd(f, X, [a]) - pd(f, X, [i for i in range(d) if i != a])
    want = np.mean(rest ** 2) / np.mean(y ** 2)
    v.equal("one-against-all index", h.eval_one_vs_all(a), want, scale=1.0)
    v.equal("and again", h.eval_one_vs_all(a), want, scale=1.0)
    v.unchanged()


@scenario("C25", n=120)
def repid(v):
    n = v.size("N", 1, conc=(2, 20))
    d = v.size("D", 1, conc=(1, 4))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    f = v.model("f", d)
    r = REPID(X, f, None, v.one_of("nof_instances", ["all", n]))
    a, b = np.min(X[:, s]), np.max(X[:, s])   # the feature's range
    v.assume(a < b)
    g = np.linspace(a, b, 21)
    g = (g[1:] + g[:20]) / 2
    I = spec.ice(f, X, s, g) - spec.ice(f, X, s, np.array([a]))
    v.equal("REPID index", r.eval_one_vs_all(s), np.mean(spec.pstd(I)))
    if not v.symbolic:
        v.equal("and again", r.eval_one_vs_all(s), np.mean(spec.pstd(I)))
    v.unchanged()


@scenario("C25", n=40, sym=False)
def matrices(v):
    """fit fills the matrices with the indices"""
    X, f, h = h_input(v, 2)
    n, d = X.shape
    h.fit()
    for i in range(d):
        v.equal("one-against-all", h.one_vs_all_matrix[i], HIndex(X, f, "all").eval_one_vs_all(i), scale=1.0)
        for j in range(d):
            if i != j:
                v.equal("pairwise", h.interaction_matrix[i, j], HIndex(X, f, "all").eval_pairwise(i, j), scale=1.0)
    r = REPID(X, f, None, "all")
    v.assume(np.all(X.min(axis=0) < X.max(axis=0)))
    r.fit()
    for i in range(d):
        v.equal("REPID", r.one_vs_all_matrix[i], REPID(X, f, None, "all").eval_one_vs_all(i))
    v.unchanged()


@scenario("C25", n=40, sym=False)
def subset(v):
    """with a subset of the instances: the indices of the subset"""
    n = v.size("N", 4, conc=(4, 14))
    d = v.size("D", 2, conc=(2, 4))
    X = v.data("X", (n, d))
    f = v.model("f", d)
    m = v.int("m", 2, n)
    h = HIndex(X, f, m)
    U = h.data
    two = pd(f, U, [0, 1])
    v.assume(np.mean(two ** 2) > 1e-6)
    one = two - pd(f, U, [0]) - pd(f, U, [1])
    v.equal("pairwise", h.eval_pairwise(0, 1), np.mean(one ** 2) / np.mean(two ** 2), scale=1.0)
    y = f(U)
    v.assume(np.mean(y ** 2) > 1e-6)
    rest = y - pd(f, U, [0]) - pd(f, U, list(range(1, d)))
    v.equal("one against all", h.eval_one_vs_all(0), np.mean(rest ** 2) / np.mean(y ** 2), scale=1.0)
    v.unchanged()


@scenario("C25", n=40)
def h_one(v):
    X, f, h = h_input(v, 2)
    a = v.int("a", 0, X.shape[1])
    v.equal("centred partial dependence on a feature", h._pdp_1d(a, X[:, a]), pd(f, X, [a]), scale=1.0)
    v.unchanged()


@scenario("C25", n=40)
def h_two(v):
    X, f, h = h_input(v, 2)
    d = X.shape[1]
    a = v.int("a", 0, d)
    b = v.int("b", 0, d)
    v.assume(a != b)
    v.equal("centred partial dependence on two features", h._pdp_2d(a, b, X[:, a], X[:, b]), pd(f, X, [a, b]), scale=1.0)
    v.unchanged()


@scenario("C25", n=40)
def h_rest(v):
    X, f, h = h_input(v, 2)
    d = X.shape[1]
    a = v.int("a", 0, d)
    others = np.arange(d) != a
    y = np.array([np.mean(f(np.where(others, X[r, :], X))) for r in range(X.shape[0])])
    v.equal("centred partial dependence on all the others", h._pdp_minus_1d(a, X[:, [i for i in range(d) if i != a]]),
            y - np.mean(y), scale=1.0)
    v.unchanged()


@scenario("C25", conc=False, uses=("h_pdp_1d", "h_pdp_2d"))
def h_pairwise_index(v):
    """with h_one and h_two: the index of a pair, the same in either order"""
    X, f, h = h_input(v, 2)
    d = X.shape[1]
    a = v.int("a", 0, d)
    b = v.int("b", 0, d)
    v.assume(a != b)
    v.linear()
    two = h._pdp_2d(a, b, X[:, a], X[:, b])
    one = two - h._pdp_1d(a, X[:, a]) - h._pdp_1d(b, X[:, b])
    v.assume(np.mean(two ** 2) > 0)
    want = np.mean(one ** 2) / np.mean(two ** 2)
    v.assume(want != h.empty_symbol)
    v.equal("pairwise index", h.eval_pairwise(a, b), want)
    v.equal("the same again", h.eval_pairwise(a, b), want)
    v.equal("the same in either order", h.eval_pairwise(b, a), want)
    v.unchanged()


@scenario("C25", conc=False, uses=("h_pdp_1d", "h_pdp_minus"))
def h_one_vs_all_index(v):
    X, f, h = h_input(v, 2)
    d = X.shape[1]
    a = v.int("a", 0, d)
    v.linear()
    y = f(X)
    v.assume(np.mean(y ** 2) > 0)
    rest = y - h._pdp_1d(a, X[:, a]) - h._pdp_minus_1d(a, X[:, [i for i in range(d) if i != a]])
    want = np.mean(rest ** 2) / np.mean(y ** 2)
    v.assume(want != h.empty_symbol)
    v.equal("one-against-all index", h.eval_one_vs_all(a), want)
    v.equal("and again", h.eval_one_vs_all(a), want)
    v.unchanged()
