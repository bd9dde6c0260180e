"""C12: greedy bins, C13: dynamic-programming bins."""
import itertools
import numpy as np
from vapi import scenario
import spec
import effector.binning_methods as bm
import effector.bin_splitting as be


def effects_input(v, dmax=2, nmax=40):
    n = v.size("N", 2, conc=(2, nmax))
    d = v.size("D", 1, conc=(1, dmax))
    s = v.int("s", 0, d)
    X = v.data("X", (n, d))
    E = v.data("E", (n, d))
    al = v.array("axis_limits", (2, d))
    if not v.symbolic:
        w = v.one_of("widen", [0.0, 0.0, 0.5])
        al[0] = X.min(axis=0) - w
        al[1] = X.max(axis=0) + w
        v.freeze("axis_limits")
    v.assume(al[0, s] < al[1, s])
    v.assume(np.all(X[:, s] >= al[0, s]))
    v.assume(np.all(X[:, s] <= al[1, s]))
    return X, E, s, al


def check_valid(v, L, x, al, s, k, m):
    """what every set of limits must satisfy"""
    G = spec.grid(al[0, s], al[1, s], k + 1)
    tol = 1e-9 * (1 + np.max(np.abs(G)))
    v.close("left end", L[0], al[0, s], rtol=1e-9, atol=1e-9)
    v.close("right end", L[-1], al[1, s], rtol=1e-9, atol=1e-9)
    v.holds("strictly increasing", np.all(L[1:] > L[:-1]))
    v.holds("points of the grid", np.all(np.array([np.min(np.abs(G - p)) <= tol for p in L])))
    w = tol * 10
    v.holds("every bin has the minimum number of instances", np.all(np.array([spec.held(x, L[i] - w, L[i + 1] + w) >= m for i in range(len(L) - 1)])))


def near_ties(x, G):
    """instances within rounding distance of, but not on, a grid point"""
    gap = np.abs(x[:, np.newaxis] - G[np.newaxis, :])
    return np.any(np.logical_and(gap > 0, gap < 1e-9 * (1 + np.abs(G).max())))


@scenario("C12", sym=False, n=260)
def greedy_bins(v):
    X, E, s, al = effects_input(v)
    x, e = X[:, s], E[:, s]
    k = v.size("init_nof_bins", 1, conc=(1, 25))
    m = v.int("min_points", 0, 9)
    disc = v.real("discount", 0.0, 1.0, choices=[0.0, 0.3, 1.0])
    c = v.int("cat_limit", 0, 6)
    v.assume(len(np.unique(x)) > c)
    L = bm.find_limits(X, E, s, al, bm.Greedy(init_nof_bins=k, min_points_per_bin=m, discount=disc, cat_limit=c)).limits
    if len(np.unique(x)) == 1 or len(x) < m:
        v.holds("no limits for a constant feature or too few instances", L is False)
        v.stop()
    v.holds("limits exist", L is not False)
    if len(x) < 2 * m or np.allclose(al[0, s], al[1, s]):
        v.equal("a single bin", L, np.array([al[0, s], al[1, s]]))
        v.stop()
    check_valid(v, L, x, al, s, k, m)
    # the greedy rule, step by step
    G = spec.grid(al[0, s], al[1, s], k + 1)
    v.assume(not near_ties(x, G))
    M = [0]
    for i in range(k):
        close = i == k - 1
        if not close:
            a, b1, b2 = G[M[-1]], G[i + 1], G[i + 2]
            if spec.held(x, a, b1) >= m and spec.held(x, a, b2) >= m:
                c1, c2 = spec.cost_of(x, e, a, b1, m, disc), spec.cost_of(x, e, a, b2, m, disc)
                if np.isnan(c1) or np.isnan(c2):
                    v.stop()
                if abs(c1 - c2) < 1e-9 * (1 + abs(c1)) and c1 != c2:
                    v.stop()            # a tie up to rounding
                close = c2 > c1
        if close:
            M.append(i + 1)
    if spec.held(x, G[M[-2]], G[M[-1]]) < m:
        M = M[:-2] + M[-1:]
    v.equal("bins close where merging the next cell raises the cost", L, G[M])
    v.unchanged()


def categorical(v, method):
    """features with few values get one bin per value, for every method"""
    X, E, s, al = effects_input(v)
    x = X[:, s]
    u = np.unique(x)
    c = v.int("cat_limit", 1, 12)
    m = v.int("min_points", 0, 4)
    v.assume(len(u) <= c)
    L = bm.find_limits(X, E, s, al, method(m, c)).limits
    if len(u) == 1:
        v.holds("no limits", L is False)
        v.stop()
    C = spec.category_limits(u)
    bad = np.logical_or(len(x) < m, np.any(np.array([spec.held(x, C[i], C[i + 1]) < m for i in range(len(u))])))
    if L is False:
        v.holds("limits are refused only for a bin with too few instances", bad)
    else:
        v.holds("no bin has too few instances", np.logical_not(bad))
        v.equal("one bin per value", L, C)
    v.unchanged()


@scenario("C12", n=40, budget=200)
def greedy_categorical(v):
    categorical(v, lambda m, c: bm.Greedy(10, m, 0.3, c))


@scenario("C13", n=40, budget=200)
def dp_categorical(v):
    categorical(v, lambda m, c: bm.DynamicProgramming(5, m, 0.3, c))


@scenario("C13", sym=False, n=160)
def dp_bins(v):
    X, E, s, al = effects_input(v)
    x, e = X[:, s], E[:, s]
    k = v.size("max_nof_bins", 1, conc=(1, 8))
    m = v.int("min_points", 0, 9)
    disc = v.real("discount", 0.0, 1.0, choices=[0.0, 0.3, 1.0])
    c = v.int("cat_limit", 0, 6)
    v.assume(len(np.unique(x)) > c)
    G = spec.grid(al[0, s], al[1, s], k + 1)
    # exact arithmetic: no instance is moved across a grid point by rounding
    v.assume(not near_ties(x, G))
    v.assume(not near_ties(x, al[0, s] + np.arange(k + 1) * ((al[1, s] - al[0, s]) / k)))
    L = bm.find_limits(X, E, s, al, bm.DynamicProgramming(max_nof_bins=k, min_points_per_bin=m, discount=disc, cat_limit=c)).limits
    if len(np.unique(x)) == 1 or len(x) < m:
        v.holds("no limits for a constant feature or too few instances", L is False)
        v.stop()
    v.holds("limits exist", L is not False)
    if len(x) < 2 * m or np.allclose(al[0, s], al[1, s]) or k == 1:
        v.equal("a single bin", L, np.array([al[0, s], al[1, s]]))
        v.stop()
    tol = 1e-9 * (1 + np.abs(G).max())
    w = tol

    def cost(i, j):
        # the library's own positions differ from the grid by rounding
        inb = np.logical_and(x >= G[i] - w, x <= G[j] + w)
        if np.sum(inb) < m:
            return None
        if np.sum(inb) == 0:
            return 0.0
        return np.var(e[inb]) * (G[j] - G[i]) * (1 - disc * np.sum(inb) / len(x))
    C = {(i, j): cost(i, j) for i in range(k + 1) for j in range(i + 1, k + 1)}
    v.assume(all(q is None or q < 1e7 for q in C.values()))
    check_valid(v, L, x, al, s, k, m)
    best = None
    for r in range(k):
        for cut in itertools.combinations(range(1, k), r):
            p = (0,) + cut + (k,)
            cs = [C[p[i], p[i + 1]] for i in range(len(p) - 1)]
            if any(q is None for q in cs):
                continue
            t = sum(cs)
            best = t if best is None else min(best, t)
    idx = [int(np.argmin(np.abs(G - p))) for p in L]
    got = sum(C[idx[i], idx[i + 1]] for i in range(len(idx) - 1))
    v.close("the total cost is the smallest possible", got, best, rtol=1e-7, atol=1e-7)
    v.unchanged()


@scenario("C12", conc=False, loops=("greedy",), uses=("bin_valid", "bin_cost"), budget=200)
def greedy_bins_valid(v):
    """any number of instances and of initial bins, by the invariant of the greedy loop"""
    X, E, s, al = effects_input(v)
    x, n = X[:, s], X.shape[0]
    k = v.size("init_nof_bins", 1)
    m = v.int("min_points", 0)
    disc = v.real("discount", 0.0, 1.0)
    c = v.int("cat_limit", 0)
    v.assume(len(np.unique(x)) > c)
    # proved of the number of instances in a bin by held_is_monotone
    v.assume(v.opaque("held", al[0, s], al[1, s]) == n)
    b = be.Greedy(X, E, s, al)
    L = b.find(init_nof_bins=k, discount=disc, min_points=m, cat_limit=c)
    v.equal("limits kept", b.limits, L)
    if len(np.unique(x)) == 1 or len(x) < m:
        v.holds("no limits for a constant feature or too few instances", L is False)
        v.stop()
    v.holds("limits exist", L is not False)
    if len(x) < 2 * m or np.allclose(al[0, s], al[1, s]):
        v.equal("a single bin", L, np.array([al[0, s], al[1, s]]))
        v.stop()
    g = v.ghost("greedy")
    idx, G = g["idx"], g["grid"]        # the uniform grid: obligation "on entry: the grid"
    t = len(idx)
    if len(L) != t:
        u = G[idx[t - 3]]
        v.assume(v.opaque("held", u, G[idx[t - 2]]) <= v.opaque("held", u, G[idx[t - 1]]))     # held_is_monotone
        idx = np.concatenate([idx[:t - 2], idx[t - 1:]])
    v.equal("points of the grid", L, G[idx])
    v.equal("left end", L[0], al[0, s])
    v.equal("right end", L[-1], al[1, s])
    v.each("strictly increasing", L[1:] > L[:-1])
    j = v.int("bin", 0, len(L) - 1)
    v.holds("every bin has the minimum number of instances", v.opaque("held", L[j], L[j + 1]) >= m)
    v.unchanged()


@scenario("C12", conc=False)
def held_is_monotone(v):
    """a larger bin holds no fewer instances, the whole range holds all"""
    n = v.size("N", 1)
    x = v.array("x", (n,))
    a, b, c = v.real("a"), v.real("b"), v.real("c")
    v.assume(a <= b)
    v.assume(b <= c)
    part = np.sum(np.logical_and(np.logical_and(x >= a, x <= c), x <= b))
    rest = np.sum(np.logical_and(np.logical_and(x >= a, x <= c), np.logical_not(x <= b)))
    v.equal("those up to b", part, spec.held(x, a, b))
    v.holds("the others", rest >= 0)
    v.equal("these are all", part + rest, spec.held(x, a, c))
    k = v.int("how many others", 0)
    v.assume(part == spec.held(x, a, b))     # shown just above
    v.assume(part + rest == spec.held(x, a, c))
    v.assume(rest == k)
    v.holds("monotone", spec.held(x, a, b) <= spec.held(x, a, c))
    v.assume(np.all(x >= a))
    v.assume(np.all(x <= c))
    v.holds("all", spec.held(x, a, c) == n)


@scenario("C12", "C13", n=200)
def bin_valid_and_cost(v):
    """the cost of a bin, and whether it holds enough instances"""
    X, E, s, al = effects_input(v)
    x, e = X[:, s], E[:, s]
    m = v.int("min_points", 0, 9)
    disc = v.real("discount", 0.0, 1.0, choices=[0.0, 0.3, 1.0])
    b = be.Greedy(X, E, s, al)
    b.method_args = {"min_points": m}
    lo = v.real("lo")
    hi = v.real("hi")
    v.equal("valid", b._bin_valid(lo, hi), spec.held(x, lo, hi) >= m)
    v.assume(spec.held(x, lo, hi) > 0)
    v.equal("cost", b._bin_cost(lo, hi, disc), spec.cost_of(x, e, lo, hi, m, disc))
    v.unchanged()


def dp_problem(v):
    """a search of DP with any costs of moves; the costs and moves it should find"""
    X, E, s, al = effects_input(v)
    k = v.size("max_nof_bins", 2)
    m = v.int("min_points", 0)
    disc = v.real("discount", 0.0, 1.0)
    c = v.int("cat_limit", 0)
    b = be.DP(X, E, s, al)
    moves = v.array("moves", (k + 1, k + 1))
    least = v.array("least", (k + 1, k))
    b.moves = moves
    b.least = least
    # the recursion defines least
    v.rule("least", np.all(np.array([[least[l, j] == (moves[0, l] if j == 0 else np.min(np.array([least[q, j - 1] + moves[q, l] for q in range(k + 1)]))) for j in range(k)] for l in range(k + 1)])))
    b.best = np.array([[0 if j == 0 else np.argmin(np.array([least[q, j - 1] + moves[q, l] for q in range(k + 1)])) for j in range(k)] for l in range(k + 1)])
    return b, X, E, s, al, k, m, disc, c


@scenario("C13", conc=False, loops=("table",), uses=("bin_valid", "bin_cost", "cost_of_move", "argmatrix_to_limits"), budget=200)
def dp_table(v):
    """the table of costs satisfies the recursion, for any number of bins"""
    b, X, E, s, al, k, m, disc, c = dp_problem(v)
    x = X[:, s]
    v.assume(len(np.unique(x)) > c)
    L = b.find(max_nof_bins=k, min_points=m, discount=disc, cat_limit=c)
    v.equal("limits kept", b.limits, L)
    if len(np.unique(x)) == 1 or len(x) < m:
        v.holds("no limits for a constant feature or too few instances", L is False)
        v.stop()
    v.holds("limits exist", L is not False)
    if len(x) < 2 * m or np.allclose(al[0, s], al[1, s]):
        v.equal("a single bin", L, np.array([al[0, s], al[1, s]]))
        v.stop()
    v.equal("the limits of the best moves", L, b.found)
    v.unchanged()


def best_path(v, b, k):
    """the path of the best moves, backwards from the last limit, and its cost so far"""
    path = v.array("path", (k + 1,), "i")
    total = v.array("total", (k + 1,))
    v.assume(path[0] == 0)
    v.assume(path[k] == k)
    v.assume_each("path", 0, k)
    v.rule("path", np.all(np.array([path[t] == b.best[path[t + 1], t] for t in range(1, k)])))
    v.assume(total[0] == 0)
    v.rule("total", np.all(np.array([total[t + 1] == total[t] + b.moves[path[t], path[t + 1]] for t in range(k)])))
    b.path = path
    b.total = total


@scenario("C13", conc=False, loops=("back", "distinct"), budget=200)
def dp_limits(v):
    """the limits are the distinct ones on the path of the best moves"""
    b, X, E, s, al, k, m, disc, c = dp_problem(v)
    b.best = v.array("best", (k + 1, k), "i")
    v.assume_each("best", 0, k)
    v.rule("moves", np.all(np.array([b.moves[t, t] == 0 for t in range(k + 1)])))
    best_path(v, b, k)
    b.method_args = {"max_nof_bins": k}
    b.method_outputs = {"argmatrix": b.best * 1.0}
    L, dx = b._argmatrix_to_limits(k)
    g = v.ghost("distinct")
    idx = g["idx"]
    t = len(idx)
    v.equal("positions of the path", L, b.xs_min + b.path[idx] * ((b.xs_max - b.xs_min) / k))
    v.holds("starts at the left end", b.path[idx[0]] == 0)
    v.holds("ends at the right end", b.path[idx[t - 1]] == k)
    u = v.int("bin", 0, t - 1)
    i = idx[u + 1] - 1
    v.holds("a bin is a move", np.logical_and(b.path[i] == b.path[idx[u]], b.path[i + 1] == b.path[idx[u + 1]]))
    v.holds("to another limit", b.path[i] != b.path[i + 1])
    v.equal("cost of the bins", g["cost"], b.total[k])
    v.equal("widths", dx, L[1:] - L[:-1])
    v.unchanged()


@scenario("C13", sym=False, n=200)
def cost_of_move(v):
    """as move_costs: what a bin costs: nothing if empty, the sentinel if it has too few instances"""
    X, E, s, al = effects_input(v)
    x, e = X[:, s], E[:, s]
    m = v.int("min_points", 0, 9)
    k = v.size("max_nof_bins", 1, conc=(1, 8))
    i = v.int("before", 0, k + 1)
    j = v.int("next", 0, k + 1)
    disc = v.real("discount", 0.0, 1.0, choices=[0.0, 0.3, 1.0])
    b = be.DP(X, E, s, al)
    b.method_args = {"min_points": m}
    c = b._cost_of_move(i, j, k, disc)
    v.holds("no cost is negative", c >= 0)
    if i > j:
        v.holds("never backwards", c == b.big_M)
        v.stop()
    if i == j:
        v.holds("no bin, no cost", c == 0)
        v.stop()
    w = (al[1, s] - al[0, s]) / k
    lo, hi = al[0, s] + i * w, al[0, s] + j * w
    h = spec.held(x, lo, hi)
    if h < m:
        v.holds("never too few instances", c == b.big_M)
        v.stop()
    if h == 0:
        v.holds("an empty bin costs nothing", c == 0)
        v.stop()
    v.close("the cost of the bin", c, spec.cost_of(x, e, lo, hi, m, disc))
    v.unchanged()


@scenario("C13", conc=False, uses=("bin_cost_kind",))
def move_costs(v):
    """the cost of a move: that of the bin between its positions, nothing if empty"""
    X, E, s, al = effects_input(v)
    m = v.int("min_points", 0)
    k = v.size("max_nof_bins", 1)
    i = v.int("before", 0, k + 1)
    j = v.int("next", 0, k + 1)
    disc = v.real("discount", 0.0, 1.0)
    b = be.DP(X, E, s, al)
    b.method_args = {"min_points": m}
    c = b._cost_of_move(i, j, k, disc)
    v.holds("no cost is negative", c >= 0)
    if i > j:
        v.holds("never backwards", c == b.big_M)
        v.stop()
    if i == j:
        v.holds("no bin, no cost", c == 0)
        v.stop()
    w = (al[1, s] - al[0, s]) / k
    lo, hi = al[0, s] + i * w, al[0, s] + j * w
    h = v.opaque("held", lo, hi)
    if h < m:
        v.holds("never too few instances", c == b.big_M)
        v.stop()
    if h == 0:
        v.holds("an empty bin costs nothing", c == 0)
        v.stop()
    v.equal("the cost of the bin", c, b._bin_cost(lo, hi, disc))
    v.unchanged()


@scenario("C13", conc=False)
def cost_sign(v):
    """the cost of a bin (bin_valid_and_cost) is not negative"""
    var, width, disc = v.real("var", 0.0), v.real("width", 0.0), v.real("discount", 0.0, 1.0)
    n = v.int("N", 1)
    h = v.int("held", 1)
    v.assume(h <= n)
    share = v.real("share")
    v.assume(share * n == h)
    v.holds("share", share <= 1)
    v.holds("discounted", 1 - disc * share >= 0)
    d = v.real("discounted", 0.0)
    v.holds("not negative", var * width * d >= 0)


@scenario("C13", conc=False, budget=200)
def dp_optimal(v):
    """lemmas about the table (dp_table), the path (dp_limits) and the costs
    (cost_of_move): the path is the cheapest, and its moves are valid bins.
    Facts about every t are proved by induction: a base and a step"""
    b, X, E, s, al, k, m, disc, c = dp_problem(v)
    best_path(v, b, k)
    moves, least, path, total = b.moves, b.least, b.path, b.total
    v.assume_each("moves", 0)
    v.rule("moves", np.all(np.array([moves[t, t] == 0 for t in range(k + 1)])))
    t = v.int("t", 1, k)
    # the cost of the path is that of the table
    v.holds("cost of the path, base", total[1] == least[path[1], 0])
    v.holds("cost of the path, step", np.logical_or(total[t] != least[path[t], t - 1], total[t + 1] == least[path[t + 1], t]))
    # no other path is cheaper; one with fewer bins repeats limits, at no cost
    other = v.array("other", (k + 1,), "i")
    spent = v.array("spent", (k + 1,))
    v.assume_each("other", 0, k)
    v.assume(other[0] == 0)
    v.assume(other[k] == k)
    v.assume(spent[0] == 0)
    v.rule("spent", np.all(np.array([spent[u + 1] == spent[u] + moves[other[u], other[u + 1]] for u in range(k)])))
    v.holds("no path is cheaper, base", least[other[1], 0] <= spent[1])
    v.holds("no path is cheaper, step", np.logical_or(least[other[t], t - 1] > spent[t], least[other[t + 1], t] <= spent[t + 1]))
    # costs of the path only grow, so no move of it costs as much as the sentinel
    v.holds("the cost grows, base", total[0] >= 0)
    v.holds("the cost grows, step", total[t] >= total[t - 1])
    v.holds("a move costs no more than the path so far", np.logical_or(total[t - 1] < 0, moves[path[t - 1], path[t]] <= total[t]))


@scenario("C13", conc=False, budget=200)
def dp_valid(v):
    """with dp_optimal: bins on the path are valid and in increasing order"""
    b, X, E, s, al, k, m, disc, c = dp_problem(v)
    best_path(v, b, k)
    moves, path, total = b.moves, b.path, b.total
    v.assume_each("moves", 0)
    # cost_of_move
    v.rule("moves", np.all(np.array([[moves[i, j] == b.big_M if i > j else True for j in range(k + 1)] for i in range(k + 1)])))
    v.rule("moves", np.all(np.array([[moves[i, j] == b.big_M if np.logical_and(i < j, v.opaque("held", i, j) < m) else True for j in range(k + 1)] for i in range(k + 1)])))
    # dp_optimal: the path costs no more than one bin over the whole range (spent by 0, k, k, ..., k), and no move costs more than the path
    v.assume(total[k] <= moves[0, k])
    t = v.int("t", 0, k)
    v.assume(moves[path[t], path[t + 1]] <= total[k])
    # the costs are below the sentinel (section 2 of DESIGN.md)
    v.assume(moves[0, k] < b.big_M)
    v.holds("never backwards", path[t] <= path[t + 1])
    v.holds("every bin has the minimum number of instances", np.logical_or(path[t] == path[t + 1], v.opaque("held", path[t], path[t + 1]) >= m))
