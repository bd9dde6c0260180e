"""Invariants of loops of the repository that no closed form describes."""
import numpy as np
from vapi import invariant
import spec


# ------------------------------------------------------------ Greedy.find
@invariant("effector.bin_splitting.Greedy.find", 0, "i:int merged_limits:list limits:array+")
def greedy_holds(v, x, g):
    m = len(g["idx"])
    idx = g["idx"]
    n = x.init_nof_bins
    G = x.limits
    return [("0 <= i <= n", np.logical_and(0 <= x.i, x.i <= n)),
            ("one limit per closed bin", len(x.merged_limits) == m),
            ("starts at the left end", idx[0] == 0),
            ("indices of the grid", np.all(np.logical_and(idx >= 0, idx <= x.i))),
            ("limits are grid points", np.all(np.array([x.merged_limits[j] == G[idx[j]] for j in range(m)]))),
            ("increasing", np.all(idx[1:] > idx[:m - 1])),
            ("a bin is closed at the right end", np.logical_or(x.i < n, m >= 2)),
            ("ends at the right end", np.logical_or(x.i < n, idx[m - 1] == n)),
            ("closed bins, but the last, hold enough instances",
             np.all(np.array([np.logical_or(np.logical_and(x.i == n, j == m - 2), v.opaque("held", G[idx[j]], G[idx[j + 1]]) >= x.min_points) for j in range(m - 1)])))]


def greedy_entry(v, x):
    """the grid, which the loop does not write"""
    n = x.init_nof_bins
    return [("the grid", np.all(x.limits == spec.grid(x.self.xs_min, x.self.xs_max, n + 1))),
            ("the grid increases", np.all(x.limits[1:] > x.limits[:-1])),
            ("left end", x.limits[0] == x.self.xs_min),
            ("right end", x.limits[n] == x.self.xs_max)]


def greedy_start(v, x):
    return {"idx": np.zeros(1, dtype=int)}


def greedy_state(v, x):
    """any increasing grid with those ends, any closed bins"""
    m = v.fresh_size("closed", 1)
    idx = v.fresh_array("idx", (m,), "i")
    n = x.init_nof_bins
    v.assume(np.all(np.logical_and(idx >= 0, idx <= n)))
    G = v.fresh_array("grid", (n + 1,))
    v.assume_increasing(G)
    v.assume(G[0] == x.self.xs_min)
    v.assume(G[n] == x.self.xs_max)
    return {"i": v.fresh_int("i", 0, n), "merged_limits": [G[idx[j]] for j in range(m)], "limits": G}, {"idx": idx, "grid": G}


def greedy_step(v, x, g, y):
    """ghosts after the iteration; the iteration closes a bin as the rule says"""
    idx = g["idx"]
    v.holds("the loop comes to an end", y.i == x.i + 1)
    closed = len(y.merged_limits) > len(x.merged_limits)
    G = x.limits
    if x.i < x.init_nof_bins - 1:
        a = G[idx[len(idx) - 1]]
        both = np.logical_and(v.opaque("held", a, G[x.i + 1]) >= x.min_points, v.opaque("held", a, G[x.i + 2]) >= x.min_points)
        c1, c2 = x.self._bin_cost(a, G[x.i + 1], x.discount), x.self._bin_cost(a, G[x.i + 2], x.discount)
        v.assume(not np.isnan(c1) and not np.isnan(c2))
        v.holds("a bin is closed where merging the next cell raises the cost", closed == (np.logical_and(both, c2 > c1)))
    else:
        v.holds("the last bin is closed", closed)
    return {"idx": np.concatenate([idx, [y.i]]) if closed else idx, "grid": G}


# ------------------------------------------------------------ DP.find
@invariant("effector.bin_splitting.DP.find", 1, "bin_index:int matrix:array argmatrix:array")
def table_holds(v, x, g):
    n = x.max_nof_bins
    b = x.self
    return [("1 <= bin_index <= n", np.logical_and(1 <= x.bin_index, x.bin_index <= n)),
            ("shape of the costs", x.matrix.shape[0] == n + 1 and x.matrix.shape[1] == n),
            ("shape of the moves", x.argmatrix.shape[0] == n + 1 and x.argmatrix.shape[1] == n),
            ("least costs", np.all(np.array([[x.matrix[l, j] == b.least[l, j] for j in range(x.bin_index)] for l in range(n + 1)]))),
            ("best moves", np.all(np.array([[x.argmatrix[l, j] == b.best[l, j] for j in range(1, x.bin_index)] for l in range(n + 1)])))]


def table_start(v, x):
    return {}


def table_state(v, x):
    n = x.max_nof_bins
    b = x.self
    i = v.fresh_int("bin", 1, n)
    M = v.fresh_array("matrix", (n + 1, n))
    A = v.fresh_array("argmatrix", (n + 1, n))
    return {"bin_index": i,
            "matrix": np.array([[b.least[l, j] if j < i else M[l, j] for j in range(n)] for l in range(n + 1)]),
            "argmatrix": np.array([[b.best[l, j] if 1 <= j and j < i else A[l, j] for j in range(n)] for l in range(n + 1)])}, {}


def table_step(v, x, g, y):
    return {}


# ------------------------------------------------------------ DP._argmatrix_to_limits
@invariant("effector.bin_splitting.DP._argmatrix_to_limits", 0, "j:int lim_indices:list")
def back_holds(v, x, g):
    n, p = x.K, x.self.path
    return [("0 <= j <= n - 2", np.logical_and(0 <= x.j, x.j <= n - 2)),
            ("one limit per column", len(x.lim_indices) == n - 1 - x.j),
            ("the best moves backwards", np.all(np.array([x.lim_indices[t] == p[n - 1 - t] for t in range(n - 1 - x.j)])))]


def back_start(v, x):
    return {}


def back_state(v, x):
    j = v.fresh_int("column", 0, x.K - 2)
    return {"j": j, "lim_indices": [x.self.path[x.K - 1 - t] for t in range(x.K - 1 - j)]}, {}


def back_step(v, x, g, y):
    return {}


@invariant("effector.bin_splitting.DP._argmatrix_to_limits", 1, "i:int lim_indices_1:list before:any")
def distinct_holds(v, x, g):
    n, p = x.K, x.self.path
    idx, m = g["idx"], len(g["idx"])
    L = x.lim_indices_1
    out = [("0 <= i <= n + 1", np.logical_and(0 <= x.i, x.i <= n + 1)),
           ("limits kept", len(L) == m)]
    if m == 0:
        return out + [("none only before the first", x.i == 0),
                      ("nothing before the first", np.isnan(x.before))]
    return out + [("some after the first", x.i > 0),
                  ("the last one seen", x.before == p[x.i - 1]),
                  ("kept limits are limits", np.all(np.array([L[u] == p[idx[u]] for u in range(m)]))),
                  ("the first is kept", idx[0] == 0),
                  ("positions", np.all(np.logical_and(idx >= 0, idx < x.i))),
                  ("kept in order", np.all(np.array([idx[u - 1] < idx[u] for u in range(1, m)]))),
                  ("a kept limit differs from the one before", np.all(np.array([p[idx[u] - 1] != p[idx[u]] for u in range(1, m)]))),
                  ("dropped limits are repetitions", np.all(np.array([p[idx[u] - 1] == p[idx[u - 1]] for u in range(1, m)]))),
                  ("the last kept limit", p[idx[m - 1]] == p[x.i - 1]),
                  ("cost of the bins so far", g["cost"] == x.self.total[x.i - 1])]


def distinct_start(v, x):
    return {"idx": np.zeros(0, dtype=int), "cost": 0.0}


def distinct_state(v, x):
    n, p = x.K, x.self.path
    i = v.fresh_int("seen", 0, n + 1)
    if i == 0:
        return {"i": i, "lim_indices_1": [], "before": np.nan}, distinct_start(v, x)
    m = v.fresh_size("kept", 1)
    idx = v.fresh_array("idx", (m,), "i")
    v.assume(np.all(np.logical_and(idx >= 0, idx < i)))
    return {"i": i, "lim_indices_1": [p[idx[u]] for u in range(m)], "before": p[i - 1]}, {"idx": idx, "cost": v.fresh_real("cost")}


def distinct_step(v, x, g, y):
    """ghosts after the iteration: the positions kept, the cost of the bins between them"""
    m, p = len(g["idx"]), x.self.path
    if len(y.lim_indices_1) == m:
        return g
    if m == 0:
        return {"idx": np.concatenate([g["idx"], [x.i]]), "cost": 0.0}
    return {"idx": np.concatenate([g["idx"], [x.i]]), "cost": g["cost"] + x.self.moves[y.lim_indices_1[m - 1], y.lim_indices_1[m]]}
