"""Specification functions: what each effect IS, written from its definition.
Executed symbolically by the verifier and by CPython in the run-time check."""
import numpy as np


def inside(X, lims, s):
    """rows whose feature s lies within the axis limits, in order"""
    return X[np.logical_and(X[:, s] >= lims[0, s], X[:, s] <= lims[1, s])]


def moved(X, s, x):
    """X with feature s set to x"""
    Z = np.array(X, dtype=float)
    Z[:, s] = x
    return Z


def ice(f, X, s, xs):
    """(T, N): f at X[i] with feature s replaced by xs[t]"""
    T = len(xs)
    rows = []
    for t in range(T):
        rows.append(f(moved(X, s, xs[t])))
    return np.array(rows)


def dice_jac(J, X, s, xs):
    """(T, N): the s-th partial derivative at X[i] with feature s replaced by xs[t]"""
    T = len(xs)
    rows = []
    for t in range(T):
        rows.append(J(moved(X, s, xs[t]))[:, s])
    return np.array(rows)


def dice_num(f, X, s, xs):
    """(T, N): central difference of f in feature s at xs[t]"""
    T = len(xs)
    rows = []
    for t in range(T):
        rows.append((f(moved(X, s, xs[t] + 1e-6)) - f(moved(X, s, xs[t] - 1e-6))) / (2 * 1e-6))
    return np.array(rows)


def pstd(I):
    """population standard deviation along axis 1"""
    m = np.mean(I, axis=1)
    return np.sqrt(np.mean((I - m[:, np.newaxis]) ** 2, axis=1))


def grid(a, b, k):
    """k uniform points from a to b (both included)"""
    return np.linspace(a, b, k)


# ---------------------------------------------------------------- ALE / RHALE
def in_bin(x, L, k):
    """which of x fall in bin k of limits L: left end included, right end only in
    the last bin (with the library's tolerance of 1e-8 for limits computed in floating point)"""
    last = L.shape[0] - 2
    return np.logical_and(x >= L[k], np.logical_or(x < L[k + 1], np.logical_and(k == last, x <= L[k + 1] + 1e-8)))


def bin_count(x, L, k):
    return np.sum(in_bin(x, L, k))


def ale_bin(f, U, s, L, k):
    """local ALE effects of the rows of U in bin k"""
    V = U[in_bin(U[:, s], L, k)]
    return (f(moved(V, s, L[k + 1])) - f(moved(V, s, L[k]))) / (L[k + 1] - L[k])


def inside_of(E, X, lims, s):
    """the rows of E that belong to the rows of X inside the axis limits of feature s"""
    return E[np.logical_and(X[:, s] >= lims[0, s], X[:, s] <= lims[1, s])]


def forward(f, X, s):
    """forward difference of f in feature s with step 1e-8"""
    Z = np.array(X, dtype=float)
    Z[:, s] = Z[:, s] + 1e-8
    return (f(Z) - f(np.array(X, dtype=float))) / 1e-8


def bin_of(x, L):
    """index of the bin of each of x"""
    K = L.shape[0] - 1
    return np.minimum(np.digitize(x, L), K) - 1


def local_effects(f, U, s, L):
    """local ALE effect of every row of U: the change of f across its bin, per unit"""
    b = bin_of(U[:, s], L)
    return (f(moved(U, s, L[b + 1])) - f(moved(U, s, L[b]))) / (L[b + 1] - L[b])


def filled(values, defined):
    """values of the undefined bins by linear interpolation over bin index"""
    K = len(values)
    out = []
    for j in range(K):
        left = [i for i in range(j + 1) if defined[i]]
        right = [i for i in range(j, K) if defined[i]]
        if not left:
            out.append(values[right[0]])
        elif not right or left[-1] == right[0]:
            out.append(values[left[-1]])
        else:
            a, b = left[-1], right[0]
            out.append(values[a] + (values[b] - values[a]) * (j - a) / (b - a))
    return np.array(out)


def accumulated(x, L, be):
    """at every x: sum over bins of the bin effect times the length of the part of the bin left of x"""
    K = L.shape[0] - 1
    over = np.minimum(np.maximum(x[:, np.newaxis] - L[:K], 0), L[1:] - L[:K])
    return np.sum(over * be, axis=1)


# ---------------------------------------------------------------- bins
def held(x, a, b):
    """how many of x lie in [a, b] (both ends counted)"""
    return np.sum(np.logical_and(x >= a, x <= b))


def category_limits(u):
    """one bin around each of the distinct values u: midpoints between consecutive
    values, the outer limits as far from the end values as the next midpoint is"""
    m = u.shape[0]
    mid = (u[1:] + u[:m - 1]) / 2
    return np.concatenate([[u[0] - (u[1] - u[0]) / 2], mid, [u[m - 1] + (u[m - 1] - u[m - 2]) / 2]])


def cost_of(x, e, a, b, m, discount):
    """cost of the bin [a, b]: variance of its effects times its width times the
    discount for the share of instances in it; impossible below the minimum"""
    inb = np.logical_and(x >= a, x <= b)
    c = np.sum(inb)
    if c < m:
        return 1e8
    eb = e[inb]
    return np.var(eb) * (b - a) * (1 - discount * (c / len(x)))
