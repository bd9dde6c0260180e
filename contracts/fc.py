"""Contracts of repository functions, used at their call sites by scenarios
that name them in uses=.  Each is itself verified against the function's body by
the scenarios named in its comment."""
import numpy as np
from vapi import contract
import spec
from effector.partitioning import Tree


@contract("effector.binning_methods.find_limits", pure=True)
def find_limits(v, data, data_effect, feature, axis_limits, binning_method):
    """verified by c11 (fixed, categorical), c12 (greedy), c13 (dp): either no
    limits, or strictly increasing limits that cover the feature of the data"""
    if v.fresh_bool("nolimits"):
        return v.obj("Bins", limits=False)
    k = v.fresh_size("nbins", 1)
    L = v.fresh_array("limits", (k + 1,))
    v.assume_increasing(L)
    v.assume(axis_limits[0, feature] < axis_limits[1, feature])     # c11, c12: none for a constant feature
    v.assume(np.all(data[:, feature] >= L[0]))
    v.assume(np.all(data[:, feature] <= L[k]))
    return v.obj("Bins", limits=L)


@contract("effector.utils.fill_nans")
def fill_nans(v, x):
    """verified by c05.fill_nans: defined values are kept"""
    r = v.fresh_array("filled", (x.shape[0],))
    return np.where(np.isnan(x), r, x)


@contract("effector.utils.compute_bin_variance")
def compute_bin_variance(v, xs, df_dxs, limits, bin_effect_mean):
    """no information about the result; the frame is verified by c05.bin_variance"""
    k = limits.shape[0] - 1
    return v.fresh_array("variance", (k,)), v.fresh_array("estvariance", (k,))


@contract("effector.utils.compute_local_effects")
def compute_local_effects(v, data, model, limits, feature):
    """verified by c05.local_effects: the effects of the bins of the nudged limits"""
    v.requires("the data lie within the limits", np.all(data[:, feature] >= limits[0]))
    v.requires("the data lie within the limits", np.all(data[:, feature] <= limits[-1]))
    limits[-1] = limits[-1] + 1e-8
    return spec.local_effects(model, data, feature, limits)


@contract("effector.utils.compute_accumulated_effect")
def compute_accumulated_effect(v, x, limits, bin_effect, dx, square):
    """verified by c09.accumulated"""
    v.requires("the widths are those of the bins", np.all(dx == limits[1:] - limits[:-1]))
    v.requires("the limits increase", np.all(limits[1:] > limits[:-1]))
    return spec.accumulated(x, limits, bin_effect)


@contract("effector.utils.compute_ale_params", pure=True)
def compute_ale_params(v, xs, df_dxs, limits):
    """verified by c05 (values), c07 (variances), c08 (filling): here only that
    the limits and widths are those given and the variances are not negative"""
    k = limits.shape[0] - 1
    e = v.fresh_array("bin_effect", (k,))
    var = v.fresh_array("bin_variance", (k,))
    est = v.fresh_array("bin_estimator_variance", (k,))
    p = v.fresh_array("points_per_bin", (k,), "i")
    v.assume(np.all(var >= 0))
    return {"limits": limits, "dx": limits[1:] - limits[:-1], "points_per_bin": p, "bin_effect": e, "bin_variance": var, "bin_estimator_variance": est}


@contract("effector.partitioning.Regions.search_all_splits")
def search_all_splits(v, self):
    """c20: only finds splits; which ones does not matter to the callers here"""
    return None


@contract("effector.partitioning.Regions.choose_important_splits")
def choose_important_splits(v, self):
    """c21: only selects among the splits found"""
    return None


@contract("effector.partitioning.Regions.splits_to_tree")
def splits_to_tree(v, self, only_important, scale_x_list):
    """verified by c19: a tree whose nodes hold the rows, and the effects of the
    same rows, that satisfy the conditions of the node (here: any subset of them)"""
    t = Tree()
    x, e = self.data, self.data_effect
    n = x.shape[0]
    t.add_node("root", None, data={"heterogeneity": v.fresh_real("heter"), "weight": 1.0, "nof_instances": n, "data": x, "data_effect": e}, level=0)
    if not hasattr(self, "ghost"):
        self.ghost = {}         # the splits found, as far as the callers see them
    if only_important not in self.ghost:
        self.ghost[only_important] = v.fresh_array("in_node", (n,), "b")
    m = self.ghost[only_important]
    v.assume(np.any(m))
    t.add_node("root | in", "root", data={"heterogeneity": v.fresh_real("heter"), "weight": v.fresh_real("weight"), "nof_instances": np.sum(m), "data": x[m, :],
               "data_effect": e[m, :] if e is not None else None}, level=1)
    return t


def bins_found(v, self):
    """bins as c11 (fixed, categorical), c12 (greedy) and c13 (dp) verify them"""
    if v.fresh_bool("nolimits"):
        return False
    k = v.fresh_size("nbins", 1)
    L = v.fresh_array("limits", (k + 1,))
    v.assume_increasing(L)
    v.assume(np.all(self.data[:, self.feature] >= L[0]))
    v.assume(np.all(self.data[:, self.feature] <= L[k]))
    return L


def search(v, self, settings):
    """which bins: a function of the data, the effects, the axis limits and every setting"""
    self.limits = v.pure((self.__class__.__name__, self.data, self.data_effect, self.feature, self.xs_min, self.xs_max) + settings, lambda: bins_found(v, self))
    return self.limits


@contract("effector.bin_splitting.Fixed.find")
def fixed_find(v, self, nof_bins, min_points, cat_limit):
    return search(v, self, (nof_bins, min_points, cat_limit))


@contract("effector.bin_splitting.Greedy.find")
def greedy_find(v, self, init_nof_bins, discount, min_points, cat_limit):
    return search(v, self, (init_nof_bins, discount, min_points, cat_limit))


@contract("effector.bin_splitting.DP.find")
def dp_find(v, self, max_nof_bins, min_points, discount, cat_limit):
    return search(v, self, (max_nof_bins, min_points, discount, cat_limit))


@contract("effector.bin_splitting.BinBase._bin_valid")
def bin_valid(v, self, start, stop):
    """verified by c12.bin_valid_and_cost; how many instances a bin holds is left open"""
    return v.opaque("held", start, stop) >= self.method_args["min_points"]


@contract("effector.bin_splitting.BinBase._bin_cost", pure=True)
def bin_cost(v, self, start, stop, discount):
    """some number, the same for the same bin; which one is verified by c12.bin_cost"""
    return v.fresh_real("cost", nan=True)


@contract("effector.bin_splitting.DP._cost_of_move")
def cost_of_move(v, self, index_before, index_next, K, discount):
    """verified by c13.cost_of_move; here any table of costs"""
    v.requires("the number of bins", K == self.method_args["max_nof_bins"])
    v.requires("the discount", discount == self.method_args["discount"])
    return self.moves[index_before, index_next]


@contract("effector.bin_splitting.DP._argmatrix_to_limits")
def argmatrix_to_limits(v, self, K):
    """verified by c13.dp_limits"""
    v.requires("the number of bins", K == self.method_args["max_nof_bins"])
    A = self.method_outputs["argmatrix"]
    v.requires("a row per limit", A.shape[0] == K + 1)
    v.requires("a column per bin", A.shape[1] == K)
    v.requires("the best move to every limit", np.all(np.array([[A[l, j] == self.best[l, j] for j in range(1, K)] for l in range(K + 1)])))
    k = v.fresh_size("closed", 1)
    self.found = v.fresh_array("found", (k + 1,))
    return self.found, self.found[1:] - self.found[:-1]


@contract("effector.bin_splitting.BinBase._bin_cost", pure=True)
def bin_cost_kind(v, self, start, stop, discount):
    """verified by c12.bin_valid_and_cost and c12.cost_sign: the sentinel with too
    few instances, undefined when empty, otherwise not negative"""
    h = v.opaque("held", start, stop)
    if h < self.method_args["min_points"]:
        return self.big_M
    if h == 0:
        return np.nan
    c = v.fresh_real("cost")
    v.assume(c >= 0)
    return c


@contract("effector.interaction.HIndex._pdp_1d", pure=True)
def h_pdp_1d(v, self, feature, x):
    """verified by c25.h_one; here some curve"""
    return v.fresh_array("pd", (x.shape[0],))


@contract("effector.interaction.HIndex._pdp_2d", pure=True)
def h_pdp_2d(v, self, feature1, feature2, x1, x2):
    """verified by c25.h_two; here some surface"""
    return v.fresh_array("pd2", (x1.shape[0],))


@contract("effector.interaction.HIndex._pdp_minus_1d", pure=True)
def h_pdp_minus(v, self, feature, x):
    """verified by c25.h_rest; here some values"""
    return v.fresh_array("pdrest", (x.shape[0],))
