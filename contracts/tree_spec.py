"""What a region tree is (used by the contracts of C19-C23)."""
import numpy as np

BIG = 1e8       # the library's marker for "not computable"


def side(x, f, pos, op):
    c = x[:, f]
    return {"==": c == pos, "!=": c != pos, "<=": c <= pos, ">": c > pos}[op]


def levels(tree):
    """the nodes, level by level, in the order in which they were added"""
    top = max(n.level for n in tree.nodes)
    return [[n for n in tree.nodes if n.level == k] for k in range(top + 1)]


def label_ok(name, parent, first, foc_name, op, pos):
    """parent label, separator, condition with the position rounded to two decimals"""
    head = parent + (" | " if first else " and ")
    if not name.startswith(head):
        return False
    cond = name[len(head):]
    if not cond.startswith(foc_name + " "):
        return False
    words = cond[len(foc_name):].split()
    if len(words) != 2 or words[0] != op:
        return False
    p = float(words[1])
    return abs(p - round(p, 2)) < 1e-9 * max(1, abs(p)) and abs(p - pos) <= 0.005 + 1e-9 * max(1, abs(pos))


def check_structure(v, tree, X, E, s, names, scale=None):
    """C19"""
    L = levels(tree)
    v.equal("one root", len(L[0]), 1)
    root = L[0][0]
    v.holds("root has no parent", root.parent_node is None)
    v.equal("root label", root.name, names[s])
    v.equal("root holds all instances", root.data["data"], X)
    v.equal("node numbers", [n.idx for n in tree.nodes], list(range(len(tree.nodes))))
    for k, lev in enumerate(L):
        v.equal("nodes per level", len(lev), 2 ** k)
        for n in lev:
            x = n.data["data"]
            if E is not None:
                v.equal("instance effects: one row per instance", n.data["data_effect"].shape[0], x.shape[0])
            else:
                v.holds("no instance effects", n.data["data_effect"] is None)
            v.equal("count", n.nof_instances, x.shape[0])
            v.equal("count in the data", n.data["nof_instances"], x.shape[0])
            v.equal("weight", n.weight, x.shape[0] / X.shape[0])
    if E is not None:
        v.equal("root holds all effects", root.data["data_effect"], E)
    for k, lev in enumerate(L[:-1]):
        nxt = L[k + 1]
        v.equal("one split per level", len({(n.foc, float(n.foc_position), n.foc_type) for n in nxt}), 1)
        for i, p in enumerate(lev):
            ch = [n for n in nxt if n.parent_node is p]
            v.equal("two children", len(ch), 2)
            a, b = ch
            want = ("==", "!=") if a.foc_type == "cat" else ("<=", ">")
            v.equal("comparisons of the children", (a.comparison, b.comparison), want)
            for n in ch:
                m = side(p.data["data"], n.foc, n.foc_position, n.comparison)
                v.equal("instances of a node", n.data["data"], p.data["data"][m])
                if E is not None:
                    v.equal("effects of a node", n.data["data_effect"], p.data["data_effect"][m])
                pos = n.foc_position
                if scale is not None:
                    pos = pos * scale[n.foc]["std"] + scale[n.foc]["mean"]
                v.holds("label", label_ok(n.name, p.name, k == 0, names[n.foc], n.comparison, pos))


def candidates(X, foc, types, k):
    """(feature, position, type) of every candidate split, in order"""
    out = []
    for f in foc:
        if types[f] == "cat":
            out += [(f, p, "cat") for p in np.unique(X[:, f])]
        else:
            lo, hi = X[:, f].min(), X[:, f].max()
            out += [(f, lo + (i + 0.5) * (hi - lo) / k, "cont") for i in range(k)]
    return out


def split(parts, f, pos, typ):
    """two children of each part, in order; a part is (instances, effects or None)"""
    out = []
    for x, e in parts:
        for op in (("==", "!=") if typ == "cat" else ("<=", ">")):
            m = side(x, f, pos, op)
            out.append((x[m], None if e is None else e[m]))
    return out


def on_edge(X, f, pos, typ):
    """is an instance within rounding of a computed split position?"""
    return typ != "cat" and np.any(np.abs(X[:, f] - pos) <= 1e-9 * max(1.0, float(np.max(np.abs(X[:, f])))))


def weights(parts):
    c = np.array([len(x) + 1 for x, e in parts])
    return c / np.sum(c)


def check_search(v, tree, X, E, foc, types, k, heter, depth, min_points):
    """C20: heterogeneities, and the best candidate at every level"""
    L = levels(tree)
    parts = [(X, E)]
    h = [heter(X, E)]
    v.close("heterogeneity of the root", L[0][0].heterogeneity, h[0], rtol=1e-6, atol=1e-9)
    for lev in range(1, len(L)):
        nodes = L[lev]
        f, pos, typ = nodes[0].foc, nodes[0].foc_position, nodes[0].foc_type
        cs = candidates(X, foc, types, k)
        mine = [i for i, c in enumerate(cs) if c[0] == f and c[2] == typ and abs(c[1] - pos) <= 1e-9 * max(1, abs(pos))]
        v.holds("the split applied is a candidate", len(mine) > 0)
        drops, sizes, keys = [], [], []
        for g, p, t in cs:
            if on_edge(X, g, p, t) and g != f:
                # an instance sits on the computed position to rounding: the two sides are not determined
                drops.append(-np.inf)
                sizes.append(1.0)
                keys.append(None)
                continue
            if on_edge(X, g, p, t):
                p = pos if (g, t) == (f, typ) and abs(p - pos) <= 1e-9 * max(1, abs(pos)) else p
            ch = split(parts, g, p, t)
            hh = np.array([heter(x, e) for x, e in ch])
            w = weights(ch)
            drops.append(float(np.sum(w * (np.repeat(h, 2) - hh))))
            sizes.append(float(np.max(np.abs(hh)) + np.max(np.abs(h))))
            keys.append((tuple(hh), tuple(len(x) for x, e in ch)))
        j = mine[0]
        best = int(np.argmax(drops))
        tol = 1e-9 * max(sizes[j], sizes[best], 1e-3)
        v.holds("the split applied has the largest weighted heterogeneity drop", drops[j] >= drops[best] - tol)
        if len(mine) == 1 and keys[j] is not None:
            v.holds("the first of equally good candidates", keys[j] not in keys[:j])
        ch = split(parts, f, pos, typ)
        hh = [heter(x, e) for x, e in ch]
        v.equal("counts reported for the split", [n.nof_instances for n in nodes], [len(x) for x, e in ch])
        v.close("heterogeneities reported for the split", np.array([n.heterogeneity for n in nodes]), np.array(hh), rtol=1e-6, atol=1e-9)
        for n in nodes:
            v.close("range of the split feature", np.array(n.data["range"], dtype=float), np.array([X[:, f].min(), X[:, f].max()], dtype=float), rtol=1e-9, atol=1e-9)
            v.close("candidate positions", np.array(n.data["candidate_split_positions"], dtype=float), np.array([c[1] for c in cs if c[0] == f], dtype=float), rtol=1e-9, atol=1e-9)
        parts, h = ch, hh


def level_heter(tree):
    """weighted heterogeneity of every level, from the nodes"""
    out = []
    for lev in levels(tree):
        c = np.array([n.nof_instances + 1 for n in lev])
        out.append(float(np.sum(c / np.sum(c) * np.array([n.heterogeneity for n in lev]))))
    return out


def check_depth(v, tree, depth, min_points):
    """C21: levels searched"""
    want, L = 0, levels(tree)
    for lev in L:
        if want == depth or any(n.nof_instances < min_points for n in lev):
            break
        want += 1
    v.equal("levels searched", len(L) - 1, want)


def check_pruned(v, full, pruned, thr, small, exact=False):
    """C21: the leading run of important splits"""
    H = level_heter(full)
    close = 1e-9
    if H[0] == BIG or H[0] < small:
        keep = 0
    else:
        v.assume(H[0] == small or abs(H[0] - small) > close * max(1.0, H[0]))
        keep = 0
        while keep + 1 < len(H) and H[keep] > 0:
            rel = (H[keep] - H[keep + 1]) / H[keep]
            v.assume(exact or abs(rel - thr) > close * max(1.0, abs(rel)))
            if not rel > thr:
                break
            keep += 1
    v.equal("important splits kept", len(levels(pruned)) - 1, keep)
    A = [n for n in full.nodes if n.level <= keep]
    v.equal("nodes of the pruned tree", [n.name for n in pruned.nodes], [n.name for n in A])
    for a, b in zip(A, pruned.nodes):
        v.equal("node number", b.idx, a.idx)
        v.equal("level", b.level, a.level)
        v.equal("heterogeneity", b.heterogeneity, a.heterogeneity)
        v.equal("weight", b.weight, a.weight)
        v.equal("count", b.nof_instances, a.nof_instances)
        v.equal("instances", b.data["data"], a.data["data"])
