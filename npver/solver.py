"""Discharging obligations: ground instantiation of the axioms of atoms and of
quantified hypotheses, decided by z3 (QF, UF + linear arithmetic, nonlinear
monomials first uninterpreted and then interpreted)."""
import time
import itertools
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T, TRUE, FALSE, and_, or_, not_, implies, eq, le, lt, ge, gt, I, R

STATS = {"queries": 0, "z3_time": 0.0, "z3_checks": 0, "syntactic": 0, "insts": 0}
Z3_TIMEOUT = 4000
DEADLINE = [None]


class Hyp:
    """forall hypothesis: vars range over index terms that occur as arguments
    of the UFs named in `trig`."""
    _c = itertools.count()

    def __init__(self, nvars, fn, trig, sort="I"):
        self.nvars = nvars
        self.fn = fn
        self.trig = set(trig)
        self.id = next(Hyp._c)
        self.sort = sort


class Z3Conv:
    def __init__(self, nl):
        self.nl = nl
        self.memo = {}
        self.decls = {}
        self.mulR = z3.Function("mulR", z3.RealSort(), z3.RealSort(), z3.RealSort())
        self.mulI = z3.Function("mulI", z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.INV = z3.Function("INV", z3.RealSort(), z3.RealSort())
        self.SQRT = z3.Function("SQRT", z3.RealSort(), z3.RealSort())
        self.polymuls = {}

    def sort(self, s):
        return {"B": z3.BoolSort(), "I": z3.IntSort(), "R": z3.RealSort()}[s]

    def decl(self, name, argsorts, s):
        k = (name, argsorts, s)
        d = self.decls.get(k)
        if d is None:
            d = z3.Function(name + "/" + "".join(argsorts) + s, *[self.sort(a) for a in argsorts], self.sort(s))
            self.decls[k] = d
        return d

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            # iterative post-order to avoid deep recursion
            st = [t]
            while st:
                x = st[-1]
                if x in self.memo:
                    st.pop()
                    continue
                ch = [c for c in tm.children(x) if c not in self.memo]
                if ch:
                    st.extend(ch)
                else:
                    self.memo[x] = self.conv(x)
                    st.pop()
            r = self.memo[t]
        return r

    def conv(self, t):
        op = t.op
        M = self.memo
        if op == "c":
            v = t.args[0]
            if t.sort == "B":
                return z3.BoolVal(v)
            if t.sort == "I":
                return z3.IntVal(v)
            return z3.RealVal(v)
        if op == "v":
            return z3.Const(t.args[0], self.sort(t.sort))
        if op == "uf":
            a = t.args[1:]
            if not a:
                return z3.Const(t.args[0], self.sort(t.sort))
            return self.decl(t.args[0], tuple(x.sort for x in a), t.sort)(*[M[x] for x in a])
        if op == "atom":
            d, a = t.args
            if not a:
                return z3.Const(d.name, self.sort(t.sort))
            return self.decl(d.name, tuple(x.sort for x in a), t.sort)(*[M[x] for x in a])
        if op == "poly":
            tot = None
            pm = []
            for m, c in t.args:
                z = None
                conds = []
                rest = []
                for f in m:
                    if f.op == "ite" and tm._is01(f):
                        cnd = M[f.args[0]]
                        conds.append(cnd if f.args[1].args[0] == 1 else z3.Not(cnd))
                    else:
                        rest.append(M[f])
                fs = rest
                if fs:
                    z = fs[0]
                    for f in fs[1:]:
                        if self.nl:
                            z = z * f
                        else:
                            fn = self.mulR if t.sort == "R" else self.mulI
                            z0 = z
                            z = fn(z0, f)
                            pm.append((z, z0, f))
                cv = z3.RealVal(c) if t.sort == "R" else z3.IntVal(int(c))
                z = cv if z is None else (z if c == 1 else cv * z)
                if conds:
                    z = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], z, z3.RealVal(0) if t.sort == "R" else z3.IntVal(0))
                tot = z if tot is None else tot + z
            if pm:
                self.polymuls[t] = pm
            return tot
        a = [M[x] for x in t.args]
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "not":
            return z3.Not(a[0])
        if op == "iff":
            return a[0] == a[1]
        if op == "le0":
            return a[0] <= 0
        if op == "lt0":
            return a[0] < 0
        if op == "eq0":
            return a[0] == 0
        if op == "toR":
            return z3.ToReal(a[0])
        if op == "floor":
            return z3.ToInt(a[0])
        if op == "inv":
            return self.INV(a[0])
        if op == "sqrt":
            return self.SQRT(a[0])
        if op == "idiv":
            return a[0] / a[1]
        if op == "imod":
            return a[0] % a[1]
        raise NotImplementedError(op)


def inrange(ws, sizes):
    return and_(*[and_(ge(w, 0), lt(w, s)) for w, s in zip(ws, sizes)])


_sk = {}


def skolems(key, binders):
    r = _sk.get(key)
    if r is None:
        r = [tm.fresh("w", b.sort, True) for b in binders]
        _sk[key] = r
    return r


def _nonneg_body(b):
    """syntactically nonnegative product"""
    if b.op == "c":
        return b.args[0] >= 0
    if tm._is01(b):
        return True
    if b.op == "poly" and len(b.args) == 1:
        (m, c) = b.args[0]
        if c < 0:
            return False
        from collections import Counter
        for f, k in Counter(m).items():
            if k % 2 and not tm._is01(f):
                return False
        return True
    return False


def _pure01(b):
    if tm._is01(b):
        return True
    if b.op == "poly" and len(b.args) == 1:
        m, c = b.args[0]
        return c == 1 and all(tm._is01(f) for f in m)
    return False


def unit_axioms(t):
    """axioms of a single atom application, independent of the query"""
    d, ps = t.args
    k = d.kind
    out = []
    if k == "sum":
        sizes, mask, bodies, extras = d.inst(ps)
        n = sizes[0]
        out.append(implies(le(n, 0), eq(t, 0)))
        if _nonneg_body(d.bodies[0]):
            out.append(ge(t, 0))
        if _pure01(d.bodies[0]):
            out.append(implies(ge(n, 0), le(t, n)))
            w = skolems((t, "pos"), d.binders)
            s, m, b, e = d.inst(ps, w)
            out.append(implies(gt(t, 0), and_(inrange(w, s), eq(b[0], 1))))
            w2 = skolems((t, "neg"), d.binders)
            s, m, b, e = d.inst(ps, w2)
            out.append(implies(lt(t, n), and_(inrange(w2, s), eq(b[0], 0))))
        elif _nonneg_body(d.bodies[0]):
            w = skolems((t, "pos"), d.binders)
            s, m, b, e = d.inst(ps, w)
            out.append(implies(gt(t, 0), and_(inrange(w, s), gt(b[0], 0))))
        else:
            w = skolems((t, "sgn"), d.binders)
            s, m, b, e = d.inst(ps, w)
            out.append(implies(lt(t, 0), and_(inrange(w, s), lt(b[0], 0))))
            w = skolems((t, "sgp"), d.binders)
            s, m, b, e = d.inst(ps, w)
            out.append(implies(gt(t, 0), and_(inrange(w, s), gt(b[0], 0))))
    elif k == "all":
        w = skolems((t, "cex"), d.binders)
        s, m, b, e = d.inst(ps, w)
        out.append(or_(t, and_(inrange(w, s), m, not_(b[0]))))
    elif k == "dig":
        s, m, b, e = d.inst(ps)
        n, x = s[0], e[0]
        out.append(and_(ge(t, 0), implies(ge(n, 0), le(t, n))))
        _, _, lo, _ = d.inst(ps, [tm.sub(t, 1)])
        _, _, hi, _ = d.inst(ps, [t])
        if len(e) > 1 and e[1] is TRUE:      # right=True
            out.append(implies(ge(t, 1), lt(lo[0], x)))
            out.append(implies(lt(t, n), le(x, hi[0])))
        else:
            out.append(implies(ge(t, 1), le(lo[0], x)))
            out.append(implies(lt(t, n), lt(x, hi[0])))
    elif k == "sel":
        s, m, b, e = d.inst(ps, [t])
        s0, _, _, e0 = d.inst(ps)
        cnt = tm.Count(s0[0], lambda i: d.inst(ps, [i])[1])
        rank = tm.Count(t, lambda i: d.inst(ps, [i])[1])
        out.append(implies(and_(ge(e0[0], 0), lt(e0[0], cnt)),
                           and_(ge(t, 0), lt(t, s0[0]), m, eq(rank, e0[0]))))
    elif k == "sortperm":
        s, m, b, e = d.inst(ps)
        n, kk = s[0], e[0]
        out.append(implies(and_(ge(kk, 0), lt(kk, n)), and_(ge(t, 0), lt(t, n))))
    elif k == "nuniq":
        s, m, b, e = d.inst(ps)
        out.append(and_(ge(t, 0), implies(ge(s[0], 0), le(t, s[0])), implies(ge(s[0], 1), ge(t, 1))))
    elif k == "uniq":      # extras[0] = k : value of the k-th smallest distinct element
        s, m, b, e = d.inst(ps)
        n, kk = s[0], e[0]
        cnt = nuniq_of(d, ps)
        w = skolems((t, "uw"), d.binders)
        sw, mw, bw, _ = d.inst(ps, w)
        out.append(implies(and_(ge(kk, 0), lt(kk, cnt)), and_(inrange(w, sw), mw, eq(bw[0], t))))
    elif k == "urank":     # extras[0] = x : position of x among the distinct elements
        s, m, b, e = d.inst(ps)
        x = e[0]
        cnt = nuniq_of(d, ps)
        nm = dict(zip(d.params, ps))
        u = like(d, ps, "uniq", x.sort, [t])
        out.append(implies(and_(ge(t, 0), lt(t, cnt)), eq(u, x)))
    return out


def factor_axioms(t):
    """signs of a real polynomial, or of part of it, all of whose monomials share a factor"""
    if t.sort != "R" or len(t.args) < 2:
        return []
    from collections import Counter
    groups = [list(t.args)]
    invs = []
    for m, c in t.args:
        for f in m:
            if f.op == "inv" and f not in invs:
                invs.append(f)
    for f in invs:
        g = [(m, c) for m, c in t.args if f in m]
        if 2 <= len(g) < len(t.args):
            groups.append(g)
    out = []
    for g in groups:
        com = None
        for m, c in g:
            k = Counter(m)
            com = k if com is None else com & k
        if not com:
            continue
        F = tuple(sorted(com.elements(), key=lambda f: f.id))
        Fp = tm._frompoly({F: Fraction(1)}, "R")
        q = {}
        for m, c in g:
            q[tuple(sorted((Counter(m) - com).elements(), key=lambda f: f.id))] = c
        q = tm._frompoly(q, "R")
        gp = t if len(g) == len(t.args) else tm._frompoly(dict(g), "R")
        pos = or_(and_(gt(Fp, 0), gt(q, 0)), and_(lt(Fp, 0), lt(q, 0)))
        neg = or_(and_(gt(Fp, 0), lt(q, 0)), and_(lt(Fp, 0), gt(q, 0)))
        out += [tm.iff(gt(gp, 0), pos), tm.iff(lt(gp, 0), neg)]
    return out


def like(d, ps, kind, sort, extras):
    """the atom of another kind over the same family"""
    nm = dict(zip(d.params, ps))
    s = [tm.subst(x, nm) for x in d.sizes]
    v = tm.fresh("i", "I", True)
    nm2 = dict(nm)
    nm2[d.binders[0]] = v
    return tm.mk_atom(kind, sort, [v], s, tm.subst(d.mask, nm2), [tm.subst(b, nm2) for b in d.bodies], extras)


def nuniq_of(d, ps):
    nm = dict(zip(d.params, ps))
    s = [tm.subst(x, nm) for x in d.sizes]
    v = tm.fresh("i", "I", True)
    nm2 = dict(nm)
    nm2[d.binders[0]] = v
    return tm.mk_atom("nuniq", "I", [v], s, tm.subst(d.mask, nm2), [tm.subst(b, nm2) for b in d.bodies])


def inst_axioms_at(t, ws):
    """axioms of one atom application instantiated at index terms ws"""
    d, ps = t.args
    k = d.kind
    out = []
    s, m, b, e = d.inst(ps, ws)
    if k == "all":
        out.append(implies(and_(t, inrange(ws, s), m), b[0]))
    elif k in ("argmin", "argmax"):
        s2, m2, b2, e2 = d.inst(ps, [t])
        if k == "argmin":
            better, strict = le(b2[0], b[0]), lt(b2[0], b[0])
        else:
            better, strict = ge(b2[0], b[0]), gt(b2[0], b[0])
        out.append(implies(and_(inrange(ws, s), m), and_(inrange([t], s2), m2, better, implies(lt(ws[0], t), strict))))
    elif k == "first":
        s2, m2, b2, e2 = d.inst(ps, [t])
        out.append(implies(and_(inrange(ws, s), m), and_(inrange([t], s2), m2, le(t, ws[0]))))
    elif k == "nuniq":
        r = like(d, ps, "urank", "I", [b[0]])
        u = like(d, ps, "uniq", b[0].sort, [r])
        out.append(implies(and_(inrange(ws, s), m), and_(ge(r, 0), lt(r, t), eq(u, b[0]))))
    elif k == "sum" and _nonneg_body(d.bodies[0]):
        out.append(implies(inrange(ws, s), ge(t, b[0])))
        if _pure01(d.bodies[0]):
            out.append(implies(inrange(ws, s), le(t, tm.sub(tm.add(s[0], b[0]), 1))))
    return out


_OFFV = tm.var("$off", "I", True)


def offsets(t):
    """constants o such that the body reads something at index  binder + o"""
    d, ps = t.args
    if d.binders[0].sort != "I":
        return []
    _, m, b, _ = d.inst(ps, [_OFFV])
    out = {}
    for x in tm.subterms([m] + b):
        if x.op == "uf":
            args = x.args[1:]
        elif x.op == "atom":
            args = x.args[1]
        else:
            continue
        for a in args:
            if a.sort == "I" and a.op == "poly":
                pd = tm._polyd(a)
                if pd.get((_OFFV,)) == 1:
                    o = tm.sub(a, _OFFV)
                    if not tm.contains(o, _OFFV):
                        out[o] = 1
    return list(out)[:4]


def tuples(binders, cands):
    ls = [[c for c in cands if c.sort == b.sort] for b in binders]
    return list(itertools.product(*ls))


def pair_axioms(t, u):
    """extensionality between two atom applications of the same kind"""
    d, ps = t.args
    e, qs = u.args
    if d.kind != e.kind or d.sort != e.sort or len(d.binders) != len(e.binders) or len(d.bodies) != len(e.bodies) or len(d.extras) != len(e.extras):
        return []
    if any(x.sort != y.sort for x, y in zip(d.binders, e.binders)):
        return []
    if any((x.sort == "B") != (y.sort == "B") for x, y in zip(list(d.bodies) + list(d.extras), list(e.bodies) + list(e.extras))):
        return []
    key = (t, u) if t.id < u.id else (u, t)
    w = skolems(("ext",) + key, d.binders)
    s1, m1, b1, e1 = d.inst(ps, w)
    s2, m2, b2, e2 = e.inst(qs, w)
    same = and_(*([eq(x, y) for x, y in zip(s1, s2)] + [eq(x, y) for x, y in zip(e1, e2)]))
    diff = or_(tm.not_(tm.iff(m1, m2)), and_(m1, or_(*[tm.ne(x, y) for x, y in zip(b1, b2)])))
    out = [or_(eq(t, u), not_(same), and_(inrange(w, s1), diff))]
    if d.kind == "uniq":      # distinct elements are listed in increasing order
        n1, n2 = like(d, ps, "nuniq", "I", []), like(e, qs, "nuniq", "I", [])
        if n1 is n2:
            a, b = e1[0], e2[0]
            ok = and_(ge(a, 0), lt(a, n1), ge(b, 0), lt(b, n1))
            out.append(implies(and_(ok, lt(a, b)), lt(t, u)))
            out.append(implies(and_(ok, lt(b, a)), lt(u, t)))
            out.append(implies(eq(a, b), eq(t, u)))
    if d.kind == "sortperm" and s1[0] is s2[0] and m1 is m2 is TRUE and b1[0] is b2[0]:
        # one array sorted: the positions are a permutation, listed by value
        a, b = e1[0], e2[0]
        ok = and_(ge(a, 0), lt(a, s1[0]), ge(b, 0), lt(b, s1[0]))
        at1, at2 = d.inst(ps, [t])[2][0], e.inst(qs, [u])[2][0]
        out.append(implies(and_(ok, lt(a, b)), and_(tm.ne(t, u), le(at1, at2))))
        out.append(implies(and_(ok, lt(b, a)), and_(tm.ne(t, u), le(at2, at1))))
    return out


def step_axioms(t):
    """Sum over [0,s) where s is not a plain dimension: unfold one step"""
    d, ps = t.args
    if d.kind != "sum":
        return []
    s, m, b, e = d.inst(ps)
    n = s[0]
    v = tm.fresh("i", "I", True)
    n1 = tm.sub(n, 1)
    prev = tm.Sum(n1, lambda i: d.inst(ps, [i])[2][0])
    _, _, last, _ = d.inst(ps, [n1])
    return [implies(ge(n, 1), eq(t, tm.add(prev, last[0])))]


class Result:
    def __init__(self, status, model=None, info=""):
        self.status = status      # 'proved' | 'failed' | 'unknown'
        self.model = model
        self.info = info

    def __bool__(self):
        return self.status == "proved"


def prove(pc, hyps, goal, rounds=7, timeout=None, extra_cands=(), steps=0, nl=None):
    STATS["queries"] += 1
    goal = tm.boolt(goal)
    if goal is TRUE:
        STATS["syntactic"] += 1
        return Result("proved")
    if goal in pc:
        STATS["syntactic"] += 1
        return Result("proved")
    S = [p for p in pc] + [not_(goal)]
    if FALSE in S:
        return Result("proved")
    return _solve(S, hyps, rounds, timeout, extra_cands, steps, nl)


def sum_groups(goal):
    """goal eq0(p): p as (outer monomial coefficients) per sum atom, by range"""
    d = tm._polyd(goal.args[0])
    groups = {}
    rest = {}
    for m, c in d.items():
        fs = [f.args[0] if f.op == "toR" else f for f in m]
        ss = [i for i, f in enumerate(fs) if f.op == "atom" and f.args[0].kind == "sum"]
        if not ss:
            rest[m] = c
            continue
        # the last sum factor is expanded (others stay in the coefficient)
        best = None
        for i in ss:
            inst = fs[i].args[0].inst(fs[i].args[1])
            if fs[i].sort == "R" or best is None:
                best = (i, inst)
        i, inst = best
        groups.setdefault(inst[0][0], []).append((m[:i] + m[i + 1:], c, fs[i]))
    return groups, rest


def prove_sums(pc, hyps, goal, timeout):
    """equalities between sums over one range, proved summand by summand"""
    if goal.op != "eq0":
        return False
    groups, rest = sum_groups(goal)
    if len(groups) != 1 or rest:
        return False
    (n, items), = groups.items()
    w = tm.fresh("w", "I", True)
    tot = tm.R(0)
    for m, c, a in items:
        _, _, b, _ = a.args[0].inst(a.args[1], [w])
        x = tm.toR(b[0])
        for f in m:
            x = tm.mul(x, tm.toR(f))
        tot = tm.add(tot, tm.mul(tm.R(c), x))
    g = eq(tot, 0)
    pc2 = pc + [ge(w, 0), lt(w, n)]
    if prove(pc2, hyps, g, rounds=3, timeout=700, nl=0).status == "proved":
        return True
    if split_prove(pc2, hyps, g, timeout):
        return True
    return prove(pc2, hyps, g, timeout=timeout, nl=1500).status == "proved"


def orient(c):
    """integer equality as a rewrite  index term -> expression"""
    if c.op != "eq0":
        return None
    d = tm._polyd(c.args[0])
    best = None
    for m, k in d.items():
        if len(m) == 1 and abs(k) == 1 and m[0].sort == "I" and m[0].op in ("atom", "v", "uf"):
            t = m[0]
            rank = (2 if t.op == "atom" else 1 if t.op == "uf" else 0, t.id)
            if best is None or rank > best[0]:
                best = (rank, t, k)
    if best is None or any(f.sort == "R" for m in d for f in m):
        return None
    _, t, k = best
    rest = tm.sub(c.args[0], tm.mul(tm.I(k), t))
    return t, (tm.neg(rest) if k == 1 else rest)


def split_prove(pc, hyps, goal, timeout, depth=0, eqs=(), budget=None, leaf=None):
    """case split on the conditions of an equality, rewriting index terms by the
    equations found, until it is an identity"""
    if budget is None:
        budget = [60, time.time() + 25]
    if goal is TRUE or FALSE in pc:
        return True
    if goal.op in ("and",):
        return all(split_prove(pc, hyps, g, timeout, depth, eqs, budget, leaf) for g in goal.args)
    budget[0] -= 1
    if budget[0] < 0 or time.time() > budget[1] or (DEADLINE[0] and time.time() > DEADLINE[0]):
        return False
    conds = []
    for t in tm.subterms([goal]):
        if t.op == "ite" and not any(v.args[0][0] == "$" for v in tm.free_idx(t.args[0])) and t.args[0] not in conds:
            conds.append(t.args[0])
    if goal.op == "eq0":
        mons = [set(x for f in m for x in tm.subterms([f])) for m in tm._polyd(goal.args[0])]
    else:
        mons = []
    freq = lambda c: sum(1 for m in mons if c in m)
    conds.sort(key=lambda c: (-freq(c), len(list(tm.subterms([c]))), c.id))
    if not conds:
        for t in tm.subterms([goal]):
            if t.op == "atom" and t.args[0].kind in ("dig", "sel", "argmin", "argmax", "first"):
                for a, r in eqs:
                    if r is not t and not tm.contains(r, t) and prove(pc, hyps, eq(t, r), rounds=3, timeout=700, nl=0).status == "proved":
                        g = tm.subst(goal, {t: r})
                        if split_prove(pc, hyps, g, timeout, depth, eqs, budget, leaf):
                            return True
                        break
        if leaf is not None:
            if leaf(pc, hyps, goal, timeout):
                return True
            return prove(pc, hyps, FALSE, rounds=4, timeout=min(timeout, 2000), nl=0).status == "proved"
        return prove(pc, hyps, goal, rounds=4, timeout=min(timeout, 2000), nl=500).status == "proved"
    if leaf is None and (depth == 3 or depth == 5):
        if prove(pc, hyps, goal, rounds=3, timeout=1000, nl=0).status == "proved":
            return True
    c = conds[0]
    for val, cond in ((TRUE, c), (FALSE, not_(c))):
        g = tm.subst(goal, {c: val, not_(c): not_(val)})
        e2 = eqs
        rw = orient(cond)
        if rw is not None and not tm.contains(rw[1], rw[0]):
            g = tm.subst(g, {rw[0]: rw[1]})
            e2 = tuple((a, tm.subst(r, {rw[0]: rw[1]})) for a, r in eqs) + (rw,)
        if not split_prove(pc + [cond], hyps, g, timeout, depth + 1, e2, budget, leaf):
            return False
    return True


def termwise(items, w):
    """sum of coefficient times summand at index w"""
    tot = tm.R(0)
    for m, c, a in items:
        _, _, b, _ = a.args[0].inst(a.args[1], [w])
        x = tm.toR(b[0])
        for f in m:
            x = tm.mul(x, tm.toR(f))
        tot = tm.add(tot, tm.mul(tm.R(c), x))
    return tot


def align_sums(pc, hyps, goal, timeout):
    """sums over a range n and over a prefix m of it: split the long ones at m"""
    if goal.op != "eq0":
        return False
    groups, rest = sum_groups(goal)
    if not groups:
        return prove(pc, hyps, goal, rounds=4, timeout=timeout, nl=1000).status == "proved"
    tot = tm._frompoly(dict(rest), "R") if rest else tm.R(0)
    ranges = list(groups)
    same = {}
    for i, m in enumerate(ranges):
        for n in ranges[:i]:
            if n not in same and prove(pc, hyps, eq(m, n), rounds=2, timeout=500, nl=0).status == "proved":
                same[m] = n
                break
    for m, n in same.items():
        groups[n] = groups[n] + groups.pop(m)
    ranges = list(groups)
    w = tm.fresh("w", "I", True)

    def zero(items, off, n):
        g = eq(termwise(items, tm.add(w, off)), 0)
        pc2 = pc + [ge(w, 0), lt(w, n)]
        if prove(pc2, hyps, g, rounds=3, timeout=1500, nl=0).status == "proved":
            return True
        return split_prove(pc2, hyps, g, timeout)
    if len(ranges) == 1:
        n = ranges[0]
        if prove(pc, hyps, eq(tot, 0), rounds=3, timeout=min(timeout, 1000), nl=300).status == "proved" and zero(groups[n], tm.I(0), n):
            return True
        pts = {}
        for t in tm.subterms([tot]):
            if t.op == "uf":
                for a in t.args[1:]:
                    if a.sort == "I" and a is not n:
                        pts[a] = pts.get(a, 0) + 1
        for m in sorted(pts, key=lambda a: (-pts[a], a.id))[:4]:
            groups[m] = []
            ranges = [m, n]
            break
    if len(ranges) != 2:
        return False
    for m, n in (ranges, ranges[::-1]):
        if prove(pc, hyps, and_(ge(m, 0), lt(m, n)), rounds=3, timeout=1000, nl=0).status != "proved":
            continue
        mid = tm.add(tot, termwise(groups[n], m))
        if not zero(groups[n], tm.add(m, 1), tm.sub(tm.sub(n, m), 1)):
            return False
        if not zero(groups[m] + groups[n], tm.I(0), m):
            return False
        g = eq(mid, 0)
        return prove(pc, hyps, g, rounds=4, timeout=timeout, nl=1000).status == "proved" or split_prove(pc, hyps, g, timeout)
    return False


def payload(t):
    """range and non-indicator factors of a sum application"""
    sz, _, b, _ = t.args[0].inst(t.args[1])
    x = b[0]
    if x.op == "poly" and len(x.args) == 1:
        m, c = x.args[0]
    else:
        m, c = (x,), 1
    fs = []
    for f in m:
        f = f.args[0] if f.op == "toR" else f
        if not tm._is01(f):
            fs.append(f)
    return (sz[0], c, tuple(sorted(fs, key=lambda f: f.id)))


def count_classes(pc, hyps, goal, timeout):
    """rewrite sums in the goal that are provably equal to one another"""
    cs = []
    for t in tm.subterms([goal]):
        if t.op == "atom" and t.args[0].kind == "sum" and not any(v.args[0][0] == "$" for v in tm.free_idx(t)):
            cs.append(t)
    if len(cs) > 14:
        return goal, []
    cs.sort(key=lambda t: t.id)
    rep = {}
    pl = {t: payload(t) for t in cs}
    for i, t in enumerate(cs):
        for u in cs[:i]:
            if u in rep or t.sort != u.sort or pl[t] != pl[u]:
                continue
            g = eq(t, u)
            if g.op == "c":
                continue
            if prove_sums(pc, hyps, g, timeout):
                rep[t] = u
                break
    return (tm.subst(goal, rep) if rep else goal), [eq(t, u) for t, u in rep.items()]


def simp_ites(pc, hyps, goal):
    """resolve the ite conditions of the goal that the path condition decides"""
    m = {}
    n = 0
    for t in tm.subterms([goal]):
        if t.op == "ite" and not any(v.args[0][0] == "$" for v in tm.free_idx(t.args[0])):
            c = t.args[0]
            if c in m or n > 12:
                continue
            n += 1
            if prove(pc, hyps, c, rounds=2, timeout=500, nl=0).status == "proved":
                m[c] = TRUE
            elif prove(pc, hyps, not_(c), rounds=2, timeout=500, nl=0).status == "proved":
                m[c] = FALSE
    return tm.subst(goal, m) if m else goal


def by_signs(pc, goal):
    """p <= 0 where every monomial of -p is a product of factors known nonnegative (for every value of the bound variables)"""
    while goal.op == "atom" and goal.args[0].kind == "all":
        goal = goal.args[0].inst(goal.args[1])[2][0]
    if goal.op != "le0" or goal.args[0].op != "poly":
        return False
    pos = set()
    for p in pc:
        if p.op in ("le0", "lt0"):
            pos.add(tm.neg(p.args[0]))

    def ok(f):
        return f in pos or tm.nonneg(f) or (f.op == "toR" and f.args[0] in pos)
    for m, c in tm._polyd(tm.neg(goal.args[0])).items():
        if c < 0:
            return False
        k = 0
        while k < len(m):
            if k + 1 < len(m) and m[k] is m[k + 1]:
                k += 2
                continue
            if not ok(m[k]):
                return False
            k += 1
    return True


def prove_goal(pc, hyps, goal, timeout):
    """an obligation: direct attempt, then the structured tactics"""
    goal = tm.boolt(goal)
    if by_signs(pc, goal):
        return Result("proved")
    r = prove(pc, hyps, goal, rounds=3, timeout=min(timeout, 800), nl=300)
    if r.status == "proved":
        return r
    if goal.op == "and":
        for g in goal.args:
            r = prove_goal(pc, hyps, g, timeout)
            if r.status != "proved":
                return r
        return r
    if prove_sums(pc, hyps, goal, timeout):
        return Result("proved")
    g2, facts = count_classes(pc, hyps, goal, timeout)
    pc = pc + [f for f in facts if f not in pc]
    g2 = simp_ites(pc, hyps, g2)
    if g2 is not goal:
        if g2 is TRUE or prove_sums(pc, hyps, g2, timeout):
            return Result("proved")
        if g2.op in ("and",):
            return prove_goal(pc, hyps, g2, timeout)
        r = prove(pc, hyps, g2, rounds=4, timeout=timeout)
        if r.status == "proved":
            return r
    if g2.op == "atom" and g2.args[0].kind == "all":
        d, ps = g2.args
        w = skolems((g2, "cex"), d.binders)
        sz, m, b, _ = d.inst(ps, w)
        r = prove_goal(pc + [inrange(w, sz), m], hyps, b[0], timeout)
        if r.status == "proved":
            return r
    if g2.op == "eq0" and any(t.op == "ite" for t in tm.subterms([g2])) and split_prove(pc, hyps, g2, timeout, budget=[16, time.time() + 15]):
        return Result("proved")
    if g2.op == "eq0" and len({t.args[0].inst(t.args[1])[0][0] for t in tm.subterms([g2]) if t.op == "atom" and t.args[0].kind == "sum"}) > 1:
        if split_prove(pc, hyps, g2, timeout, budget=[80, time.time() + 60], leaf=align_sums):
            return Result("proved")
    r = prove(pc, hyps, g2, timeout=timeout)
    if r.status != "proved" and STEPS:
        r2 = prove(pc, hyps, g2, timeout=timeout * 2, rounds=10, steps=2)
        if r2.status == "proved":
            return r2
    return r


STEPS = True
RL = 6000       # z3 resource units per nominal millisecond
RLN = 2500
_CONV = {}
_AX = {}


def convs(nl):
    c = _CONV.get(nl)
    if c is None:
        c = _CONV[nl] = Z3Conv(nl)
    return c


def cached(kind, fn, *key):
    k = (kind,) + key
    r = _AX.get(k)
    if r is None:
        r = _AX[k] = fn(*key)
    return r


def inst_at(t, ws):
    return cached("inst", lambda t, ws: inst_axioms_at(t, ws), t, ws)


def _solve(S, hyps, rounds, timeout, extra_cands=(), steps=0, nl=None):
    conv = convs(False)
    solver = z3.SimpleSolver()
    to = timeout or Z3_TIMEOUT
    solver.set("timeout", to * 6)       # the resource limit decides, whatever the load of the machine
    solver.set("rlimit", to * RL)
    solver.set("relevancy", 0)
    solver.set("arith.solver", 2)
    asserted = []
    seen = set()
    fresh_terms = []       # terms of new assertions not yet processed
    all_terms = {}
    muls = False

    def assert_(t):
        if t is TRUE or t in seen:
            return
        seen.add(t)
        asserted.append(t)
        solver.add(conv(t))
        st = [t]
        while st:
            x = st.pop()
            if x in all_terms:
                continue
            all_terms[x] = 1
            fresh_terms.append(x)
            st.extend(tm.children(x))

    for s in S:
        assert_(s)
    done_inst = set()
    done_pair = set()
    done_hyp = set()
    done_mul = set()
    model = None
    status = "unknown"
    cands = list(extra_cands)
    candset = set(cands)
    bytrig = {}
    atoms = []
    t_start = time.time()

    def cand(a):
        if a not in candset:
            candset.add(a)
            cands.append(a)
    for rnd in range(rounds):
        # -- saturate cheap axioms --------------------------------------
        for _ in range(2):
            new, fresh_terms[:] = list(fresh_terms), []
            if not new:
                break
            addl = []
            for t in new:
                if t.op == "atom":
                    atoms.append(t)
                    for a in t.args[1]:
                        if a.sort == "I" and a.op != "c":
                            cand(a)
                    if t.args[0].kind in ("argmin", "argmax", "dig", "first", "sel"):
                        cand(t)
                    addl += cached("unit", unit_axioms, t)
                    if steps:
                        addl += cached("step", step_axioms, t)
                elif t.op == "uf":
                    for a in t.args[1:]:
                        if a.sort == "I":
                            cand(a)
                        bytrig.setdefault((t.args[0], a.sort), {})[a] = 1
                elif t.op == "v" and t.args[1] and t.sort == "I":
                    cand(t)
                elif t.op == "poly":
                    if t in tm.NN:
                        addl.append(tm._mk("le0", (tm.neg(t),), "B"))
                    addl += cached("gcd", factor_axioms, t)
                    for z, x, y in conv.polymuls.get(t, ()):
                        muls = True
                        k = z.get_id()
                        if k in done_mul:
                            continue
                        done_mul.add(k)
                        fn = conv.mulR if z.sort() == z3.RealSort() else conv.mulI
                        zero = z3.RealVal(0) if z.sort() == z3.RealSort() else z3.IntVal(0)
                        one = z3.RealVal(1) if z.sort() == z3.RealSort() else z3.IntVal(1)
                        solver.add(z == fn(y, x), (z == 0) == z3.Or(x == 0, y == 0), z3.Implies(x == 1, z == y), z3.Implies(y == 1, z == x),
                                   (z > 0) == z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)))
                elif t.op == "inv":
                    g = t.args[0]
                    addl.append(or_(and_(eq(g, 0), eq(t, 0)), eq(tm.mul(g, t), 1)))
                    addl.append(or_(le(g, 0), gt(t, 0)))
                    addl.append(or_(ge(g, 0), lt(t, 0)))
                elif t.op == "sqrt":
                    g = t.args[0]
                    addl.append(ge(t, 0))      # of a negative number: the value is never used (NaN)
                    addl.append(or_(lt(g, 0), eq(tm.mul(t, t), g)))
            for a in addl:
                assert_(a)
        t0 = time.time()
        r = solver.check()
        STATS["z3_time"] += time.time() - t0
        STATS["z3_checks"] += 1
        if r == z3.unsat:
            return Result("proved")
        model = solver.model() if r == z3.sat else None
        status = "sat" if r == z3.sat else "unknown"
        before = len(asserted)
        if rnd == rounds - 1:
            break
        limit = len(asserted) + 120 * (rnd + 1)
        # -- extensionality, model guided ----------------------------------
        vals = {}

        def ev(t):
            if t not in vals:
                vals[t] = str(model.eval(conv(t), model_completion=True)) if model is not None else None
            return vals[t]
        for i, t in enumerate(atoms):
            for u in atoms[:i]:
                if t.args[0].kind != u.args[0].kind or (t, u) in done_pair or len(asserted) > limit:
                    continue
                if model is not None and t.args[0].kind != "uniq" and ev(t) == ev(u):
                    continue
                done_pair.add((t, u))
                for a in cached("pair", pair_axioms, t, u):
                    assert_(a)
        limit = len(asserted) + 150 * (rnd + 1)
        # -- hypotheses ---------------------------------------------------
        for h in hyps:
            cs = {}
            for nme in h.trig:
                for a in bytrig.get((nme, h.sort), {}):
                    cs[a] = 1
            for ws in itertools.product(list(cs), repeat=h.nvars):
                key = (h.id, ws)
                if key in done_hyp:
                    continue
                done_hyp.add(key)
                if len(asserted) > limit:
                    break
                assert_(cached("hyp", lambda i, w: h.fn(*w), h.id, ws))
        limit = len(asserted) + 150 * (rnd + 1)
        # -- instances of atoms -------------------------------------------
        for t in list(atoms):
            if t.args[0].kind in ("all", "argmin", "argmax", "first", "sum", "nuniq"):
                cs = cands[:24]
                if len(t.args[0].binders) == 1:
                    for off in cached("off", offsets, t):
                        cs = cs + [c2 for c2 in (tm.sub(c, off) for c in cands[:16]) if c2 not in candset]
                for ws in tuples(t.args[0].binders, cs):
                    if len(asserted) > limit:
                        break
                    if (t, ws) not in done_inst:
                        done_inst.add((t, ws))
                        for a in inst_at(t, ws):
                            assert_(a)
        if len(asserted) == before:
            break
        if time.time() - t_start > 40 or (DEADLINE[0] and time.time() > DEADLINE[0]):
            return Result("unknown", None, "time budget")
    # -- final attempt: nonlinear arithmetic interpreted -------------------
    if muls and nl != 0:
        c2 = convs(True)
        s2 = z3.Solver()
        nlt = nl if nl is not None else to * 2
        s2.set("timeout", nlt * 6)
        s2.set("rlimit", nlt * RLN)
        for a in asserted:
            s2.add(c2(a))
        t0 = time.time()
        r = s2.check()
        STATS["z3_time"] += time.time() - t0
        STATS["z3_checks"] += 1
        if r == z3.unsat:
            return Result("proved")
        if r == z3.sat:
            return Result("failed", (s2.model(), c2), "sat")
        return Result("unknown", None, "nonlinear: " + s2.reason_unknown())
    if status == "sat":
        return Result("failed", (model, conv), "sat")
    return Result("unknown", None, "z3 unknown")


def feasible(pc, hyps, timeout=1500):
    """is the path condition satisfiable?  unknown counts as feasible."""
    if FALSE in pc:
        return False
    r = _solve(list(pc), hyps, 3, timeout, nl=0)
    return r.status != "proved"
