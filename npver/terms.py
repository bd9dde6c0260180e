"""Hash-consed first-order terms used as the logic of the verifier.

Sorts: 'B' (bool), 'I' (mathematical integer), 'R' (mathematical real).
Arithmetic is kept in polynomial normal form, so that many obligations close
syntactically and the remaining ones reach the SMT solver in a canonical shape.

Binding constructs (sums, counts, minima, black-box calls on rows ...) are
"atoms": an AtomDef is a lambda-lifted, hash-consed definition and an `atom`
term is its application to parameter terms.  The solver (solver.py) knows the
axioms of each atom kind.
"""
from fractions import Fraction
import itertools
import os

_tab = {}
_cnt = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_atoms")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool: %s" % show(self))


def _mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = next(_cnt)
        t._fv = None
        t._atoms = None
        _tab[k] = t
    return t


# ------------------------------------------------------------------ constants
def B(b):
    return _mk("c", (bool(b),), "B")


TRUE = B(True)
FALSE = B(False)


def I(n):
    return _mk("c", (int(n),), "I")


def R(x):
    return _mk("c", (Fraction(x),), "R")


def const_val(t):
    return t.args[0] if t.op == "c" else None


def is_const(t):
    return t.op == "c"


_vc = itertools.count()


def var(name, sort, idx=False):
    """A named variable.  idx=True marks index variables, which become
    parameters when an atom is lambda-lifted."""
    return _mk("v", (name, bool(idx)), sort)


def fresh(name, sort, idx=False):
    return var("%s!%d" % (name, next(_vc)), sort, idx)


def uf(name, args, sort):
    return _mk("uf", (name,) + tuple(args), sort)


# ------------------------------------------------------------------ arithmetic
def _polyd(t):
    """term -> dict mono(tuple of T) -> coeff"""
    if t.op == "poly":
        return {m: c for (m, c) in t.args}
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        return {(): v} if v != 0 else {}
    return {(t,): 1}


def _frompoly(d, sort):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return I(0) if sort == "I" else R(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c) if sort == "I" else R(c)
        if len(m) == 1 and c == 1:
            return m[0]
    if sort == "R":
        items = tuple(sorted(((m, Fraction(c)) for m, c in d.items()), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0]))))
    else:
        items = tuple(sorted(((m, int(c)) for m, c in d.items()), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0]))))
    return _mk("poly", items, sort)


def num(t):
    """coerce Python numbers / bool terms to a numeric term"""
    if isinstance(t, T):
        if t.sort == "B":
            return ite(t, I(1), I(0))
        return t
    if isinstance(t, bool):
        return I(int(t))
    if isinstance(t, int):
        return I(t)
    if isinstance(t, Fraction):
        return R(t)
    raise TypeError("not a number: %r" % (t,))


def toR(t):
    t = num(t)
    if t.sort == "R":
        return t
    if t.op == "c":
        return R(t.args[0])
    if t.op == "poly":
        r = {}
        for m, c in t.args:
            p = {(): Fraction(c)}
            for f in m:
                p = _pmul(p, _polyd(toR(f)))
            for mm, cc in p.items():
                r[mm] = r.get(mm, 0) + cc
        r = _frompoly(r, "R")
        if t in NN:
            NN.add(r)
        return r
    if t.op == "ite":
        return ite(t.args[0], toR(t.args[1]), toR(t.args[2]))
    return _mk("toR", (t,), "R")


def _lift(a, b):
    a = num(a)
    b = num(b)
    if a.sort == "R" or b.sort == "R":
        return toR(a), toR(b), "R"
    return a, b, "I"


def add(a, b):
    a, b, s = _lift(a, b)
    d = _polyd(a)
    for m, c in _polyd(b).items():
        d[m] = d.get(m, 0) + c
    r = _frompoly(d, s)
    if _hasneg(r) and nonneg(a) and nonneg(b):
        NN.add(r)
    return r


def neg(a):
    a = num(a)
    return _frompoly({m: -c for m, c in _polyd(a).items()}, a.sort)


def sub(a, b):
    return add(a, neg(b))


NN = set()        # terms known nonnegative (squares, their sums and means, sizes)


def nonneg(t):
    op = t.op
    if op == "c":
        v = t.args[0]
        return isinstance(v, bool) or v >= 0
    if t in NN or op == "sqrt" or _is01(t):
        return True
    if op in ("toR", "inv"):        # inv(0) = 0 by convention
        return nonneg(t.args[0])
    if op == "atom":
        d = t.args[0]
        return d.kind == "sum" and d.nn()
    if op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if op == "poly":
        for m, c in t.args:
            if c < 0:
                return False
            k = 0
            while k < len(m):
                if k + 1 < len(m) and m[k] is m[k + 1]:
                    k += 2
                    continue
                if not nonneg(m[k]):
                    return False
                k += 1
        return True
    return False


def _hasneg(t):
    return t.op == "poly" and any(c < 0 for _, c in t.args)


NONZERO = set()   # terms known nonzero on the current path (simplification only)


def _mononorm(m):
    # inv cancellation for factors known to be nonzero, idempotent indicators
    m = sorted(m, key=lambda x: x.id)
    for f in m:
        if f.op == "inv" and f.args[0] in NONZERO:
            g = f.args[0]
            gp = _polyd(g)
            if len(gp) == 1:
                (gm, gc), = gp.items()
                l = list(m)
                l.remove(f)
                ok = True
                for x in gm:
                    if x in l:
                        l.remove(x)
                    else:
                        ok = False
                        break
                if ok and gm:
                    return _mononorm(l)[0], _mononorm(l)[1] * Fraction(1) / gc
    out = []
    for f in m:
        if f.op == "ite" and out and out[-1] is f and _is01(f):
            continue
        out.append(f)
    return tuple(out), 1


def _is01(f):
    return (f.op == "ite" and f.args[1].op == "c" and f.args[2].op == "c"
            and f.args[1].args[0] in (0, 1) and f.args[2].args[0] in (0, 1))


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, k = _mononorm(m1 + m2) if (m1 and m2) else (m1 + m2, 1)
            r[m] = r.get(m, 0) + c1 * c2 * k
    return r


def mul(a, b):
    a, b, s = _lift(a, b)
    r = _frompoly(_pmul(_polyd(a), _polyd(b)), s)
    if _hasneg(r) and (a is b or (nonneg(a) and nonneg(b))):
        NN.add(r)
    return r


def powi(a, n):
    r = num(1) if num(a).sort == "I" else R(1)
    for _ in range(n):
        r = mul(r, a)
    if n % 2 == 0 and _hasneg(r):
        NN.add(r)
    return r


def inv(a):
    a = toR(a)
    if a.op == "c":
        if a.args[0] == 0:
            return _mk("inv", (a,), "R")
        return R(1 / a.args[0])
    if a.op == "inv":
        if a.args[0] in NONZERO:
            return a.args[0]
    p = _polyd(a)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) > 1 or c != 1:
            r = R(Fraction(1) / c)
            for f in m:
                r = mul(r, inv(f))
            return r
    return _mk("inv", (a,), "R")


def div(a, b):
    return mul(toR(a), inv(b))


def sqrt(a):
    a = toR(a)
    if a.op == "c" and a.args[0] >= 0:
        import math
        n, d = a.args[0].numerator, a.args[0].denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return R(Fraction(rn, rd))
    return _mk("sqrt", (a,), "R")


def idiv(a, b):
    a, b = num(a), num(b)
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return I(a.args[0] // b.args[0])
    if b is I(1):
        return a
    return _mk("idiv", (a, b), "I")


def imod(a, b):
    a, b = num(a), num(b)
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return I(a.args[0] % b.args[0])
    return _mk("imod", (a, b), "I")


def floor(a):
    a = num(a)
    if a.sort == "I":
        return a
    if a.op == "c":
        import math
        return I(math.floor(a.args[0]))
    if a.op == "toR":
        return a.args[0]
    p = _polyd(a)
    if all(c.denominator == 1 for c in map(Fraction, p.values())) and all(all(f.op == "toR" for f in m) for m in p):
        r = I(0)
        for m, c in p.items():
            x = I(int(c))
            for f in m:
                x = mul(x, f.args[0])
            r = add(r, x)
        return r
    return _mk("floor", (a,), "I")


def trunc(a):
    a = num(a)
    if a.sort == "I":
        return a
    return ite(ge(a, R(0)), floor(a), neg(floor(neg(a))))


# ------------------------------------------------------------------ booleans
def boolt(t):
    if isinstance(t, T):
        if t.sort == "B":
            return t
        return ne(t, 0)
    return B(bool(t))


def not_(a):
    a = boolt(a)
    if a.op == "c":
        return B(not a.args[0])
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return lt0(neg(a.args[0]))
    if a.op == "lt0":
        return le0(neg(a.args[0]))
    return _mk("not", (a,), "B")


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = boolt(x)
        ys = x.args if x.op == "and" else (x,)
        for y in ys:
            if y is TRUE or y in seen:
                continue
            if y is FALSE or not_(y) in seen:
                return FALSE
            seen.add(y)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        x = boolt(x)
        ys = x.args if x.op == "or" else (x,)
        for y in ys:
            if y is FALSE or y in seen:
                continue
            if y is TRUE or not_(y) in seen:
                return TRUE
            seen.add(y)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(sorted(out, key=lambda t: t.id)), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = boolt(a), boolt(b)
    if a is b:
        return TRUE
    if a.op == "c":
        return b if a.args[0] else not_(b)
    if b.op == "c":
        return a if b.args[0] else not_(a)
    if a.id > b.id:
        a, b = b, a
    return _mk("iff", (a, b), "B")


def _normcmp(p, sym):
    """p: numeric term; scale so that the leading coefficient is +-1 (sym: +1)"""
    d = _polyd(p)
    lead = min((m for m in d if m != ()), key=lambda m: (-len(m), tuple(x.id for x in m)))
    c = d[lead]
    if p.sort == "I":
        import math
        g = 0
        for k, v in d.items():
            if k != ():
                g = math.gcd(g, abs(int(v)))
        return d, g, (c < 0)
    s = Fraction(1) / abs(c)
    if sym and c < 0:
        s = -s
    return {m: v * s for m, v in d.items()}, None, None


def le0(p):
    p = num(p)
    if p.op == "c":
        return B(p.args[0] <= 0)
    if NN and p.op == "poly" and nonneg(neg(p)):
        return TRUE
    if p.sort == "R":
        d, _, _ = _normcmp(p, False)
        q = _frompoly(d, "R")
        iq = _allint(q)
        if iq is not None:
            return le0(iq)
        return _mk("le0", (q,), "B")
    d, g, _ = _normcmp(p, False)
    if g > 1:
        import math
        d = {m: (int(v) // g if m != () else -((-int(v)) // g)) for m, v in d.items()}
        # sum g*a + k <= 0  <=>  sum a <= floor(-k/g)
        k = _polyd(p).get((), 0)
        d[()] = -((-int(k)) // g)
    return _mk("le0", (_frompoly(d, "I"),), "B")


def _allint(q):
    """real poly all of whose factors are toR(int): return an int poly equal up
    to a positive scale, else None"""
    d = _polyd(q)
    den = 1
    for m, c in d.items():
        for f in m:
            if f.op != "toR":
                return None
        den = den * Fraction(c).denominator
    r = I(0)
    for m, c in d.items():
        x = I(int(Fraction(c) * den))
        for f in m:
            x = mul(x, f.args[0])
        r = add(r, x)
    return r


def lt0(p):
    p = num(p)
    if p.op == "c":
        return B(p.args[0] < 0)
    if nonneg(p):
        return FALSE
    if p.sort == "I":
        return le0(add(p, I(1)))
    d, _, _ = _normcmp(p, False)
    q = _frompoly(d, "R")
    iq = _allint(q)
    if iq is not None:
        return lt0(iq)
    return _mk("lt0", (q,), "B")


def eq0(p):
    p = num(p)
    if p.op == "c":
        return B(p.args[0] == 0)
    if p.sort == "R":
        d, _, _ = _normcmp(p, True)
        q = _frompoly(d, "R")
        iq = _allint(q)
        if iq is not None:
            return eq0(iq)
        return _mk("eq0", (q,), "B")
    d, g, negl = _normcmp(p, True)
    k = int(d.get((), 0))
    if g > 1:
        if k % g != 0:
            return FALSE
        d = {m: int(v) // g for m, v in d.items()}
    if negl:
        d = {m: -v for m, v in d.items()}
    return _mk("eq0", (_frompoly(d, "I"),), "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if isinstance(a, T) and isinstance(b, T) and a.sort == "B" and b.sort == "B":
        return iff(a, b)
    if isinstance(a, bool) and isinstance(b, T) and b.sort == "B" or isinstance(b, bool) and isinstance(a, T) and a.sort == "B":
        return iff(boolt(a), boolt(b))
    return eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    c = boolt(c)
    if c is TRUE:
        return a if isinstance(a, T) else (B(a) if isinstance(a, bool) else num(a))
    if c is FALSE:
        return b if isinstance(b, T) else (B(b) if isinstance(b, bool) else num(b))
    ab = (isinstance(a, T) and a.sort == "B") or isinstance(a, bool)
    bb = (isinstance(b, T) and b.sort == "B") or isinstance(b, bool)
    if ab and bb:
        a, b = boolt(a), boolt(b)
        return and_(or_(not_(c), a), or_(c, b)) if (a.op == "c" or b.op == "c") else (a if a is b else _mk("ite", (c, a, b), "B"))
    a, b, s = _lift(a, b)
    if a is b:
        return a
    if c.op == "not":
        c = c.args[0]
        a, b = b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), s)


def ind(c):
    """0/1 indicator"""
    return ite(c, I(1), I(0))


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(ge(a, b), a, b)


def abs_(a):
    a = num(a)
    return ite(ge(a, 0), a, neg(a))


# ------------------------------------------------------------------ traversal
def children(t):
    if t.op in ("c", "v"):
        return ()
    if t.op == "poly":
        return tuple(f for (m, c) in t.args for f in m)
    if t.op == "uf":
        return t.args[1:]
    if t.op == "atom":
        return t.args[1]
    return t.args


def free_idx(t):
    """index variables occurring in t (ordered)"""
    if t._fv is None:
        if t.op == "v":
            t._fv = (t,) if t.args[1] else ()
        else:
            s = {}
            for c in children(t):
                for v in free_idx(c):
                    s[v] = 1
            t._fv = tuple(s)
    return t._fv


def contains(t, v):
    if v.op == "v" and v.args[1]:
        return v in free_idx(t)
    return any(x is v for x in subterms([t]))


def subterms(ts):
    seen = set()
    st = list(ts)
    out = []
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        st.extend(children(t))
    return out


def subst(t, m, memo=None):
    """simultaneous substitution of terms (by identity)"""
    if memo is None:
        memo = {}
    if not m:
        return t
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ("c", "v"):
        r = t
    else:
        r = rebuild(t, [_subst(c, m, memo) for c in children(t)])
    memo[t] = r
    return r


def rebuild(t, ch):
    op = t.op
    if op == "poly":
        if all(a is b for a, b in zip(ch, children(t))):
            return t
        it = iter(ch)
        r = {}
        for m, c in t.args:
            p = {(): c}
            for f in m:
                p = _pmul(p, _polyd(next(it)))
            for mm, cc in p.items():
                r[mm] = r.get(mm, 0) + cc
        r = _frompoly(r, t.sort)
        if t in NN and _hasneg(r):
            NN.add(r)
        return r
    if op == "uf":
        return uf(t.args[0], ch, t.sort)
    if op == "atom":
        return t.args[0].apply(ch)
    return {"inv": inv, "sqrt": sqrt, "ite": ite, "and": and_, "or": or_, "not": not_,
            "le0": le0, "lt0": lt0, "eq0": eq0, "iff": iff, "idiv": idiv, "imod": imod,
            "toR": toR, "floor": floor}[op](*ch)


# ------------------------------------------------------------------ atoms
class AtomDef:
    """Lambda-lifted definition.  `binders`: bound variables; `sizes`: their
    ranges [0,size); `mask`: membership condition; `bodies`: pointwise data;
    `extras`: scalar data.  All may mention `params`."""
    __slots__ = ("kind", "params", "binders", "sizes", "mask", "bodies", "extras", "sort", "n", "name", "_nn")
    _tab = {}
    _all = []

    def __repr__(self):
        return self.name

    def nn(self):
        if self._nn is None:
            self._nn = False
            self._nn = nonneg(self.bodies[0])
        return self._nn

    def apply(self, ps):
        return _mk("atom", (self, tuple(ps)), self.sort)

    def inst(self, ps, ws=None):
        """(sizes, mask, bodies, extras) at parameters ps, binders ws"""
        m = dict(zip(self.params, ps))
        if ws is not None:
            m.update(zip(self.binders, ws))
        memo = {}
        return ([subst(x, m, memo) for x in self.sizes], subst(self.mask, m, memo),
                [subst(x, m, memo) for x in self.bodies], [subst(x, m, memo) for x in self.extras])


def mk_atom(kind, sort, binders, sizes, mask, bodies, extras=()):
    bodies = tuple(bodies)
    extras = tuple(extras)
    sizes = tuple(num(s) for s in sizes)
    one = {b: I(0) for b, s in zip(binders, sizes) if s.op == "c" and s.args[0] == 1}
    if one:
        memo = {}
        bodies = tuple(subst(x, one, memo) for x in bodies)
        mask = subst(mask, one, memo)
    order = {}
    for t in list(bodies) + [mask] + list(extras) + list(sizes):
        for v in free_idx(t):
            if v not in binders:
                order[v] = 1
    if kind in ("argmin", "argmax"):
        for v in subterms(bodies):
            if v.op == "v" and v.sort == "I" and not v.args[1] and v not in binders:
                order[v] = 1
    ps = list(order)
    P = [var("$p%d%s" % (i, v.sort), v.sort, True) for i, v in enumerate(ps)]
    Bd = [var("$b%d%s" % (i, v.sort), v.sort, True) for i, v in enumerate(binders)]
    # binders must not clash with params when they are themselves $b/$p
    tmp = {}
    for v, p in zip(ps, P):
        tmp[v] = p
    for v, b in zip(binders, Bd):
        tmp[v] = b
    memo = {}
    s2 = tuple(subst(x, tmp, memo) for x in sizes)
    m2 = subst(mask, tmp, memo)
    b2 = tuple(subst(x, tmp, memo) for x in bodies)
    e2 = tuple(subst(x, tmp, memo) for x in extras)
    key = (kind, sort, tuple(P), tuple(Bd), s2, m2, b2, e2)
    d = AtomDef._tab.get(key)
    if d is None:
        d = AtomDef()
        d._nn = None
        d.kind, d.params, d.binders, d.sizes, d.mask, d.bodies, d.extras, d.sort = kind, tuple(P), tuple(Bd), s2, m2, b2, e2, sort
        d.n = len(AtomDef._all)
        k = kind if isinstance(kind, str) else "_".join(str(x) for x in kind)
        d.name = "%s#%d" % (k, d.n)
        AtomDef._all.append(d)
        AtomDef._tab[key] = d
    return d.apply(ps)


# indicator polynomial normal form of a numeric term -------------------------
def _indpoly(t):
    """dict mono->coeff in which ite conditions became indicator factors"""
    t = num(t)
    if t.op == "poly":
        r = {}
        for m, c in t.args:
            p = {(): c}
            for f in m:
                p = _pmulI(p, _indpoly(f))
            for mm, cc in p.items():
                r[mm] = r.get(mm, 0) + cc
        return {m: c for m, c in r.items() if c != 0}
    if t.op == "c":
        return _polyd(t)
    if t.op == "ite":
        ci = _indcond(t.args[0])
        pa, pb = _indpoly(t.args[1]), _indpoly(t.args[2])
        # c*a + (1-c)*b = b + c*(a-b)
        d = dict(pa)
        for m, c in pb.items():
            d[m] = d.get(m, 0) - c
        r = dict(pb)
        for m, c in _pmulI(ci, d).items():
            r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c != 0}
    return {(t,): 1}


def _indcond(c):
    if c is TRUE:
        return {(): 1}
    if c is FALSE:
        return {}
    if c.op == "and":
        p = {(): 1}
        for x in c.args:
            p = _pmulI(p, _indcond(x))
        return p
    if c.op == "or" and any(x.op in ("and", "ite") for x in c.args):
        return {(ind(c),): 1}
    if c.op == "or":
        p = {(): 1}
        for x in c.args:
            p = _pmulI(p, _indcond(not_(x)))
        r = {m: -v for m, v in p.items()}
        r[()] = r.get((), 0) + 1
        return {m: v for m, v in r.items() if v}
    if c.op == "not" or (c.op in ("le0", "lt0") and not_(c).id < c.id):
        p = _indcond(not_(c))
        r = {m: -v for m, v in p.items()}
        r[()] = r.get((), 0) + 1
        return {m: v for m, v in r.items() if v}
    if c.op == "ite":
        a = _pmulI(_indcond(c.args[0]), _indcond(c.args[1]))
        b = _pmulI(_indcond(not_(c.args[0])), _indcond(c.args[2]))
        for m, v in b.items():
            a[m] = a.get(m, 0) + v
        return {m: v for m, v in a.items() if v}
    return {(ind(c),): 1}


def _pmulI(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            fs = sorted(m1 + m2, key=lambda x: x.id)
            out = []
            zero = False
            for f in fs:
                if _is01(f):
                    if out and out[-1] is f:
                        continue
                out.append(f)
            m, k = _mononorm(tuple(out))
            r[m] = r.get(m, 0) + c1 * c2 * k
    return {m: c for m, c in r.items() if c != 0}


def toRmono(m):
    r = R(1)
    for f in m:
        r = mul(r, toR(f))
    return r


def _indeq(d, v):
    """monomials with an indicator of an equation  T == e  (T an integer term
    with the binder v, e without it): T is replaced by e in the other factors"""
    out = {}
    for m, c in d.items():
        parts = {m: c}
        for f in m:
            if not (f.op == "ite" and _is01(f) and f.args[0].op == "eq0"):
                continue
            rw = None
            pd = _polyd(f.args[0].args[0])
            dep = [(mm, k) for mm, k in pd.items() if any(v in free_idx(x) for x in mm)]
            if len(dep) == 1 and len(dep[0][0]) == 1 and abs(dep[0][1]) == 1:
                t, k = dep[0][0][0], dep[0][1]
                if t is not v and t.sort == "I" and not any(x.sort == "R" for mm in pd for x in mm):
                    rest = sub(f.args[0].args[0], mul(I(k), t))
                    rw = {t: neg(rest) if k == 1 else rest}
            if rw is None:
                continue
            m2 = [x if x is f else subst(x, rw) for x in m]
            if any(x is not y for x, y in zip(m, m2)):
                p = {(f,): c}
                for x in m2:
                    if x is not f:
                        p = _pmulI(p, _indpoly(x))
                parts = _indeq(p, v)
                break
        for mm, cc in parts.items():
            out[mm] = out.get(mm, 0) + cc
    return {m: c for m, c in out.items() if c != 0}


CONCRETE = False


def _point(fs, v):
    """a factor [v == e] with e free of v, and e"""
    for f in fs:
        if f.op == "ite" and _is01(f) and f.args[0].op == "eq0":
            pd = _polyd(f.args[0].args[0])
            k = pd.get((v,))
            if k in (1, -1) and not any(v in free_idx(x) for m in pd if m != (v,) for x in m):
                if f.args[1].op == "c" and f.args[1].args[0] != 1:
                    continue
                rest = _frompoly({m: q for m, q in pd.items() if m != (v,)}, f.args[0].args[0].sort)
                if rest.sort == "I":
                    return f, (neg(rest) if k == 1 else rest)
    return None


def Sum(n, fn, sort=None):
    """sum_{0<=i<n} fn(i) over a plain range (n: term or int)"""
    nt = num(n)
    if nt.op == "c" and (nt.args[0] <= 2 or CONCRETE):
        r = I(0)
        for k in range(nt.args[0]):
            r = add(r, fn(I(k)))
        return r if sort != "R" else toR(r)
    v = fresh("i", "I", True)
    body = num(fn(v))
    real = body.sort == "R" or sort == "R"
    d = _indeq(_indpoly(body), v)
    r = R(0) if real else I(0)
    for m, c in d.items():
        invf = [f for f in m if v not in free_idx(f)]
        varf = [f for f in m if v in free_idx(f)]
        coef = R(c) if real else (I(c) if Fraction(c).denominator == 1 else R(c))
        for f in invf:
            coef = mul(coef, toR(f) if real else f)
        if not varf:
            r = add(r, mul(coef, toR(nt) if real else nt))
            continue
        pt = _point(varf, v)
        if pt is not None:
            # the only term that counts is the one at e
            f, e = pt
            b = ind(and_(le(I(0), e), lt(e, nt)))
            for x in varf:
                if x is not f:
                    b = mul(toR(b) if x.sort == "R" else b, subst(x, {v: e}))
            r = add(toR(r) if b.sort == "R" else r, mul(toR(coef) if b.sort == "R" else coef, toR(b) if real else b))
            continue
        b = I(1)
        for f in varf:
            b = mul(b, f)
        # keep the summed body of sort I when every factor is an integer
        a = mk_atom("sum", b.sort, [v], [nt], TRUE, [b])
        r = add(r, mul(coef, toR(a) if real else a))
    if _hasneg(r) and nonneg(body):
        NN.add(r)
    return r


def Count(n, fn):
    return Sum(n, lambda i: ind(fn(i)))


def All(n, fn):
    nt = num(n)
    if nt.op == "c" and (nt.args[0] <= 3 or CONCRETE):
        return and_(*[boolt(fn(I(k))) for k in range(nt.args[0])])
    v = fresh("i", "I", True)
    b = boolt(fn(v))
    if b is TRUE:
        return TRUE
    if v not in free_idx(b):
        return or_(le(nt, 0), b)
    if b.op == "and":
        return and_(*[All_v(nt, v, x) for x in b.args])
    return All_v(nt, v, b)


def All_v(nt, v, b):
    if v not in free_idx(b):
        return or_(le(nt, 0), b)
    return mk_atom("all", "B", [v], [nt], TRUE, [b])


def Any(n, fn):
    return not_(All(n, lambda i: not_(boolt(fn(i)))))


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if depth > 12:
        return "..."
    d = depth + 1
    if t.op == "c":
        return str(t.args[0])
    if t.op == "v":
        return t.args[0]
    if t.op == "uf":
        return "%s(%s)" % (t.args[0], ", ".join(show(x, d) for x in t.args[1:]))
    if t.op == "poly":
        out = []
        for m, c in t.args:
            s = "*".join(show(f, d) for f in m)
            out.append(str(c) if not s else (s if c == 1 else "%s*%s" % (c, s)))
        return "(" + " + ".join(out) + ")"
    if t.op == "atom":
        a = t.args[0]
        return "%s[%s]" % (a.name, ", ".join(show(x, d) for x in t.args[1]))
    if t.op in ("le0", "lt0", "eq0"):
        return "%s %s 0" % (show(t.args[0], d), {"le0": "<=", "lt0": "<", "eq0": "=="}[t.op])
    return "%s(%s)" % (t.op, ", ".join(show(x, d) for x in t.args))


def describe(t):
    """show a term with the definitions of its atoms"""
    out = [show(t)]
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        for s in subterms([x]):
            if s.op == "atom" and s.args[0] not in seen:
                a = s.args[0]
                seen.add(a)
                out.append("  %s[%s] := %s over %s<%s mask %s: %s | %s" % (
                    a.name, ",".join(map(show, a.params)), a.kind, ",".join(map(show, a.binders)),
                    ",".join(map(show, a.sizes)), show(a.mask), "; ".join(map(show, a.bodies)), "; ".join(map(show, a.extras))))
                st.extend(a.bodies)
                st.append(a.mask)
                st.extend(a.extras)
    return "\n".join(out)
