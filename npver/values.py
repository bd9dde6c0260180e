"""Runtime values of the symbolic interpreter and the path context."""
from fractions import Fraction
import itertools
import time
from . import terms as tm
from . import solver as sv
from .terms import T, TRUE, FALSE, I, R


class Unsupported(Exception):
    """construct outside the reach of the verifier"""


class PyExc(Exception):
    """exception raised by the interpreted program"""

    def __init__(self, cls, msg=""):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class Infeasible(Exception):
    pass


# --------------------------------------------------------------- NaN scalars
class NT:
    """a float that is NaN when `nan` holds and `val` otherwise"""
    __slots__ = ("nan", "val")

    def __init__(self, nan, val):
        self.nan = nan
        self.val = val

    def __repr__(self):
        return "NT(%s,%s)" % (self.nan, self.val)


def mkNT(nan, val):
    nan = tm.boolt(nan)
    if nan is FALSE:
        return val
    if nan is TRUE:
        return NT(TRUE, R(0))
    return NT(nan, val)


def nanof(x):
    return x.nan if isinstance(x, NT) else FALSE


def valof(x):
    return x.val if isinstance(x, NT) else x


NAN = NT(TRUE, R(0))


class SymStr:
    """string with symbolic integer pieces"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def key(self):
        return self.parts

    def __repr__(self):
        return "SymStr%r" % (self.parts,)


class StrIte(SymStr):
    """one of two strings"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.parts = (("ite", c, a if isinstance(a, str) else a.parts, b if isinstance(b, str) else b.parts),)


def mkstr(parts):
    s = SymStr(parts)
    if all(isinstance(p, str) for p in s.parts):
        return "".join(s.parts)
    return s


_deep = {}


def deep_atoms(t):
    """definitions of the atoms of t, and of the atoms they are defined with"""
    r = _deep.get(t)
    if r is None:
        seen = set()
        st = [t]
        while st:
            for x in tm.subterms([st.pop()]):
                if x.op == "atom" and x.args[0] not in seen:
                    d = x.args[0]
                    seen.add(d)
                    st += list(d.sizes) + [d.mask] + list(d.bodies) + list(d.extras)
        r = _deep[t] = seen
    return r


def opaque_only(t):
    """the definitions of the real-valued atoms t speaks of, when it speaks of nothing else"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == "atom":
            if x.sort != "R" or x.args[1]:
                return None
            out.add(x.args[0])
        elif x.op in ("v", "uf"):
            return None
        else:
            st.extend(tm.children(x))
    return out


def relevant(pc, goal):
    """path facts without those about quantities that the rest never mentions
    (dropping hypotheses is always sound)"""
    odd = [(p, opaque_only(p)) for p in pc]
    odd = [(p, o) for p, o in odd if o]
    if not odd:
        return pc
    known = set(deep_atoms(goal))
    out = {p for p, o in odd}
    for p in pc:
        if p not in out:
            known |= deep_atoms(p)
    again = True
    while again:
        again = False
        for p, o in odd:
            if p in out and o & known:
                out.discard(p)
                known |= deep_atoms(p)
                again = True
    return [p for p in pc if p not in out]


# ------------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.base_pc = []
        self.hyps = []
        self.reset([])

    def reset(self, prefix):
        self.pc = list(self.base_pc)
        self.prefix = list(prefix)
        self.taken = []
        self.forks = []          # alternative prefixes discovered
        self.forkconds = []
        self.journal = None
        self.birth = itertools.count(1)
        self.stamp = 0
        tm.NONZERO.clear()
        self.cache = {}
        self.scope = []          # index-range assumptions of loop bodies
        self.sub = 0
        self.light = False       # linear reasoning only (inside loops with an invariant)

    def facts(self):
        return self.pc

    def prove(self, goal, timeout=None, extra=(), rounds=6, nl=500):
        goal = tm.boolt(goal)
        if goal.op == "c":
            return goal.args[0]
        if self.light:
            rounds, nl, timeout = min(rounds, 3), 0, 600
        key = (tuple(self.pc), goal, tuple(extra))
        r = self.cache.get(key)
        if r is None or (r is not True and r < rounds):
            r = sv.prove(relevant(list(self.pc) + list(extra), goal), self.hyps, goal, timeout=timeout or 1500, rounds=rounds, nl=nl).status == "proved" or rounds
            self.cache[key] = r
        return r is True

    def assume(self, t):
        t = tm.boolt(t)
        if t is FALSE:
            raise Infeasible()
        if t is TRUE:
            return
        for x in (t.args if t.op == "and" else (t,)):
            if x not in self.pc:
                self.pc.append(x)

    def decide(self, t):
        t = tm.boolt(t)
        if t.op == "c":
            return t.args[0]
        nt = tm.not_(t)
        if t in self.pc:
            return True
        if nt in self.pc:
            return False
        pos = len(self.taken)
        if pos < len(self.prefix):
            b, forced = self.prefix[pos]
            self.taken.append((b, forced))
            if not forced:
                self.forkconds.append(t if b else nt)
            self.assume(t if b else nt)
            return b
        # forced?  cheap attempts at both answers first
        if self.prove(t, rounds=1, nl=0, timeout=500):
            self.taken.append((True, True))
            self.assume(t)
            return True
        if self.prove(nt, rounds=2, nl=0):
            self.taken.append((False, True))
            self.assume(nt)
            return False
        odd = t.op == "eq0" and opaque_only(t)
        if odd and not any(o and o & odd for o in map(opaque_only, self.pc)):
            pass                # a computed real against a marker: either is possible
        elif self.prove(t):
            self.taken.append((True, True))
            self.assume(t)
            return True
        elif self.prove(nt):
            self.taken.append((False, True))
            self.assume(nt)
            return False
        self.forks.append(self.taken + [(False, False)])
        self.taken.append((True, False))
        self.forkconds.append(t)
        self.assume(t)
        return True


CTX = Ctx()


def nonzero(t):
    """can t be shown nonzero on this path? (recorded for simplification)"""
    t = tm.num(t)
    if t.op == "c":
        return t.args[0] != 0
    if t in tm.NONZERO:
        return True
    if CTX.prove(tm.ne(t, 0)):
        tm.NONZERO.add(t)
        if t.op != "toR" and t.sort == "I":
            tm.NONZERO.add(tm.toR(t))
        return True
    return False


# ---------------------------------------------------------------- dimensions
class Dim:
    __slots__ = ("kind", "n", "base", "mask", "key", "d1", "d2", "_size")


def plain(n):
    d = Dim()
    d.kind = "p"
    if isinstance(n, T) and n.op == "c":
        n = n.args[0]
    d.n = n
    d._size = n
    return d


_MK = {}


def dimvars(dim, name="i"):
    """fresh index of the dimension (structured)"""
    if dim.kind == "p":
        return tm.fresh(name, "I", True)
    if dim.kind == "f":
        return dimvars(dim.base, name)
    return (dimvars(dim.d1, name), dimvars(dim.d2, name))


def canvars(dim, path="m"):
    if dim.kind == "p":
        return tm.var("$%s" % path, "I", True)
    if dim.kind == "f":
        return canvars(dim.base, path)
    return (canvars(dim.d1, path + "l"), canvars(dim.d2, path + "r"))


def flatvars(ix):
    return list(itertools.chain(*[flatvars(x) for x in ix])) if isinstance(ix, tuple) else [ix]


def filt(base, mask):
    """sub-dimension of the elements of base satisfying mask (ordered)"""
    if base.kind == "f":
        b0, m0, m1 = base.base, base.mask, mask
        return filt(b0, lambda i: tm.and_(m0(i), m1(i)))
    d = Dim()
    d.kind = "f"
    d.base = base
    d.mask = mask
    d.key = tm.boolt(mask(canvars(base)))
    if d.key is TRUE:
        return base
    if base.kind == "p" and not isinstance(base.n, int) or True:
        pass
    d._size = None
    return d


def prod(d1, d2):
    d = Dim()
    d.kind = "x"
    d.d1 = d1
    d.d2 = d2
    d._size = None
    return d


def dsize(dim):
    if dim._size is None:
        if dim.kind == "f":
            dim._size = simp(dsum(dim.base, lambda i: tm.ind(dim.mask(i))))
        else:
            dim._size = mulv(dsize(dim.d1), dsize(dim.d2))
    return dim._size


def mulv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return simp(tm.mul(a, b))


def simp(t):
    """constant terms to Python numbers"""
    if isinstance(t, T) and t.op == "c":
        return t.args[0]
    return t


def dsum(dim, fn):
    if dim.kind == "p":
        return tm.Sum(dim.n, fn)
    if dim.kind == "f":
        return dsum(dim.base, lambda i: tm.ite(dim.mask(i), fn(i), _zero(fn(i))))
    return dsum(dim.d1, lambda i: dsum(dim.d2, lambda j: fn((i, j))))


def _zero(t):
    return R(0) if (isinstance(t, T) and t.sort == "R") or isinstance(t, Fraction) else I(0)


def dall(dim, fn):
    if dim.kind == "p":
        return tm.All(dim.n, fn)
    if dim.kind == "f":
        return dall(dim.base, lambda i: tm.implies(dim.mask(i), fn(i)))
    return dall(dim.d1, lambda i: dall(dim.d2, lambda j: fn((i, j))))


def dany(dim, fn):
    return tm.not_(dall(dim, lambda i: tm.not_(fn(i))))


def inr(dim, ix):
    """ix is a valid index of dim"""
    if dim.kind == "p":
        return tm.and_(tm.ge(ix, 0), tm.lt(ix, dim.n))
    if dim.kind == "f":
        return tm.and_(inr(dim.base, ix), dim.mask(ix))
    return tm.and_(inr(dim.d1, ix[0]), inr(dim.d2, ix[1]))


def samedim(a, b):
    """provably the same index space (same structured indices)"""
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind == "p":
        if isinstance(a.n, int) and isinstance(b.n, int):
            return a.n == b.n
        return CTX.prove(tm.eq(a.n, b.n))
    if a.kind == "f":
        if not samedim(a.base, b.base):
            return False
        if a.key is b.key:
            return True
        w = dimvars(a.base, "w")
        return CTX.prove(tm.iff(a.mask(w), b.mask(w)), extra=[inr(a.base, w)])
    return samedim(a.d1, b.d1) and samedim(a.d2, b.d2)


def is_one(dim):
    return dim.kind == "p" and dim.n == 1 and not isinstance(dim.n, T)


# -------------------------------------------------------------------- arrays
_bufc = itertools.count()


class Buf:
    __slots__ = ("shape", "elem", "dtype", "name", "id", "stamp", "init")

    def __init__(self, shape, elem, dtype, name=None):
        self.shape = tuple(shape)
        self.elem = elem
        self.dtype = dtype
        self.name = name
        self.id = next(_bufc)
        CTX.stamp += 1
        self.stamp = CTX.stamp
        self.init = elem

    def write(self, cond, val):
        """store val(ix) at the cells where cond(ix) holds"""
        old = self.elem
        if CTX.journal is not None and self.stamp <= CTX.journal.start:
            CTX.journal.bufs.setdefault(self, old)
            CTX.journal.writes.setdefault(self, []).append(cond)
        dt = self.dtype
        if dt == "i":
            val0 = val
            val = lambda ix: mkNT(nanof(val0(ix)), simp(tm.trunc(valof(val0(ix))))) if not isinstance(val0(ix), int) else val0(ix)
        elif dt == "b":
            val1 = val
            val = lambda ix: simp(s_truth(val1(ix)))

        def elem(ix):
            c = tm.boolt(cond(ix))
            if c is TRUE:
                return val(ix)
            if c is FALSE:
                return old(ix)
            return itev(c, val(ix), old(ix))
        self.elem = elem


class Arr:
    __slots__ = ("buf", "shape", "tob", "inv")

    def __init__(self, buf, shape=None, tob=None, inv=None):
        self.buf = buf
        self.shape = buf.shape if shape is None else tuple(shape)
        self.tob = tob
        self.inv = inv

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def snap(self):
        """immutable element function of the current contents"""
        e = self.buf.elem
        t = self.tob
        if t is None:
            return e
        return lambda ix: e(t(ix))

    def at(self, ix):
        return self.snap()(ix)


def mkarr(shape, elem, dtype="f", name=None):
    shape = tuple(s if isinstance(s, Dim) else plain(s) for s in shape)
    return Arr(Buf(shape, elem, dtype, name))


class LV:
    """Python list: concrete items, or a symbolic family over a dimension"""
    __slots__ = ("items", "dim", "get", "stamp")

    def __init__(self, items=None, dim=None, get=None):
        self.items = items
        self.dim = dim
        self.get = get
        CTX.stamp += 1
        self.stamp = CTX.stamp

    @property
    def concrete(self):
        return self.items is not None

    def append(self, v):
        if CTX.journal is not None and self.stamp <= CTX.journal.start:
            CTX.journal.events.append(("append", self, v))
            return
        if not self.concrete:
            n = self.dim
            if n.kind != "p":
                raise Unsupported("append to a filtered list")
            old, size = self.get, n.n
            self.dim = plain(simp(tm.add(size, 1)))
            self.get = lambda i: itev(tm.eq(i, size), v, old(i))
            return
        self.items.append(v)


class DV:
    """dict"""
    __slots__ = ("pairs", "fams", "stamp", "default")

    def __init__(self, pairs=()):
        self.pairs = [list(p) for p in pairs]
        self.fams = []
        self.default = None
        CTX.stamp += 1
        self.stamp = CTX.stamp

    def find(self, k):
        if CTX.journal is not None and self.stamp <= CTX.journal.start:
            CTX.journal.events.append(("dread", self, k))
        for p in reversed(self.pairs):
            if keyeq(p[0], k):
                return p
        return None

    def set(self, k, v):
        if CTX.journal is not None and self.stamp <= CTX.journal.start:
            CTX.journal.dicts.setdefault(self, [list(p) for p in self.pairs])
            CTX.journal.events.append(("dict", self, k, v))
        for p in reversed(self.pairs):
            if keyeq(p[0], k):
                p[1] = v
                return
        self.pairs.append([k, v])


def keyeq(a, b):
    """decides equality of dict keys / strings (may fork)"""
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        c = streq(a, b)
    elif isinstance(a, (int, T)) and isinstance(b, (int, T)) and not isinstance(a, bool) and not isinstance(b, bool):
        c = tm.eq(a, b) if isinstance(a, T) or isinstance(b, T) else a == b
    elif isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(keyeq(x, y) for x, y in zip(a, b))
    else:
        return type(a) == type(b) and a == b
    if isinstance(c, T):
        return CTX.decide(c)
    return c


def streq(a, b):
    """bool or T"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(b, StrIte) and not isinstance(a, StrIte):
        a, b = b, a
    if isinstance(a, StrIte):
        x, y = tm.boolt(streq(a.a, b)), tm.boolt(streq(a.b, b))
        r = simp(tm.or_(tm.and_(a.c, x), tm.and_(tm.not_(a.c), y)))
        return True if r is TRUE else False if r is FALSE else r
    pa = (a,) if isinstance(a, str) else a.parts
    pb = (b,) if isinstance(b, str) else b.parts
    if len(pa) == len(pb):
        cs = []
        ok = True
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    ok = False
            elif isinstance(x, tuple) or isinstance(y, tuple):
                if x != y:
                    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and len(x) == len(y):
                        cs.append(tm.eq(x[1], y[1]))
                    else:
                        raise Unsupported("comparison of formatted strings")
            elif isinstance(x, T) and isinstance(y, T):
                cs.append(tm.eq(x, y))
            else:
                raise Unsupported("comparison of symbolic strings")
        if ok:
            return tm.and_(*cs)
        # same number of pieces, literal pieces differ: integer pieces cannot
        # compensate when each literal piece is non-numeric at its borders
        return False
    # "feature_<int>" against a literal
    if len(pb) == 1 and isinstance(pb[0], str):
        pa, pb = pb, pa
    if len(pa) == 1 and isinstance(pa[0], str) and len(pb) == 2 and isinstance(pb[0], str) and isinstance(pb[1], T):
        s = pa[0]
        if s.startswith(pb[0]):
            rest = s[len(pb[0]):]
            if rest.lstrip("-").isdigit():
                return tm.eq(pb[1], int(rest))
        return False
    return False


class Obj:
    _c = itertools.count()

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        CTX.stamp += 1
        self.stamp = CTX.stamp
        self.id = next(Obj._c)

    def set(self, k, v):
        if CTX.journal is not None and self.stamp <= CTX.journal.start:
            CTX.journal.events.append(("attr", self, k, self.attrs.get(k), k in self.attrs, v))
        self.attrs[k] = v

    def __repr__(self):
        return "<%s obj>" % self.cls.name


class Journal:
    def __init__(self):
        self.start = CTX.stamp
        self.events = []
        self.bufs = {}
        self.writes = {}
        self.dicts = {}


# ------------------------------------------------------------ scalar algebra
def isnum(x):
    return isinstance(x, (int, Fraction, T, NT)) and not isinstance(x, str)


def lift2(f):
    def g(a, b):
        n = tm.or_(nanof(a), nanof(b))
        return mkNT(n, f(valof(a), valof(b)))
    return g


def conc(a):
    return isinstance(a, (int, Fraction, bool))


def s_add(a, b):
    if conc(a) and conc(b):
        return norm(a + b)
    return lift2(tm.add)(a, b)


def s_sub(a, b):
    if conc(a) and conc(b):
        return norm(a - b)
    return lift2(tm.sub)(a, b)


def s_mul(a, b):
    if conc(a) and conc(b):
        return norm(a * b)
    return lift2(tm.mul)(a, b)


def norm(x):
    return x


def s_neg(a):
    if conc(a):
        return -a
    return mkNT(nanof(a), tm.neg(valof(a)))


def s_div(a, b, checked=False):
    if conc(a) and conc(b):
        if b == 0:
            raise PyExc("ZeroDivisionError", "division by zero")
        return Fraction(a) / Fraction(b)
    bv = valof(b)
    bad = FALSE
    if not checked:
        if not nonzero(bv):
            bad = tm.eq(bv, 0)
    n = tm.or_(nanof(a), nanof(b), bad)
    return mkNT(n, tm.div(valof(a), bv))


def s_pow(a, b):
    if conc(a) and conc(b):
        if isinstance(b, int) and b >= 0:
            return a ** b
        if b == Fraction(1, 2):
            return simp(tm.sqrt(a))
        raise Unsupported("power")
    b = simp(b) if isinstance(b, T) else b
    if isinstance(b, int) and b >= 0:
        return mkNT(nanof(a), tm.powi(valof(a), b))
    if isinstance(b, Fraction) and b.denominator == 1 and b >= 0:
        return mkNT(nanof(a), tm.toR(tm.powi(valof(a), int(b))))
    if isinstance(b, Fraction) and b == Fraction(1, 2):
        return s_sqrt(a)
    if isinstance(b, int) and b < 0:
        return s_div(1, s_pow(a, -b))
    raise Unsupported("power with symbolic exponent")


def s_sqrt(a):
    return mkNT(nanof(a), tm.sqrt(valof(a)))


def s_floordiv(a, b):
    if conc(a) and conc(b):
        if b == 0:
            raise PyExc("ZeroDivisionError", "division by zero")
        return a // b if isinstance(a, int) and isinstance(b, int) else Fraction(Fraction(a) // Fraction(b))
    ta, tb = tm.num(valof(a)), tm.num(valof(b))
    if ta.sort == "I" and tb.sort == "I":
        if CTX.prove(tm.gt(tb, 0)):
            return tm.idiv(ta, tb)
    raise Unsupported("floor division")


def s_mod(a, b):
    if conc(a) and conc(b):
        return a % b
    ta, tb = tm.num(valof(a)), tm.num(valof(b))
    if ta.sort == "I" and tb.sort == "I" and CTX.prove(tm.gt(tb, 0)):
        return tm.imod(ta, tb)
    raise Unsupported("modulo")


def s_cmp(op, a, b):
    """-> bool or T"""
    if conc(a) and conc(b):
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
    nan = tm.or_(nanof(a), nanof(b))
    r = getattr(tm, op)(valof(a), valof(b))
    if op == "ne":
        return simp(tm.or_(nan, r))
    return simp(tm.and_(tm.not_(nan), r))


def s_truth(a):
    """T condition of a scalar"""
    if conc(a):
        return tm.B(bool(a))
    if isinstance(a, NT):
        return tm.or_(a.nan, tm.boolt(a.val))
    return tm.boolt(a)


def s_ite(c, a, b):
    """ite on scalars"""
    c = tm.boolt(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, NT) or isinstance(b, NT):
        return mkNT(tm.ite(c, nanof(a), nanof(b)), tm.ite(c, valof(a), valof(b)))
    if isinstance(a, bool):
        a = tm.B(a)
    if isinstance(b, bool):
        b = tm.B(b)
    return tm.ite(c, a, b)


def itev(c, a, b):
    """ite on arbitrary values (scalars, arrays of equal shape, tuples)"""
    c = tm.boolt(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isnum(a) and isnum(b):
        return s_ite(c, a, b)
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(itev(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(samedim(x, y) for x, y in zip(a.shape, b.shape)):
        ga, gb = a.snap(), b.snap()
        return mkarr(a.shape, lambda ix: s_ite(c, ga(ix), gb(ix)), a.dtype if a.dtype == b.dtype else "f")
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return a if isinstance(a, str) and isinstance(b, str) and a == b else StrIte(c, a, b)
    if a is None and b is None:
        return None
    raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))


def scalar_t(x):
    """value term of a scalar (must not be NaN-able)"""
    if isinstance(x, NT):
        raise Unsupported("possibly-NaN value used as an index or condition")
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return tm.B(x)
    return tm.num(x)


# deep substitution of index variables in values --------------------------------
def subst_value(v, m):
    if isinstance(v, T):
        return simp(tm.subst(v, m))
    if isinstance(v, NT):
        return mkNT(tm.subst(v.nan, m), tm.subst(v.val, m))
    if isinstance(v, StrIte):
        return itev(simp(tm.subst(v.c, m)), subst_value(v.a, m), subst_value(v.b, m))
    if isinstance(v, SymStr):
        return mkstr([simp_str(subst_value(p, m)) if isinstance(p, T) else (tuple(subst_value(q, m) if isinstance(q, T) else q for q in p) if isinstance(p, tuple) else p) for p in v.parts])
    if isinstance(v, Arr):
        g = v.snap()
        shape = [subst_dim(d, m) for d in v.shape]
        return mkarr(shape, lambda ix: subst_elem(g, ix, m, v.shape), v.dtype)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, LV):
        if v.concrete:
            return LV([subst_value(x, m) for x in v.items])
        g, d = v.get, v.dim
        return LV(dim=subst_dim(d, m), get=lambda i: subst_fn(g, i, m, d))
    if isinstance(v, DV):
        return DV([(subst_value(k, m), subst_value(x, m)) for k, x in v.pairs])
    return v


def simp_str(p):
    return str(p) if isinstance(p, int) else p


def subst_elem(g, ix, m, shape):
    # evaluate at fresh index variables first, so that substituted variables
    # occurring in ix itself are not captured
    fv = tuple(dimvars(d, "z") for d in shape)
    e = g(fv)
    mm = dict(m)
    _bind(fv, ix, mm)
    if isinstance(e, (T, NT)):
        return subst_value(e, mm)
    return subst_value(e, mm)


def subst_fn(g, i, m, d):
    fv = dimvars(d, "z")
    e = g(fv)
    mm = dict(m)
    _bind((fv,), (i,), mm)
    return subst_value(e, mm)


def _bind(fv, ix, mm):
    for a, b in zip(fv, ix):
        if isinstance(a, tuple):
            _bind(a, b, mm)
        else:
            mm[a] = tm.num(b)


def subst_dim(d, m):
    if d.kind == "p":
        return d if isinstance(d.n, int) else plain(simp(tm.subst(d.n, m)))
    if d.kind == "f":
        mk = d.mask
        b = d.base
        nb = subst_dim(b, m)

        def nm(i):
            fv = dimvars(b, "z")
            mm = dict(m)
            _bind((fv,), (i,), mm)
            return tm.subst(mk(fv), mm)
        return filt(nb, nm)
    return prod(subst_dim(d.d1, m), subst_dim(d.d2, m))
