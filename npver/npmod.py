"""Contracts of the numpy functions, as assumed by the verifier.

Floats are mathematical reals (plus an explicit NaN flag), arrays are functions
from (structured) indices to scalars over symbolic dimensions."""
from fractions import Fraction
import itertools
import time
from . import terms as tm
from .terms import T, TRUE, FALSE, I, R
from .values import *
from . import values as V
from . import interp as ip
from . import solver as sv
from .interp import norm_index, slice_bounds, SliceV, RangeV, TypeV, ModV, BUILTINS

# ----------------------------------------------------------------- basics
def lam(shape, fn, dtype="f", name=None):
    """array whose element function is evaluated once, symbolically"""
    shape = tuple(s if isinstance(s, Dim) else plain(s) for s in shape)
    if tm.CONCRETE:
        memo = {}

        def elem(ix):
            if ix not in memo:
                memo[ix] = fn(ix)
            return memo[ix]
        return mkarr(shape, elem, dtype, name)
    fv = tuple(dimvars(d, "e") for d in shape)
    e = with_idx(shape, fv, lambda: fn(fv))
    memo = {}

    def elem2(ix):
        r = memo.get(ix)
        if r is None:
            m = {}
            V._bind(fv, ix, m)
            r = memo[ix] = subst_value(e, m) if isinstance(e, (T, NT)) else e
        return r
    return mkarr(shape, elem2, dtype, name)


def with_idx(shape, fv, f):
    """evaluate f under the assumption that fv is a valid index"""
    save, nz = CTX.pc, set(tm.NONZERO)
    CTX.pc = list(save)
    try:
        for d, v in zip(shape, fv):
            g = tm.boolt(inr(d, v))
            for x in (g.args if g.op == "and" else (g,)):
                if x is not TRUE and x not in CTX.pc:
                    CTX.pc.append(x)
        r = f()
        return denan(r)
    finally:
        CTX.pc = save
        tm.NONZERO.clear()
        tm.NONZERO.update(nz)


def denan(r):
    if isinstance(r, NT) and r.nan is not TRUE and CTX.prove(tm.not_(r.nan), rounds=3, nl=0):
        return r.val
    return r


def sdtype(x):
    x = valof(x)
    if isinstance(x, bool) or isinstance(x, T) and x.sort == "B":
        return "b"
    if isinstance(x, int) or isinstance(x, T) and x.sort == "I":
        return "i"
    return "f"


def unsup(msg):
    raise Unsupported(msg)


def promote(*ds):
    return "f" if "f" in ds else ("i" if "i" in ds else "b")


def isscalar(x):
    return isnum(x)


def toarr(x, dtype=None):
    """np.asarray: Arr or scalar"""
    if isinstance(x, Arr) or isnum(x):
        return x
    if isinstance(x, (LV, tuple, RangeV)) or isinstance(x, ip.Iter):
        return np_array(x)
    if x is None or isinstance(x, (str, SymStr, DV)):
        raise PyExc("TypeError", "unsupported operand for a numpy function")
    raise Unsupported("array from %s" % type(x).__name__)


_INTERP = [None]


def np_array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, Arr):
        r = copyarr(x)
    elif isnum(x):
        r = mkarr((), lambda ix: x, sdtype(x))
    else:
        k, it = _INTERP[0].iterable(x)
        if k == "c":
            it = list(it)
            els = [toarr(e) for e in it]
            if not els:
                r = mkarr((0,), lambda ix: Fraction(0), "f")
            elif all(isnum(e) for e in els):
                dt = promote(*[sdtype(e) for e in els])
                if len(els) > 60 and not tm.CONCRETE:
                    raise Unsupported("large literal array")
                r = mkarr((len(els),), lambda ix: ip.pick(els, ix[0]), dt)
            else:
                r = np_stack(els, 0)
        else:
            dim, get = it
            v = dimvars(dim, "l")
            e = with_idx((dim,), (v,), lambda: get(v))
            e = toarr(e)
            if isnum(e):
                r = lam((dim,), lambda ix: get(ix[0]), sdtype(e))
            else:
                r = lam((dim,) + e.shape, lambda ix: toarr(get(ix[0])).at(ix[1:]), e.dtype)
    if dtype is not None:
        r = astype(r, dtype)
    while ndmin > r.ndim:
        r = np_expand_dims(r, 0)
    return r


def copyarr(a):
    g = a.snap()
    return mkarr(a.shape, g, a.dtype)


def dtchar(dtype):
    n = dtype if isinstance(dtype, str) else getattr(dtype, "name", None)
    if n is None:
        raise Unsupported("dtype %r" % (dtype,))
    n = n.split(".")[-1]
    if n in ("float", "float64", "double", "f", "f8", "float_", "<f8"):
        return "f"
    if n in ("int", "int64", "i", "intp", "int_", "i8"):
        return "i"
    if n in ("bool", "bool_", "b", "?"):
        return "b"
    raise Unsupported("dtype %s" % n)


def conv_scalar(x, dt):
    if dt == "f":
        if isinstance(x, NT):
            return NT(x.nan, tm.toR(x.val))
        if isinstance(x, bool):
            return Fraction(int(x))
        if isinstance(x, int):
            return Fraction(x)
        if isinstance(x, T):
            return simpf(tm.toR(x))
        return x
    if dt == "i":
        if isinstance(x, NT):
            raise Unsupported("NaN to int")
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, Fraction):
            return int(x)
        return simp(tm.trunc(x))
    return simp(s_truth(x))


def simpf(t):
    if isinstance(t, T) and t.op == "c":
        return t.args[0]
    return t


def astype(a, dtype):
    dt = dtchar(dtype)
    if isnum(a):
        return conv_scalar(a, dt)
    if a.dtype == dt:
        return copyarr(a)
    g = a.snap()
    return lam(a.shape, lambda ix: conv_scalar(g(ix), dt), dt)


# ------------------------------------------------- plain <-> structured index
RANKS = {}


def toplain(dim):
    """(plain dim, map from plain to structured indices)"""
    if dim.kind == "p":
        return dim, (lambda k: k)
    n = dsize(dim)
    return plain(n), (lambda k: unplain(dim, k))


def unplain(dim, k):
    if dim.kind == "p":
        return k
    k = tm.num(k) if not isinstance(k, T) else k
    h = RANKS.get(k)
    if h is not None and h[0] == dimkey(dim):
        return h[1]
    if dim.kind == "f":
        if dim.base.kind != "p":
            raise Unsupported("positional access to a masked multi-dimensional selection")
        v = tm.fresh("i", "I", True)
        return tm.mk_atom("sel", "I", [v], [tm.num(dim.base.n)], tm.boolt(dim.mask(v)), [], [k])
    n2 = tm.num(dsize(dim.d2))
    q, r = tm.idiv(k, n2), tm.imod(k, n2)
    return (unplain(dim.d1, simp(q)), unplain(dim.d2, simp(r)))


def dimkey(d):
    if d.kind == "p":
        return ("p", d.n)
    if d.kind == "f":
        return ("f", dimkey(d.base), d.key)
    return ("x", dimkey(d.d1), dimkey(d.d2))


def rank(dim, ix):
    """position of the structured index in its dimension"""
    if dim.kind == "p":
        return ix
    if dim.kind == "f":
        if dim.base.kind != "p":
            raise Unsupported("rank in a masked multi-dimensional selection")
        if isinstance(ix, T) and ix.op == "atom" and ix.args[0].kind == "sel":
            d, ps = ix.args
            s, m, b, e = d.inst(ps)
            if unplain(dim, e[0]) is ix:
                return e[0]
        r = tm.Count(ix, lambda i: dim.mask(i))
        RANKS[r] = (dimkey(dim), ix)
        return r
    return simp(tm.add(tm.mul(rank(dim.d1, ix[0]), dsize(dim.d2)), rank(dim.d2, ix[1])))


def plainarr(a):
    """same array with plain dimensions only"""
    if all(d.kind == "p" for d in a.shape):
        return a
    ms = [toplain(d) for d in a.shape]
    g = a.snap()
    return lam([m[0] for m in ms], lambda ix: g(tuple(m[1](i) for m, i in zip(ms, ix))), a.dtype)


# ------------------------------------------------------------------ views
def view(a, shape, tob, inv):
    """tob: view index -> index of a;  inv: index of a -> (cond, view index)"""
    ptob, pinv = a.tob, a.inv
    ntob = tob if ptob is None else (lambda ix: ptob(tob(ix)))
    if inv is None or (ptob is not None and pinv is None):
        ninv = None
        return Arr(a.buf, shape, ntob, None)
    if ptob is None:
        ninv = inv
    else:
        def ninv(bix):
            c, p = pinv(bix)
            c2, v = inv(p)
            return tm.and_(c, c2), v
    return Arr(a.buf, shape, ntob, ninv)


def regroup(a, shape, tob, inv):
    return view(a, shape, tob, lambda p: (TRUE, inv(p)))


def as_int(x):
    if isinstance(x, Arr) and x.ndim == 0:
        x = x.at(())
    return x


def basic(a, keys):
    """basic indexing; keys: list with ints/T, SliceV, None; covers all axes"""
    shape = []
    spec = []      # per parent axis: ('fix', ix) | ('full', vaxis) | ('aff', start, step, size, vaxis) | ('map', f, vaxis)
    ax = 0
    newax = []
    readonly = False
    for k in keys:
        if k is None:
            newax.append(len(shape))
            shape.append(plain(1))
            continue
        d = a.shape[ax]
        if isinstance(k, SliceV):
            if k.start is None and k.stop is None and k.step in (None, 1):
                spec.append(("full", len(shape)))
                shape.append(d)
            else:
                k = SliceV(*[as_int(simp(x) if isinstance(x, T) else x) for x in (k.start, k.stop, k.step)])
                n = dsize(d)
                s, sz, st = slice_bounds(k, n)
                if d.kind == "p":
                    if isinstance(s, int) and s == 0 and st == 1 and (sz is n or CTX.prove(tm.eq(sz, n))):
                        spec.append(("full", len(shape)))
                        shape.append(d)
                    else:
                        spec.append(("aff", s, st, sz, len(shape)))
                        shape.append(plain(sz))
                else:
                    pd, mp = toplain(d)
                    spec.append(("map", lambda j, mp=mp, s=s, st=st: mp(simp(tm.add(s, tm.mul(j, st)))), len(shape)))
                    readonly = True
                    shape.append(plain(sz))
        else:
            k = norm_index(k, dsize(d))
            spec.append(("fix", unplain(d, k), d))
            if d.kind != "p":
                readonly = True
        ax += 1
    ndim = len(shape)

    def tob(ix):
        out = []
        for s in spec:
            if s[0] == "fix":
                out.append(s[1])
            elif s[0] == "full":
                out.append(ix[s[1]])
            elif s[0] == "aff":
                out.append(simp(tm.add(s[1], tm.mul(ix[s[4]], s[2]))))
            else:
                out.append(s[1](ix[s[2]]))
        return tuple(out)

    def inv(p):
        c = []
        v = [0] * ndim
        for s, x in zip(spec, p):
            if s[0] == "fix":
                c.append(eqix(x, s[1]))
            elif s[0] == "full":
                v[s[1]] = x
            else:
                st = s[2]
                if st == 1:
                    j = simp(tm.sub(x, s[1]))
                elif st == -1:
                    j = simp(tm.sub(s[1], x))
                else:
                    dlt = tm.sub(x, s[1]) if st > 0 else tm.sub(s[1], x)
                    c.append(tm.eq(tm.imod(dlt, I(abs(st))), 0))
                    j = simp(tm.idiv(dlt, I(abs(st))))
                c.append(tm.and_(tm.ge(j, 0), tm.lt(j, s[3])))
                v[s[4]] = j
        return tm.and_(*c), tuple(v)
    return view(a, shape, tob, None if readonly else inv)


def eqix(a, b):
    if isinstance(a, tuple):
        return tm.and_(*[eqix(x, y) for x, y in zip(a, b)])
    return tm.eq(a, b)


def splitkey(a, key):
    keys = list(key) if isinstance(key, tuple) else [key]
    out = []
    for k in keys:
        if isinstance(k, Arr) and k.ndim == 0:
            k = k.at(())
        if isinstance(k, (LV, RangeV)) or isinstance(k, tuple):
            k = np_array(k)
        if isinstance(k, bool):
            raise Unsupported("boolean scalar index")
        if isinstance(k, Fraction) and not isinstance(k, int):
            raise PyExc("IndexError", "only integers, slices... are valid indices")
        if isinstance(k, (str, SymStr, DV, Obj)):
            raise PyExc("IndexError", "only integers, slices... are valid indices")
        out.append(k)
    used = 0
    for k in out:
        if k is None or k is Ellipsis:
            continue
        used += k.ndim if isinstance(k, Arr) and k.dtype == "b" else 1
    if any(k is Ellipsis for k in out):
        i = next(j for j, k in enumerate(out) if k is Ellipsis)
        out[i:i + 1] = [SliceV(None, None, None)] * (a.ndim - used)
    else:
        out += [SliceV(None, None, None)] * (a.ndim - used)
    if used > a.ndim:
        raise PyExc("IndexError", "too many indices for array")
    return out


def tidy(x):
    """drop the alternatives of a scalar that the path condition excludes"""
    while isinstance(x, T) and x.op == "ite" and not any(t.op in ("app", "atom") for t in tm.subterms([x.args[0]])):
        if CTX.prove(x.args[0], rounds=1, nl=0, timeout=300):
            x = x.args[1]
        elif CTX.prove(tm.not_(x.args[0]), rounds=1, nl=0, timeout=300):
            x = x.args[2]
        else:
            break
    return x


def getitem(a, key):
    if not isinstance(a, Arr):
        raise PyExc("TypeError", "not subscriptable")
    keys = splitkey(a, key)
    adv = [k for k in keys if isinstance(k, Arr)]
    if not adv:
        v = basic(a, keys)
        if v.ndim == 0 and not any(k is Ellipsis for k in (key if isinstance(key, tuple) else (key,))):
            return tidy(v.at(()))
        return v
    if len(adv) == 1 and adv[0].dtype == "b" and adv[0].ndim > 1:
        m = adv[0]
        if m.ndim != a.ndim:
            raise Unsupported("partial boolean mask")
        a1, d = flatten_dims(a)
        m1, dm = flatten_dims(m)
        return getitem(a1, m1)
    # apply the basic part first
    bkeys = [SliceV(None, None, None) if isinstance(k, Arr) else k for k in keys]
    v = basic(a, bkeys)
    pos = []
    p = 0
    for k in keys:
        if isinstance(k, Arr):
            pos.append(p)
            p += 1
        elif k is None or isinstance(k, SliceV):
            p += 1
    # numpy moves the advanced axes first when they are separated by slices
    if len(adv) > 1 and pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("separated advanced indices")
    if any(not (k is None or isinstance(k, (SliceV, Arr))) for k in keys):
        idx = [i for i, k in enumerate(keys) if not (k is None or isinstance(k, SliceV))]
        if idx != list(range(idx[0], idx[0] + len(idx))):
            raise Unsupported("separated advanced indices")
    g = v.snap()
    if len(adv) == 1:
        k = adv[0]
        ax = pos[0]
        d = v.shape[ax]
        if k.dtype == "b":
            nd, mp = mask_dim(d, k)
            return lam(v.shape[:ax] + (nd,) + v.shape[ax + 1:], lambda ix: g(ix[:ax] + (mp(ix[ax]),) + ix[ax + 1:]), v.dtype)
        if r_identity(k, d):
            return lam(v.shape, g, v.dtype)         # x[arange(len(x))]: a copy
        f = gather_index(k, d)
        r = k.ndim
        return lam(v.shape[:ax] + k.shape + v.shape[ax + 1:], lambda ix: g(ix[:ax] + (f(ix[ax:ax + r]),) + ix[ax + r:]), v.dtype)
    if any(k.dtype == "b" for k in adv):
        raise Unsupported("several masks")
    shp, maps = broadcast([k for k in adv])
    fs = [gather_index(k, v.shape[q]) for k, q in zip(adv, pos)]
    ax, r, m = pos[0], len(shp), len(adv)
    return lam(v.shape[:ax] + shp + v.shape[ax + m:],
               lambda ix: g(ix[:ax] + tuple(f(mp(ix[ax:ax + r])) for f, mp in zip(fs, maps)) + ix[ax + r:]), v.dtype)


def r_identity(k, d):
    """is k the index array 0, 1, ..., size(d)-1?"""
    if k.ndim != 1 or k.dtype != "i" or k.shape[0].kind != "p" or d.kind == "p":
        return False
    if tm.eq(dsize(k.shape[0]), dsize(d)) is not TRUE:
        return False
    i = tm.fresh("k", "I", True)
    return k.at((i,)) is i


def alltrue(d, gm):
    """is the mask provably true everywhere?"""
    fv = (dimvars(d, "k"),)
    m = with_idx((d,), fv, lambda: s_truth(gm(fv)))
    if m.op == "c":
        return m.args[0]
    return with_idx((d,), fv, lambda: CTX.prove(m, timeout=600, rounds=3, nl=0))


def mask_dim(d, k):
    """dimension selected by the 1-d boolean array k along dimension d, and the
    map from its indices to indices of d"""
    if k.ndim != 1:
        raise Unsupported("mask rank")
    kd = k.shape[0]
    gm = k.snap()
    if samedim(d, kd):
        if alltrue(d, gm):
            return d, (lambda i: i)
        return filt(d, lambda i: s_truth(gm((i,)))), (lambda i: i)
    if not CTX.decide(tm.eq(dsize(d), dsize(kd))):
        raise PyExc("IndexError", "boolean index did not match")
    if d.kind == "p" and kd.kind == "p":
        return filt(d, lambda i: s_truth(gm((i,)))), (lambda i: i)
    pd, m1 = toplain(d)
    _, m2 = toplain(kd)
    return filt(pd, lambda i: s_truth(gm((m2(i),)))), m1


def gather_index(k, d):
    """index function of an integer array k into dimension d (bounds-checked)"""
    if k.dtype == "f":
        if all(isinstance(x.n, int) and x.n == 0 for x in k.shape if x.kind == "p") and k.ndim:
            return lambda ix: 0
        raise PyExc("IndexError", "arrays used as indices must be of integer (or boolean) type")
    g = k.snap()
    n = dsize(d)
    fv = tuple(dimvars(x, "g") for x in k.shape)
    # indices known to be positions of this very dimension
    val = with_idx(k.shape, fv, lambda: g(fv))
    vt = tm.num(val) if not isinstance(val, NT) else unsup("NaN index")
    if d.kind != "p":
        h = RANKS.get(vt)
        if h is not None and h[0] == dimkey(d):
            return lambda ix: unplain(d, subst_value(vt, _bnd(fv, ix)) if RANKS.get(tm.num(g(ix))) is None else tm.num(g(ix)))
    rng = with_idx(k.shape, fv, lambda: CTX.prove(tm.and_(tm.ge(vt, 0), tm.lt(vt, n))))
    if rng:
        return lambda ix: unplain(d, g(ix))
    wrap = with_idx(k.shape, fv, lambda: CTX.prove(tm.ge(vt, 0)))
    ok = nall(k.shape, lambda ix: tm.and_(tm.ge(g(ix), 0 if wrap else tm.neg(n)), tm.lt(g(ix), n)))
    if not CTX.decide(ok):
        raise PyExc("IndexError", "index out of bounds")
    if wrap:
        return lambda ix: unplain(d, g(ix))
    return lambda ix: unplain(d, simp(tm.ite(tm.lt(g(ix), 0), tm.add(g(ix), n), g(ix))))


def _bnd(fv, ix):
    m = {}
    V._bind(fv, ix, m)
    return m


def setitem(a, key, v):
    keys = splitkey(a, key)
    adv = [k for k in keys if isinstance(k, Arr)]
    v = toarr(v)
    if len(adv) == 1 and adv[0].dtype == "b" and adv[0].ndim > 1:
        m = adv[0]
        if m.ndim != a.ndim:
            raise Unsupported("partial boolean mask")
        gm = m.snap()
        if not all(samedim(x, y) for x, y in zip(m.shape, a.shape)):
            raise Unsupported("mask shape")
        if isinstance(v, Arr) and v.ndim:
            raise Unsupported("masked multi-dimensional store of an array")
        vv = v if isnum(v) else v.at(())
        store(a, lambda ix: s_truth(gm(ix)), lambda ix: vv)
        return
    bkeys = [SliceV(None, None, None) if isinstance(k, Arr) else k for k in keys]
    w = basic(a, bkeys)
    pos = []
    p = 0
    for k in keys:
        if isinstance(k, Arr):
            pos.append(p)
            p += 1
        elif k is None or isinstance(k, SliceV):
            p += 1
    if not adv:
        val = bcast_to(v, w.shape)
        store(w, lambda ix: TRUE, val)
        return
    if len(adv) > 1:
        if all(k.ndim == 1 and isinstance(k.shape[0].n, int) and k.shape[0].kind == "p" for k in adv) and w.ndim == len(adv):
            n = max(k.shape[0].n for k in adv)
            for i in range(n):
                setitem(w, tuple(k.at((i if k.shape[0].n > 1 else 0,)) for k in adv), getitem(v, i) if isinstance(v, Arr) and v.ndim else v)
            return
        raise Unsupported("store through several index arrays")
    k = adv[0]
    ax = pos[0]
    if k.dtype == "b":
        d = w.shape[ax]
        if not samedim(d, k.shape[0]) and not CTX.decide(tm.eq(dsize(d), dsize(k.shape[0]))):
            raise PyExc("IndexError", "boolean index did not match")
        nd, mp = mask_dim(d, k)
        gm = k.snap()
        shp = w.shape[:ax] + (nd,) + w.shape[ax + 1:]
        val = bcast_to(v, shp)
        store(w, lambda ix: s_truth(gm((ix[ax],))), val)
        return
    if k.ndim == 1 and k.shape[0].kind == "p" and isinstance(k.shape[0].n, int):
        n = k.shape[0].n
        for i in range(n):
            sub = tuple([SliceV(None, None, None)] * ax + [k.at((i,))])
            if isinstance(v, Arr) and v.ndim:
                vd = v.ndim - (w.ndim - ax)
                vi = getitem(v, tuple([SliceV(None, None, None)] * vd + [i])) if vd >= 0 and not is_one(v.shape[vd]) else v
            else:
                vi = v
            setitem(w, sub, vi)
        return
    # identity selections (np.where(mask)[0], [i for i in range(n) if ...])
    kd = k.shape[0] if k.ndim == 1 else None
    if kd is not None and kd.kind == "f" and w.shape[ax].kind == "p":
        z = dimvars(kd, "s")
        if tm.num(k.at((z,))) is z:
            shp = w.shape[:ax] + (kd,) + w.shape[ax + 1:]
            val = bcast_to(v, shp)
            store(w, lambda ix: tm.and_(inr(kd, ix[ax])), val)
            return
    raise Unsupported("store through a symbolic index array")


def store(w, cond, val):
    if w.dtype == "i" or w.dtype == "b":
        pass
    if w.tob is None:
        w.buf.write(cond, val)
        return
    inv = w.inv
    if inv is None:
        raise Unsupported("store through a reshaped selection")

    def c2(bix):
        c, ix = inv(bix)
        if c is FALSE:
            return FALSE
        return tm.and_(c, cond(ix))

    def v2(bix):
        return val(inv(bix)[1])
    w.buf.write(c2, v2)


def index_axis0(a, i):
    """a[i] for an in-range structured index of the first dimension"""
    if a.ndim == 1:
        return a.at((i,))
    return view(a, a.shape[1:], lambda ix: (i,) + ix, lambda p: (eqix(p[0], i), p[1:]))


# --------------------------------------------------------------- broadcasting
def broadcast(arrs):
    """common shape and per-array index maps"""
    nd = max([a.ndim for a in arrs] + [0])
    shape = []
    for ax in range(nd):
        ds = []
        for a in arrs:
            j = ax - (nd - a.ndim)
            if j >= 0:
                ds.append(a.shape[j])
        big = [d for d in ds if not is_one(d)]
        if not big:
            shape.append(ds[0])
            continue
        d0 = big[0]
        for d in big[1:]:
            d0 = unify(d0, d)
        shape.append(d0)
    maps = []
    for a in arrs:
        off = nd - a.ndim
        cv = []
        for j, d in enumerate(a.shape):
            t = shape[off + j]
            cv.append(dimmap(t, d))
        maps.append(lambda ix, off=off, cv=cv: tuple(c(x) for c, x in zip(cv, ix[off:])))
    return tuple(shape), maps


def unify(d, e):
    if d is e or samedim(d, e):
        return d
    nd_, ne_ = dsize(d), dsize(e)
    if CTX.decide(tm.eq(nd_, ne_)):
        if d.kind == "p":
            return d
        if e.kind == "p":
            return e
        return toplain(d)[0]
    if isinstance(ne_, T) and CTX.decide(tm.eq(ne_, 1)):
        return d
    if isinstance(nd_, T) and CTX.decide(tm.eq(nd_, 1)):
        return e
    raise PyExc("ValueError", "operands could not be broadcast together")


def dimmap(t, d):
    """indices of the broadcast dimension t -> indices of d"""
    if t is d:
        return lambda x: x
    if is_one(d):
        return lambda x: 0
    if samedim(t, d):
        return lambda x: x
    n1, n2 = dsize(t), dsize(d)
    if not CTX.prove(tm.eq(n1, n2)) and CTX.prove(tm.eq(n2, 1)):
        return lambda x: unplain(d, 0)
    return lambda x: unplain(d, rank(t, x))


def bcast_to(v, shape):
    """element function of v broadcast to shape (for stores)"""
    if isnum(v):
        return lambda ix: v
    vs = v
    while vs.ndim > len(shape):
        if is_one(vs.shape[0]):
            vs = basic(vs, [0] + [SliceV(None, None, None)] * (vs.ndim - 1))
        else:
            raise PyExc("ValueError", "could not broadcast input array")
    g = vs.snap()
    off = len(shape) - vs.ndim
    cv = []
    for j, d in enumerate(vs.shape):
        t = shape[off + j]
        if not is_one(d) and not samedim(d, t):
            if not CTX.decide(tm.eq(dsize(d), dsize(t))):
                if isinstance(dsize(d), T) and CTX.decide(tm.eq(dsize(d), 1)):
                    cv.append(lambda x, d=d: unplain(d, 0))
                    continue
                raise PyExc("ValueError", "could not broadcast input array")
        cv.append(dimmap(t, d))
    return lambda ix: g(tuple(c(x) for c, x in zip(cv, ix[off:])))


def ufunc(f, args, dtype):
    args = [toarr(a) for a in args]
    if all(isnum(a) for a in args):
        r = f(*args)
        return simp(r) if isinstance(r, T) else r
    shape, maps = broadcast([a for a in args if isinstance(a, Arr)])
    it = iter(maps)
    gs = []
    for a in args:
        if isinstance(a, Arr):
            m = next(it)
            g = a.snap()
            gs.append(lambda ix, g=g, m=m: g(m(ix)))
        else:
            gs.append(lambda ix, a=a: a)
    if not shape:
        return f(*[g(()) for g in gs])     # 0-d results decay to scalars
    return lam(shape, lambda ix: f(*[g(ix) for g in gs]), dtype)


def adtype(x):
    return x.dtype if isinstance(x, Arr) else sdtype(x)


def map1(a, f, dtype=None):
    return ufunc(f, [a], dtype or adtype(a))


_OPS = {"Add": s_add, "Sub": s_sub, "Mult": s_mul, "Div": None, "Pow": s_pow, "FloorDiv": s_floordiv, "Mod": s_mod}


def npdiv(x, y):
    """numpy division: no exception on zero"""
    if conc(x) and conc(y):
        if y == 0:
            return NAN
        return Fraction(x) / Fraction(y)
    return s_div(x, y)


def npow(x, y):
    if conc(x) and conc(y) and isinstance(y, int) and y < 0:
        return npdiv(Fraction(1), Fraction(x) ** (-y))
    return s_pow(x, y)


def arith(op, a, b):
    a, b = toarr(a), toarr(b)
    da, db = adtype(a), adtype(b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if da == "b" and db == "b":
            f = {"BitAnd": tm.and_, "BitOr": tm.or_, "BitXor": lambda x, y: tm.not_(tm.iff(x, y))}[op]
            return ufunc(lambda x, y: simp(f(s_truth(x), s_truth(y))), [a, b], "b")
        raise PyExc("TypeError", "bitwise operation on floats") if "f" in (da, db) else Unsupported("bit operation")
    if op == "MatMult":
        return np_dot(a, b)
    if op == "Div":
        return ufunc(npdiv, [a, b], "f")
    dt = promote(da, db)
    if dt == "b":
        if op == "Sub":
            raise PyExc("TypeError", "numpy boolean subtract")
        if op == "Add":
            return ufunc(lambda x, y: simp(tm.or_(s_truth(x), s_truth(y))), [a, b], "b")
        if op == "Mult":
            return ufunc(lambda x, y: simp(tm.and_(s_truth(x), s_truth(y))), [a, b], "b")
    f = {"Pow": npow}.get(op) or _OPS.get(op)
    if f is None:
        raise Unsupported("array operator %s" % op)
    return ufunc(f, [a, b], dt)


def cmparr(o, a, b):
    a, b = toarr(a), toarr(b)
    return ufunc(lambda x, y: s_cmp2(o, x, y), [a, b], "b")


def s_cmp2(o, x, y):
    def nb(z):
        return int(z) if isinstance(z, bool) else (tm.ite(z, I(1), I(0)) if isinstance(z, T) and z.sort == "B" else z)
    if sdtype(x) == "b" and sdtype(y) == "b" and o in ("eq", "ne"):
        r = tm.iff(s_truth(x), s_truth(y))
        return simp(r if o == "eq" else tm.not_(r))
    return s_cmp(o, nb(x), nb(y))


# ----------------------------------------------------------------- reductions
def nall(shape, fn):
    """conjunction over a multi-dimensional index space"""
    def go(k, ix):
        if k == len(shape):
            return tm.boolt(fn(ix))
        return dall(shape[k], lambda i: go(k + 1, ix + (i,)))
    return go(0, ())


def nsum(dim, fn):
    """sum of scalars (NaN aware)"""
    if tm.CONCRETE:
        idx = [()]
        tot = Fraction(0)
        for i in concrete_indices(dim):
            tot = s_add(tot, fn(i))
        return tot
    v = dimvars(dim, "n")
    e = with_idx((dim,), (v,), lambda: fn(v))
    return nsum_e(dim, v, e)


def nsum_e(dim, v, e):
    def b(i):
        m = {}
        V._bind((v,), (i,), m)
        return m
    nan = nanof(e)
    val = tm.num(valof(e)) if not (isinstance(valof(e), T) and valof(e).sort == "B") else tm.ind(valof(e))
    s = simp(dsum(dim, lambda i: tm.subst(val, b(i))))
    if nan is FALSE:
        return s
    return mkNT(dany(dim, lambda i: tm.subst(nan, b(i))), s)


def concrete_indices(dim):
    if dim.kind == "p":
        return range(dim.n)
    if dim.kind == "f":
        return [i for i in concrete_indices(dim.base) if simp(tm.boolt(dim.mask(i))) is True]
    return [(i, j) for i in concrete_indices(dim.d1) for j in concrete_indices(dim.d2)]


def normaxis(a, axis):
    if axis is None:
        return list(range(a.ndim))
    ax = list(axis) if isinstance(axis, tuple) else [axis]
    out = []
    for x in ax:
        x = simp(x) if isinstance(x, T) else x
        if not isinstance(x, int):
            raise Unsupported("symbolic axis")
        if not -a.ndim <= x < a.ndim:
            raise PyExc("ValueError", "axis out of bounds")
        out.append(x % a.ndim)
    return sorted(out)


def reduce_(a, axis, f, dtype, keepdims=False):
    """f(dim, fn) -> scalar; reduces the given axes"""
    a = toarr(a)
    if isnum(a):
        a = mkarr((), lambda ix: a0, sdtype(a)) if False else _zerod(a)
    axes = normaxis(a, axis)
    keep = [i for i in range(a.ndim) if i not in axes]
    g = a.snap()
    if not axes:
        dims = plain(1)
        mk = lambda ix, r: g(ix)
    else:
        dims = a.shape[axes[0]]
        for x in axes[1:]:
            dims = prod(dims, a.shape[x])

        def mk(ix, r):
            full = [None] * a.ndim
            for k, i in zip(keep, ix):
                full[k] = i
            rr = r
            vals = []
            for _ in axes[1:]:
                vals.append(rr[1])
                rr = rr[0]
            vals.append(rr)
            for x, i in zip(axes, reversed(vals)):
                full[x] = i
            return g(tuple(full))
    shp = tuple(a.shape[k] for k in keep)
    if not shp:
        r = denan(f(dims, lambda r: mk((), r)))
        if keepdims:
            return mkarr(tuple(plain(1) for _ in range(a.ndim)), lambda ix: r, dtype)
        return r
    out = lam(shp, lambda ix: f(dims, lambda r: mk(ix, r)), dtype)
    if keepdims:
        for x in axes:
            out = np_expand_dims(out, x)
    return out


def _zerod(x):
    return mkarr((), lambda ix: x, sdtype(x))


def asnum(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, T) and x.sort == "B":
        return tm.ind(x)
    return x


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, where=None, initial=None):
    if out is not None or where is not None or initial is not None:
        raise Unsupported("np.sum options")
    a = toarr(a)
    return reduce_(a, axis, lambda d, fn: nsum(d, lambda r: asnum(fn(r))), "f" if adtype(a) == "f" else "i", keepdims)


def meanf(d, fn):
    return npdiv(nsum(d, lambda r: asnum(fn(r))), dsize(d))


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False):
    return reduce_(a, axis, meanf, "f", keepdims)


def varf(ddof=0):
    def f(d, fn):
        m = meanf(d, fn)
        n = dsize(d)
        return npdiv(nsum(d, lambda r: s_pow(s_sub(asnum(fn(r)), m), 2)), n if ddof == 0 else s_sub(n, ddof))
    return f


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return reduce_(a, axis, varf(ddof), "f", keepdims)


def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    v = varf(ddof)
    return reduce_(a, axis, lambda d, fn: s_sqrt(v(d, fn)) if not conc(v(d, fn)) else simpf(tm.sqrt(R(v(d, fn)))), "f", keepdims)


def nanfilter(d, fn):
    return filt(d, lambda r: tm.not_(nanof(fn(r))))


def nanred(f):
    def g(a, axis=None, keepdims=False, **kw):
        fn0 = f(**kw)

        def h(d, fn):
            return fn0(nanfilter(d, fn), lambda r: valof(fn(r)))
        return reduce_(a, axis, h, "f", keepdims)
    return g


np_nanmean = nanred(lambda **k: meanf)
np_nansum = nanred(lambda **k: (lambda d, fn: nsum(d, fn)))
np_nanvar = nanred(lambda ddof=0, **k: varf(ddof))
np_nanstd = nanred(lambda ddof=0, **k: (lambda d, fn: s_sqrt(varf(ddof)(d, fn))))


def extremum(kind, d, fn):
    """value of the minimum/maximum over d (nonempty)"""
    if d.kind == "x":
        return extremum(kind, d.d1, lambda i: extremum(kind, d.d2, lambda j: fn((i, j))))
    if d.kind == "p" and isinstance(d.n, int) and (d.n <= 4 or tm.CONCRETE):
        r = tm.num(fn(0))
        for i in range(1, d.n):
            r = (tm.min_ if kind == "argmin" else tm.max_)(r, fn(i))
        return simp(r)
    ix = argext(kind, d, fn)
    return simp(tm.num(fn(ix)))


def dmin(d, fn):
    return extremum("argmin", d, fn)


def dmax(d, fn):
    return extremum("argmax", d, fn)


def argext(kind, d, fn):
    """structured index of the first minimum/maximum"""
    if d.kind == "p":
        n, mask, w = d.n, (lambda i: TRUE), None
        if isinstance(n, int) and (n <= 4 or tm.CONCRETE):
            best = tm.num(fn(0))
            bi = I(0)
            for i in range(1, n):
                x = tm.num(fn(i))
                c = tm.lt(x, best) if kind == "argmin" else tm.gt(x, best)
                bi = tm.ite(c, I(i), bi)
                best = tm.ite(c, x, best)
            return simp(bi)
    elif d.kind == "f" and d.base.kind == "p":
        n, mask = d.base.n, d.mask
        if tm.CONCRETE:
            idx = concrete_indices(d)
            b = idx[0]
            for i in idx[1:]:
                if (fn(i) < fn(b)) if kind == "argmin" else (fn(i) > fn(b)):
                    b = i
            return b
    elif d.kind == "x":
        i = argext(kind, d.d1, lambda i: extremum(kind, d.d2, lambda j: fn((i, j))))
        j = argext(kind, d.d2, lambda j: fn((i, j)))
        return (i, j)
    else:
        raise Unsupported("argmin over a masked product")
    v = tm.fresh("i", "I", True)
    e = with_idx((d,), (v,), lambda: fn(v))
    if isinstance(e, NT):
        raise Unsupported("minimum of possibly-NaN values")
    return tm.mk_atom(kind, "I", [v], [tm.num(n)], tm.boolt(mask(v)), [tm.num(e)])


def nonempty(d):
    n = dsize(d)
    if isinstance(n, int):
        return n > 0
    return CTX.decide(tm.gt(n, 0))


def np_ext(kind):
    def f(a, axis=None, out=None, keepdims=False, **kw):
        if kw:
            raise Unsupported("min/max options")
        a = toarr(a)
        if isnum(a):
            return a
        axes = normaxis(a, axis)
        for x in axes:
            if not nonempty(a.shape[x]):
                raise PyExc("ValueError", "zero-size array to reduction operation")

        def red(d, fn):
            v = dimvars(d, "m")
            e = with_idx((d,), (v,), lambda: fn(v))
            if isinstance(e, NT):
                nan = dany(d, lambda r: nanof(fn(r)))
                return mkNT(nan, extremum(kind, d, lambda r: valof(fn(r))))
            return extremum(kind, d, fn)
        return reduce_(a, axis, red, a.dtype, keepdims)
    return f


np_min, np_max = np_ext("argmin"), np_ext("argmax")


def np_argext(kind):
    def f(a, axis=None, **kw):
        a = toarr(a)
        axes = normaxis(a, axis)
        for x in axes:
            if not nonempty(a.shape[x]):
                raise PyExc("ValueError", "attempt to get argmin of an empty sequence")

        def red(d, fn):
            return simp(rank(d, argext(kind, d, fn)))
        return reduce_(a, axis, red, "i")
    return f


np_argmin, np_argmax = np_argext("argmin"), np_argext("argmax")


def np_all(a, axis=None, **kw):
    a = toarr(a)
    return reduce_(a, axis, lambda d, fn: simp(dall(d, lambda r: s_truth(fn(r)))), "b")


def np_any(a, axis=None, **kw):
    a = toarr(a)
    return reduce_(a, axis, lambda d, fn: simp(dany(d, lambda r: s_truth(fn(r)))), "b")


def np_count_nonzero(a, axis=None, **kw):
    a = toarr(a)
    return reduce_(a, axis, lambda d, fn: nsum(d, lambda r: tm.ind(s_truth(fn(r)))), "i")


def np_ptp(a, axis=None):
    return _INTERP[0].binop("Sub", np_max(a, axis), np_min(a, axis))


def np_prod(a, axis=None, **kw):
    a = toarr(a)
    if isnum(a):
        return a
    r = 1
    if a.ndim != 1 or not isinstance(a.shape[0].n, int):
        raise Unsupported("np.prod")
    for i in range(a.shape[0].n):
        r = s_mul(r, a.at((i,)))
    return r


def np_median(a, axis=None, **kw):
    raise Unsupported("np.median")


def np_dot(a, b):
    a, b = toarr(a), toarr(b)
    if isnum(a) or isnum(b):
        return arith("Mult", a, b)
    if a.ndim == 1 and b.ndim == 1:
        return np_sum(arith("Mult", a, b))
    if a.ndim == 2 and b.ndim == 1:
        return np_sum(arith("Mult", a, b), axis=1)
    if a.ndim == 2 and b.ndim == 2:
        return np_sum(arith("Mult", np_expand_dims(a, 2), np_expand_dims(b, 0)), axis=1)
    raise Unsupported("np.dot")


# -------------------------------------------------------------------- shapes
def shape_of(a):
    return tuple(dsize(d) for d in a.shape)


def flat_factors(shape):
    out = []

    def go(d, path):
        if d.kind == "x":
            go(d.d1, path + (0,))
            go(d.d2, path + (1,))
        else:
            out.append((d, path))
    for i, d in enumerate(shape):
        go(d, (i,))
    return out


def getpath(ix, path):
    for p in path:
        ix = ix[p]
    return ix


def build(shape, assign, prefix=()):
    """structured index tuple of `shape` from a dict path -> index"""
    def go(d, path):
        if d.kind == "x":
            return (go(d.d1, path + (0,)), go(d.d2, path + (1,)))
        return assign[path]
    return tuple(go(d, (i,)) for i, d in enumerate(shape))


def eqsize(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return CTX.prove(tm.eq(a, b))


def samesize(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return tm.eq(a, b) is TRUE


def group_factors(ns, facs, same):
    """consecutive factors of the old shape that make up each axis of the new one, or None"""
    groups = []
    pos = 0
    for n_i, x in enumerate(ns):
        if x is None:
            # -1: take everything except what later entries need
            tail = len(facs)
            for y in reversed(ns[n_i + 1:]):
                sz = 1
                while not same(sz, y):
                    tail -= 1
                    if tail < pos:
                        if same is samesize:
                            return None
                        raise Unsupported("reshape")
                    sz = mulv(dsize(facs[tail][0]), sz)
            groups.append(facs[pos:tail])
            pos = tail
            continue
        sz = 1
        g = []
        while not same(sz, x):
            if pos >= len(facs):
                return None
            g.append(facs[pos])
            sz = mulv(sz, dsize(facs[pos][0]))
            pos += 1
        groups.append(g)
    return groups if pos == len(facs) else None


def np_reshape(a, newshape, order="C"):
    a = toarr(a)
    if isnum(a):
        a = _zerod(a)
    if order != "C":
        raise Unsupported("reshape order")
    ns = list(newshape) if isinstance(newshape, tuple) else (newshape.items if isinstance(newshape, LV) else [newshape])
    ns = [simp(x) if isinstance(x, T) else x for x in ns]
    facs = [f for f in flat_factors(a.shape) if not is_one(f[0])]
    total = 1
    for d in a.shape:
        total = mulv(total, dsize(d))
    if -1 in [x for x in ns if isinstance(x, int)]:
        known = 1
        for x in ns:
            if not (isinstance(x, int) and x == -1):
                known = mulv(known, x)
        i = ns.index(-1)
        if isinstance(known, int) and known == 1:
            ns[i] = total
        else:
            # the product of the factors left over
            rest = list(facs)
            for x in ns:
                if isinstance(x, int) and x == -1:
                    continue
            ns[i] = None
    # the shape is usually evident from the terms; a proof is the second attempt
    groups = group_factors(ns, facs, samesize)
    if groups is None:
        groups = group_factors(ns, facs, eqsize)
    if groups is None:
        return reshape_general(a, ns, total)
    nshape = []
    for g in groups:
        if not g:
            nshape.append(plain(1))
        else:
            d = g[0][0]
            for f in g[1:]:
                d = prod(d, f[0])
            nshape.append(d)
    nshape = tuple(nshape)

    def gpath(i, g, j):
        # left-nested product: first factor has len(g)-1 zeros
        if len(g) == 1:
            return (i,)
        if j == 0:
            return (i,) + (0,) * (len(g) - 1)
        return (i,) + (0,) * (len(g) - 1 - j) + (1,)
    pairs = []
    for i, g in enumerate(groups):
        for j, f in enumerate(g):
            pairs.append((f[1], gpath(i, g, j)))
    allf = flat_factors(a.shape)
    olds = {f[1]: 0 for f in allf if is_one(f[0])}

    def tob(ix):
        m = dict(olds)
        for po, pn in pairs:
            m[po] = getpath(ix, pn)
        return build(a.shape, m)

    def inv(p):
        out = [0] * len(groups)
        for i, g in enumerate(groups):
            if not g:
                continue
            x = getpath(p, g[0][1])
            for f in g[1:]:
                x = (x, getpath(p, f[1]))
            out[i] = x
        return tuple(out)
    return regroup(a, nshape, tob, inv)


def reshape_general(a, ns, total):
    if None in ns:
        raise Unsupported("reshape")
    t2 = 1
    for x in ns:
        t2 = mulv(t2, x)
    if not eqsize(t2, total):
        if isinstance(t2, int) and isinstance(total, int):
            raise PyExc("ValueError", "cannot reshape array")
        raise Unsupported("reshape")
    # through flat positions (row-major)
    nshape = tuple(plain(x) for x in ns)
    sizes = [dsize(d) for d in a.shape]

    def tob(ix):
        flat = 0
        for n, i in zip(ns, ix):
            flat = tm.add(tm.mul(flat, n), i)
        out = []
        for n in reversed(sizes):
            out.append(simp(tm.imod(flat, tm.num(n))))
            flat = tm.idiv(flat, tm.num(n))
        out = list(reversed(out))
        return tuple(unplain(d, k) for d, k in zip(a.shape, out))
    return view(a, nshape, tob, None)


def flatten_dims(a):
    d = a.shape[0]
    for x in a.shape[1:]:
        d = prod(d, x)

    def tob(ix):
        r = ix[0]
        out = []
        for _ in range(a.ndim - 1):
            out.append(r[1])
            r = r[0]
        out.append(r)
        return tuple(reversed(out))

    def inv(p):
        x = p[0]
        for y in p[1:]:
            x = (x, y)
        return (x,)
    return regroup(a, (d,), tob, inv), d


def np_expand_dims(a, axis):
    a = toarr(a)
    if isnum(a):
        a = _zerod(a)
    if isinstance(axis, tuple):
        for x in sorted(axis):
            a = np_expand_dims(a, x)
        return a
    if axis < 0:
        axis += a.ndim + 1
    keys = [SliceV(None, None, None)] * axis + [None] + [SliceV(None, None, None)] * (a.ndim - axis)
    return basic(a, keys)


def np_squeeze(a, axis=None):
    a = toarr(a)
    if isnum(a):
        return a
    if axis is not None:
        axes = normaxis(a, axis)
        for x in axes:
            if not is_one(a.shape[x]) and not CTX.decide(tm.eq(dsize(a.shape[x]), 1)):
                raise PyExc("ValueError", "cannot select an axis to squeeze out")
        drop = set(axes)
    else:
        # a symbolic dimension of size one is squeezed too
        drop = {i for i, d in enumerate(a.shape) if is_one(d) or (isinstance(dsize(d), T) and CTX.decide(tm.eq(dsize(d), 1)))}
    keys = [0 if i in drop else SliceV(None, None, None) for i in range(a.ndim)]
    r = basic(a, keys)
    return r


def np_transpose(a, axes=None):
    a = toarr(a)
    if a.ndim < 2:
        return a
    axes = list(axes) if axes is not None else list(reversed(range(a.ndim)))
    axes = [x % a.ndim for x in axes]
    invp = [axes.index(i) for i in range(a.ndim)]
    return regroup(a, tuple(a.shape[x] for x in axes), lambda ix: tuple(ix[invp[i]] for i in range(a.ndim)), lambda p: tuple(p[x] for x in axes))


def np_swapaxes(a, x, y):
    ax = list(range(a.ndim))
    ax[x], ax[y] = ax[y], ax[x]
    return np_transpose(a, ax)


def np_ravel(a, order="C"):
    a = toarr(a)
    if isnum(a):
        return np_reshape(a, (1,))
    if a.ndim == 1:
        return a
    return flatten_dims(a)[0]


def mkdim(n):
    if isinstance(n, Arr) and n.ndim == 0:
        n = n.at(())
    n = simp(n) if isinstance(n, T) else n
    if isinstance(n, Fraction) or isinstance(n, T) and n.sort == "R":
        raise PyExc("TypeError", "float cannot be interpreted as an integer")
    if isinstance(n, bool) or not isinstance(n, (int, T)):
        raise PyExc("TypeError", "shape")
    if isinstance(n, int):
        if n < 0:
            raise PyExc("ValueError", "negative dimensions are not allowed")
        return plain(n)
    if not CTX.prove(tm.ge(n, 0)):
        if not CTX.decide(tm.ge(n, 0)):
            raise PyExc("ValueError", "negative dimensions are not allowed")
    return plain(n)


DIMSIZES = {}


def shape_arg(s, like=None):
    if isinstance(s, tuple):
        return tuple(mkdim(x) for x in s)
    if isinstance(s, LV):
        return tuple(mkdim(x) for x in _INTERP[0].iter_concrete(s))
    if isinstance(s, Arr):
        return tuple(mkdim(x) for x in _INTERP[0].iter_concrete(s))
    return (mkdim(s),)


def np_full(shape, v, dtype=None, **kw):
    v = toarr(v)
    if isinstance(v, Arr):
        sh = shape_arg(shape)
        g = bcast_to(v, sh)
        return mkarr(sh, g, v.dtype)
    dt = dtchar(dtype) if dtype is not None else sdtype(v)
    v2 = conv_scalar(v, dt)
    return mkarr(shape_arg(shape), lambda ix: v2, dt)


def np_ones(shape, dtype=None, **kw):
    return np_full(shape, Fraction(1), dtype or "float")


def np_zeros(shape, dtype=None, **kw):
    return np_full(shape, Fraction(0), dtype or "float")


def np_empty(shape, dtype=None, **kw):
    nm = tm.fresh("uninit", "R").args[0]
    dt = dtchar(dtype) if dtype is not None else "f"
    s = {"f": "R", "i": "I", "b": "B"}[dt]
    return mkarr(shape_arg(shape), lambda ix: tm.uf(nm, [tm.num(x) for x in flatvars(ix)], s), dt)


def like(f):
    def g(a, *r, dtype=None, **kw):
        a = toarr(a)
        if isnum(a):
            a = _zerod(a)
        dt = dtype if dtype is not None else {"f": "float", "i": "int", "b": "bool"}[a.dtype]
        x = f(tuple(1 for _ in a.shape), *r, dtype=dt)
        g0 = x.snap()
        zero = tuple(0 for _ in a.shape)
        if f is np_empty:
            x = np_empty(tuple(1 for _ in a.shape), dtype=dt)
            g0 = x.buf.elem
            return mkarr(a.shape, g0, x.dtype)
        val = g0(zero)
        return mkarr(a.shape, lambda ix: val, x.dtype)
    return g


def np_eye(n, *a, **kw):
    d = mkdim(n)
    return mkarr((d, d), lambda ix: simpf(tm.ite(tm.eq(ix[0], ix[1]), R(1), R(0))), "f")


def np_arange(*a, dtype=None, **kw):
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e, st = a
    s, e, st = [simp(x) if isinstance(x, T) else x for x in (s, e, st)]
    if not all(isinstance(x, int) or isinstance(x, T) and x.sort == "I" for x in (s, e, st)):
        if all(conc(x) for x in (s, e, st)):
            import math
            n = max(0, math.ceil((Fraction(e) - Fraction(s)) / Fraction(st)))
            return mkarr((n,), lambda ix: simpf(tm.add(R(s), tm.mul(R(st), tm.toR(ix[0])))), "f")
        raise Unsupported("np.arange on floats")
    r = RangeV(s, e, st)
    r2 = mkarr((plain(r.size()),), lambda ix: r.get(ix[0]) if s != 0 or st != 1 else ix[0], "i")
    return astype(r2, dtype) if dtype is not None else r2


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = simp(num) if isinstance(num, T) else num
    if isinstance(num, Fraction) or isinstance(num, T) and num.sort == "R":
        raise PyExc("TypeError", "num must be an integer")
    start, stop = as_int(toarr(start)), as_int(toarr(stop))
    if isinstance(start, Arr) or isinstance(stop, Arr):
        if isinstance(start, Arr) and start.ndim == 1 and is_one(start.shape[0]) or isinstance(stop, Arr):
            raise Unsupported("linspace between arrays")
        raise Unsupported("linspace between arrays")
    start, stop = conv_scalar(start, "f"), conv_scalar(stop, "f")
    div = num - 1 if isinstance(num, int) else simp(tm.sub(num, 1))
    if not endpoint:
        div = num
    if isinstance(num, int) and num < 0:
        raise PyExc("ValueError", "Number of samples must be non-negative")
    dim = mkdim(num)
    if isinstance(div, int):
        pos = div > 0
    else:
        pos = CTX.decide(tm.gt(div, 0))
    if not pos:
        arr = mkarr((dim,), lambda ix: start, "f")
        return (arr, NAN) if retstep else arr
    if isinstance(div, T):
        nonzero(div)
    step = s_div(s_sub(stop, start), div)

    def e(ix):
        return s_add(start, s_mul(ix[0] if isinstance(ix[0], int) else tm.toR(ix[0]), step))
    arr = lam((dim,), lambda ix: simpn(e(ix)), "f")
    if dtype is not None:
        arr = astype(arr, dtype)
    return (arr, step) if retstep else arr


def simpn(x):
    return simpf(x) if isinstance(x, T) else x


def np_repeat(a, repeats, axis=None):
    a = toarr(a)
    if isnum(a):
        a = np_reshape(a, (1,))
    if isinstance(repeats, Arr) or isinstance(repeats, LV):
        raise Unsupported("np.repeat with counts")
    rd = mkdim(repeats)
    if axis is None:
        a = np_ravel(a)
        axis = 0
    ax = normaxis(a, axis)[0]
    d = a.shape[ax]
    g = a.snap()
    if is_one(d):
        return lam(a.shape[:ax] + (rd,) + a.shape[ax + 1:], lambda ix: g(ix[:ax] + (0,) + ix[ax + 1:]), a.dtype)
    if is_one(rd):
        return copyarr(a)
    nd = prod(d, rd)
    return lam(a.shape[:ax] + (nd,) + a.shape[ax + 1:], lambda ix: g(ix[:ax] + (ix[ax][0],) + ix[ax + 1:]), a.dtype)


def np_tile(a, reps):
    a = toarr(a)
    if isnum(a):
        a = np_reshape(a, (1,))
    rs = list(reps) if isinstance(reps, tuple) else (list(reps.items) if isinstance(reps, LV) else [reps])
    while len(rs) < a.ndim:
        rs.insert(0, 1)
    while a.ndim < len(rs):
        a = np_expand_dims(a, 0)
    g = a.snap()
    shp = []
    maps = []
    for d, r in zip(a.shape, rs):
        if isinstance(r, int) and r == 1:
            shp.append(d)
            maps.append(lambda i: i)
        elif is_one(d):
            shp.append(mkdim(r))
            maps.append(lambda i: 0)
        else:
            shp.append(prod(mkdim(r), d))
            maps.append(lambda i: i[1])
    return lam(shp, lambda ix: g(tuple(m(i) for m, i in zip(maps, ix))), a.dtype)


def np_broadcast_to(a, shape):
    a = toarr(a)
    sh = shape_arg(shape)
    return mkarr(sh, bcast_to(a, sh), adtype(a))


def seq_items(x):
    k, it = _INTERP[0].iterable(x)
    if k != "c":
        return None, it
    return list(it), None


def np_concatenate(seq, axis=0, **kw):
    items, sym = seq_items(seq)
    if items is None:
        dim, get = sym
        v = dimvars(dim, "c")
        e = toarr(get(v))
        if axis != 0:
            raise Unsupported("concatenate symbolic list along another axis")
        return lam((prod(dim, e.shape[0]),) + e.shape[1:], lambda ix: toarr(get(ix[0][0])).at((ix[0][1],) + ix[1:]), e.dtype)
    arrs = [toarr(x) for x in items]
    arrs = [a if isinstance(a, Arr) else unsup("zero-dimensional arrays cannot be concatenated") for a in arrs]
    if axis is None:
        arrs = [np_ravel(a) for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs) or nd == 0:
        raise PyExc("ValueError", "all the input array dimensions must match")
    ax = normaxis(arrs[0], axis)[0]
    dt = promote(*[a.dtype for a in arrs])
    nonempty_ = [a for a in arrs if not (isinstance(dsize(a.shape[ax]), int) and dsize(a.shape[ax]) == 0)]
    if not nonempty_:
        return copyarr(arrs[0])
    arrs = nonempty_
    for j in range(nd):
        if j != ax:
            for a in arrs[1:]:
                if not samedim(arrs[0].shape[j], a.shape[j]) and not CTX.decide(tm.eq(dsize(arrs[0].shape[j]), dsize(a.shape[j]))):
                    raise PyExc("ValueError", "all the input array dimensions must match")
    if len(arrs) == 1:
        return astype(arrs[0], {"f": "float", "i": "int", "b": "bool"}[dt])
    base = arrs[0]
    pl = [toplain(a.shape[ax]) for a in arrs]
    gs = [a.snap() for a in arrs]
    offs = [0]
    for d, _ in pl:
        offs.append(simp(tm.add(offs[-1], d.n)))

    def elem(ix):
        i = ix[ax]
        r = None
        for k in range(len(arrs) - 1, -1, -1):
            j = simp(tm.sub(i, offs[k])) if not (isinstance(i, int) and isinstance(offs[k], int)) else i - offs[k]
            if isinstance(j, int) and j < 0:
                continue
            x = conv_scalar(gs[k](ix[:ax] + (pl[k][1](j),) + ix[ax + 1:]), dt)
            r = x if r is None else s_ite(tm.lt(i, offs[k + 1]), x, r)
            if r is x:
                continue
        return r
    shp = base.shape[:ax] + (plain(offs[-1]),) + base.shape[ax + 1:]
    return mkarr(shp, elem, dt) if tm.CONCRETE or isinstance(offs[-1], int) else concat_lam(shp, elem, dt, ax, arrs)


def concat_lam(shp, elem, dt, ax, arrs):
    return mkarr(shp, elem, dt)


def np_stack(seq, axis=0, **kw):
    items, sym = seq_items(seq) if not isinstance(seq, list) else (seq, None)
    if items is None:
        dim, get = sym
        v = dimvars(dim, "c")
        e = toarr(get(v))
        if isnum(e):
            e = _zerod(e)
        r = lam((dim,) + e.shape, lambda ix: _at(toarr(get(ix[0])), ix[1:]), e.dtype)
    else:
        arrs = [toarr(x) for x in items]
        arrs = [_zerod(a) if isnum(a) else a for a in arrs]
        nd = arrs[0].ndim
        for a in arrs[1:]:
            if a.ndim != nd:
                raise PyExc("ValueError", "all input arrays must have the same shape")
            for x, y in zip(arrs[0].shape, a.shape):
                if not samedim(x, y) and not CTX.decide(tm.eq(dsize(x), dsize(y))):
                    raise PyExc("ValueError", "all input arrays must have the same shape")
        gs = [a.snap() for a in arrs]
        maps = [[dimmap(x, y) for x, y in zip(arrs[0].shape, a.shape)] for a in arrs]

        def elem(ix):
            return ip.pick([g(tuple(m(i) for m, i in zip(mm, ix[1:]))) for g, mm in zip(gs, maps)], ix[0])
        r = mkarr((len(arrs),) + arrs[0].shape, elem, promote(*[a.dtype for a in arrs]))
    ax = axis if axis >= 0 else axis + r.ndim
    if ax == 0:
        return r
    order = list(range(1, r.ndim))
    order.insert(ax, 0)
    return np_transpose(r, order)


def _at(a, ix):
    return a if isnum(a) else a.at(ix)


def np_vstack(seq, **kw):
    items, sym = seq_items(seq)
    if items is None:
        return np_stack(seq)
    return np_concatenate(LV([np_reshape(toarr(x), (1, -1)) if toarr(x).ndim == 1 else toarr(x) for x in items]), 0)


def np_hstack(seq, **kw):
    items, sym = seq_items(seq)
    arrs = [toarr(x) for x in items]
    arrs = [np_reshape(a, (1,)) if isnum(a) or a.ndim == 0 else a for a in arrs]
    return np_concatenate(LV(arrs), 0 if arrs[0].ndim == 1 else 1)


def np_column_stack(seq):
    items, sym = seq_items(seq)
    arrs = [toarr(x) for x in items]
    return np_concatenate(LV([np_expand_dims(a, 1) if a.ndim == 1 else a for a in arrs]), 1)


def np_append(a, v, axis=None):
    a, v = toarr(a), toarr(v)
    if axis is None:
        return np_concatenate(LV([np_ravel(a), np_ravel(v)]), 0)
    return np_concatenate(LV([a, v]), axis)


def np_flip(a, axis=None):
    keys = [SliceV(None, None, -1) if axis is None or i in normaxis(a, axis) else SliceV(None, None, None) for i in range(a.ndim)]
    return basic(a, keys)


def np_delete(a, idx, axis=None):
    a = toarr(a)
    if axis is None:
        a = np_ravel(a)
        axis = 0
    ax = normaxis(a, axis)[0]
    d = a.shape[ax]
    if d.kind != "p" or not (isinstance(idx, int) or isinstance(idx, T)):
        raise Unsupported("np.delete")
    k = norm_index(idx, dsize(d))
    g = a.snap()
    nd = filt(d, lambda i: tm.ne(i, k))
    return lam(a.shape[:ax] + (nd,) + a.shape[ax + 1:], lambda ix: g(ix), a.dtype)


# ---------------------------------------------------------------- functions
def np_cumsum(a, axis=None, dtype=None, out=None):
    a = toarr(a)
    if axis is None:
        a = np_ravel(a) if a.ndim > 1 else a
        axis = 0
    ax = normaxis(a, axis)[0]
    a = plainarr(a) if a.shape[ax].kind != "p" else a
    g = a.snap()

    def f(ix):
        k = ix[ax]
        n = k + 1 if isinstance(k, int) else simp(tm.add(k, 1))
        return nsum(plain(n), lambda j: asnum(g(ix[:ax] + (j,) + ix[ax + 1:])))
    return lam(a.shape, f, "f" if a.dtype == "f" else "i")


def np_diff(a, n=1, axis=-1):
    a = toarr(a)
    if n != 1:
        raise Unsupported("np.diff order")
    ax = normaxis(a, axis)[0]
    full = [SliceV(None, None, None)] * a.ndim
    k1, k0 = list(full), list(full)
    k1[ax] = SliceV(1, None, None)
    k0[ax] = SliceV(None, -1, None)
    return arith("Sub", basic(a, k1), basic(a, k0))


def monotone(bins):
    """increasing bins?  decides; decreasing bins are not modelled"""
    d = bins.shape[0]
    g = bins.snap()
    n = d.n
    m = n - 1 if isinstance(n, int) else simp(tm.sub(n, 1))
    i, j = tm.fresh("bi", "I", True), tm.fresh("bj", "I", True)
    if CTX.prove(tm.implies(tm.and_(tm.ge(i, 0), tm.lt(i, m)), tm.le(tm.num(g((i,))), tm.num(g((simp(tm.add(i, 1)),)))))):
        return
    if sv.split_prove(list(CTX.pc) + [tm.ge(i, 0), tm.lt(i, m)], CTX.hyps, tm.le(tm.num(g((i,))), tm.num(g((simp(tm.add(i, 1)),)))), 1500, budget=[12, time.time() + 10]):
        return
    if not CTX.decide(tm.All(m, lambda q: tm.le(tm.num(g((q,))), tm.num(g((simp(tm.add(q, 1)),)))))):
        raise PyExc("ValueError", "bins must be monotonically increasing or decreasing")


def np_digitize(x, bins, right=False):
    x, bins = toarr(x), toarr(bins)
    bins = plainarr(bins)
    if bins.ndim != 1:
        raise PyExc("ValueError", "bins must be 1-dimensional")
    monotone(bins)
    return dig(x, bins, right)


def dig(x, bins, right):
    g = bins.snap()
    n = bins.shape[0].n
    v = tm.fresh("i", "I", True)
    b = with_idx(bins.shape, (v,), lambda: g((v,)))
    if isinstance(b, NT):
        raise Unsupported("NaN bins")
    b = tm.toR(tm.num(b))
    if tm.CONCRETE:
        def fc(q):
            if right:
                return sum(1 for i in range(n) if tm.const_val(tm.num(g((i,)))) < q)
            return sum(1 for i in range(n) if tm.const_val(tm.num(g((i,)))) <= q)
        return ufunc(fc, [x], "i")

    def f(q):
        if isinstance(q, NT):
            raise Unsupported("digitize of NaN")
        return tm.mk_atom("dig", "I", [v], [tm.num(n)], TRUE, [b], [tm.toR(tm.num(q))] + ([TRUE] if right else []))
    return ufunc(f, [x], "i")


def np_searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    a = plainarr(toarr(a))
    monotone(a)
    return dig(toarr(v), a, side == "left")


def np_bincount(x, weights=None, minlength=0):
    x = toarr(x)
    if x.ndim != 1:
        raise PyExc("ValueError", "object too deep for desired array")
    if x.dtype == "f":
        raise PyExc("TypeError", "Cannot cast array data from float to int")
    minlength = simp(minlength) if isinstance(minlength, T) else minlength
    d = x.shape[0]
    g = x.snap()
    if not CTX.decide(dall(d, lambda i: tm.ge(g((i,)), 0))):
        raise PyExc("ValueError", "bincount: first argument must not be negative")
    if CTX.decide(dall(d, lambda i: tm.lt(g((i,)), minlength))):
        n = minlength
    else:
        if isinstance(d.n, int) and d.kind == "p" and tm.CONCRETE:
            n = max(minlength, 1 + max(g((i,)) for i in range(d.n)))
        else:
            n = simp(tm.add(dmax(d, lambda i: g((i,))), 1))
            CTX.assume(tm.gt(n, minlength))
    if weights is None:
        return lam((plain(n),), lambda ix: nsum(d, lambda i: simp(tm.ind(tm.eq(g((i,)), ix[0])))), "i")
    w = toarr(weights)
    if not samedim(w.shape[0], d) and not CTX.decide(tm.eq(dsize(w.shape[0]), dsize(d))):
        raise PyExc("ValueError", "The weights and list don't have the same length.")
    gw = w.snap()
    mp = dimmap(d, w.shape[0])
    return lam((plain(n),), lambda ix: nsum(d, lambda i: s_ite(tm.eq(g((i,)), ix[0]), conv_scalar(gw((mp(i),)), "f"), Fraction(0))), "f")


def np_divide(a, b, out=None, where=None, **kw):
    if where is None and out is None:
        return ufunc(npdiv, [a, b], "f")
    if where is None or where is True:
        r = ufunc(npdiv, [a, b], "f")
        setitem(out, Ellipsis, r)
        return out
    if out is None:
        raise Unsupported("divide(where=) without out")
    a, b, where = toarr(a), toarr(b), toarr(where)
    args = [x for x in (a, b, where, out) if isinstance(x, Arr)]
    shape, maps = broadcast(args)
    it = iter(maps)
    fs = []
    for x in (a, b, where, out):
        if isinstance(x, Arr):
            m = next(it)
            g = x.snap()
            fs.append(lambda ix, g=g, m=m: g(m(ix)))
        else:
            fs.append(lambda ix, x=x: x)

    def f(ix):
        w = s_truth(fs[2](ix))
        save, nz = CTX.pc, set(tm.NONZERO)
        CTX.pc = list(save)
        try:
            if w is FALSE:
                q = Fraction(0)
            else:
                try:
                    CTX.assume(w)
                    q = denan(npdiv(fs[0](ix), fs[1](ix)))
                except Infeasible:
                    q = Fraction(0)
        finally:
            CTX.pc = save
            tm.NONZERO.clear()
            tm.NONZERO.update(nz)
        return s_ite(w, q, fs[3](ix))
    r = lam(shape, f, "f")
    setitem(out, Ellipsis, r)
    return out


def uf_where(fn, dt=None):
    def g(*args, out=None, where=None, dtype=None, **kw):
        r = ufunc(fn, list(args), dt or promote(*[adtype(toarr(a)) for a in args]))
        if dtype is not None:
            r = astype(r, dtype)
        if where is not None and where is not True:
            if out is None:
                raise Unsupported("ufunc where= without out")
            setitem(out, where, getitem(r, where))
            return out
        if out is not None:
            setitem(out, Ellipsis, r)
            return out
        return r
    return g


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported("interp options")
    x, xp, fp = toarr(x), toarr(xp), toarr(fp)
    d = xp.shape[0]
    if not samedim(d, fp.shape[0]) and not CTX.decide(tm.eq(dsize(d), dsize(fp.shape[0]))):
        raise PyExc("ValueError", "fp and xp are not of the same length")
    mp = dimmap(d, fp.shape[0])
    gx, gf = xp.snap(), fp.snap()
    if isinstance(x, Arr) and all(isinstance(dsize(q), int) and dsize(q) == 0 for q in x.shape) and x.ndim:
        return mkarr(x.shape, lambda ix: Fraction(0), "f")
    if not nonempty(d):
        # numpy raises only if there is something to evaluate
        if isinstance(x, Arr) and CTX.decide(tm.eq(dsize(x.shape[0]), 0)):
            return mkarr(x.shape, lambda ix: Fraction(0), "f")
        raise PyExc("ValueError", "array of sample points is empty")
    # increasing sample points (contract of numpy.interp)
    i, j = dimvars(d, "p"), dimvars(d, "p")
    if d.kind == "x":
        raise Unsupported("interp over a product")
    if not tm.CONCRETE and not with_idx((d, d), (i, j), lambda: CTX.prove(tm.implies(tm.lt(i, j), tm.le(valof(gx((i,))), valof(gx((j,))))))):
        raise Unsupported("interp sample points not shown increasing")
    if tm.CONCRETE:
        idx = list(concrete_indices(d))

        def fc(q):
            if q <= gx((idx[0],)):
                return gf((mp(idx[0]),))
            if q >= gx((idx[-1],)):
                return gf((mp(idx[-1]),))
            for a, b in zip(idx, idx[1:]):
                if gx((a,)) <= q < gx((b,)):
                    return s_add(gf((mp(a),)), s_mul(npdiv(s_sub(gf((mp(b),)), gf((mp(a),))), gx((b,)) - gx((a,))), s_sub(q, gx((a,)))))
        return ufunc(fc, [x], "f")

    def f(q):
        if isinstance(q, NT):
            raise Unsupported("interp of NaN")
        lo_d = filt(d, lambda k: tm.le(gx((k,)), q))
        hi_d = filt(d, lambda k: tm.gt(gx((k,)), q))
        lo = argext("argmax", lo_d, lambda k: tm.num(k))       # last sample point <= q
        hi = argext("argmin", hi_d, lambda k: tm.num(k))
        first = argext("argmin", d, lambda k: tm.num(k)) if d.kind == "f" else 0
        xlo, xhi = gx((lo,)), gx((hi,))
        flo, fhi = gf((mp(lo),)), gf((mp(hi),))
        haslo = dany(d, lambda k: tm.le(gx((k,)), q))
        hashi = dany(d, lambda k: tm.gt(gx((k,)), q))
        slope = s_mul(s_sub(fhi, flo), tm.inv(tm.toR(tm.sub(xhi, xlo))))
        mid = s_add(flo, s_mul(slope, tm.toR(tm.sub(q, xlo))))
        r = s_ite(haslo, s_ite(hashi, mid, flo), gf((mp(first),)))
        return r
    return ufunc(f, [x], "f")


def np_isnan(a):
    return ufunc(lambda x: simp(nanof(x)), [a], "b")


def np_isfinite(a):
    return ufunc(lambda x: simp(tm.not_(nanof(x))), [a], "b")


def np_nan_to_num(a, copy=True, nan=Fraction(0), **kw):
    return ufunc(lambda x: s_ite(nanof(x), conv_scalar(nan, "f"), valof(x)), [a], "f")


def np_where(c, *ab):
    c = toarr(c)
    if not ab:
        return np_nonzero(c)
    a, b = toarr(ab[0]), toarr(ab[1])
    return ufunc(lambda p, x, y: s_ite(s_truth(p), conv_scalar(x, dt), conv_scalar(y, dt)), [c, a, b], dt) if (dt := promote(adtype(a), adtype(b))) else None


def np_nonzero(a):
    a = toarr(a)
    if isnum(a):
        raise Unsupported("nonzero of a scalar")
    g = a.snap()
    if a.ndim == 1:
        d = a.shape[0]
        nd = filt(d, lambda i: s_truth(g((i,))))
        if tm.CONCRETE:
            l = [rank_c(d, i) for i in concrete_indices(nd)]
            return (np_array(LV(l), "int"),)
        return (mkarr((nd,), lambda ix: rank(d, ix[0]), "i"),)
    raise Unsupported("nonzero of a multi-dimensional array")


def rank_c(d, i):
    return list(concrete_indices(d)).index(i)


def np_flatnonzero(a):
    return np_nonzero(np_ravel(a))[0]


def np_argwhere(a):
    return np_expand_dims(np_nonzero(a)[0], 1)


def uniq_parts(a):
    a = np_ravel(toarr(a))
    d = a.shape[0]
    if d.kind == "x":
        a = plainarr(a)
        d = a.shape[0]
    base, mask = (d, lambda i: TRUE) if d.kind == "p" else (d.base, d.mask)
    if base.kind != "p":
        raise Unsupported("unique over a product")
    g = a.snap()
    v = tm.fresh("i", "I", True)
    e = with_idx((d,), (v,), lambda: g((v,)))
    if isinstance(e, NT):
        raise Unsupported("unique of NaN")
    return v, tm.num(base.n), tm.boolt(mask(v)), tm.num(e), a


def np_unique(a, return_counts=False, return_inverse=False, return_index=False, axis=None):
    if axis is not None or return_inverse or return_index:
        raise Unsupported("np.unique options")
    a = toarr(a)
    if tm.CONCRETE:
        d = a.shape[0]
        l = sorted(set(tm.const_val(tm.num(a.at((i,)))) for i in concrete_indices(d)))
        r = np_array(LV(l))
        if return_counts:
            vals = [tm.const_val(tm.num(a.at((i,)))) for i in concrete_indices(d)]
            return r, np_array(LV([vals.count(x) for x in l]))
        return r
    v, n, m, e, arr = uniq_parts(a)
    cnt = tm.mk_atom("nuniq", "I", [v], [n], m, [e])
    CTX.assume(tm.ge(cnt, 0))
    u = mkarr((plain(simp(cnt)),), lambda ix: tm.mk_atom("uniq", e.sort, [v], [n], m, [e], [tm.num(ix[0])]), arr.dtype)
    if return_counts:
        g = arr.snap()
        gu = u.snap()
        return u, lam(u.shape, lambda ix: nsum(arr.shape[0], lambda i: tm.ind(tm.eq(g((i,)), gu(ix)))), "i")
    return u


def sortperm_ix(a, k):
    d = a.shape[0]
    base, mask = (d, lambda i: TRUE) if d.kind == "p" else (d.base, d.mask)
    if base.kind != "p":
        raise Unsupported("sort over a product")
    g = a.snap()
    v = tm.fresh("i", "I", True)
    e = with_idx((d,), (v,), lambda: g((v,)))
    if isinstance(e, NT):
        raise Unsupported("sort of NaN")
    return tm.mk_atom("sortperm", "I", [v], [tm.num(base.n)], tm.boolt(mask(v)), [tm.num(e)], [tm.num(k)])


def sorted_already(a):
    d = a.shape[0]
    if d.kind != "p":
        return False
    g = a.snap()
    i, j = dimvars(d, "p"), dimvars(d, "p")
    return with_idx((d, d), (i, j), lambda: CTX.prove(tm.implies(tm.lt(i, j), tm.le(tm.num(g((i,))), tm.num(g((j,)))))))


def np_argsort(a, axis=-1, kind=None, **kw):
    a = toarr(a)
    if a.ndim != 1:
        raise Unsupported("argsort rank")
    d = a.shape[0]
    if tm.CONCRETE:
        idx = list(concrete_indices(d))
        vals = [tm.const_val(tm.num(a.at((i,)))) for i in idx]
        return np_array(LV(sorted(range(len(idx)), key=lambda j: vals[j])), "int")
    n = dsize(d)
    return mkarr((plain(n),), lambda ix: rank(d, sortperm_ix(a, ix[0])), "i")


def np_sort(a, axis=-1, kind=None, **kw):
    a = toarr(a)
    if isinstance(a, Arr) and a.ndim != 1:
        raise Unsupported("sort rank")
    if tm.CONCRETE:
        return np_array(LV(sorted(tm.const_val(tm.num(a.at((i,)))) for i in concrete_indices(a.shape[0]))))
    if sorted_already(a):
        return copyarr(a)
    g = a.snap()
    n = dsize(a.shape[0])
    return lam((plain(n),), lambda ix: g((sortperm_ix(a, ix[0]),)), a.dtype)


def np_isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10 ** 8), **kw):
    def f(x, y):
        if isinstance(x, NT) or isinstance(y, NT):
            raise Unsupported("isclose of NaN")
        return simp(tm.le(tm.abs_(tm.sub(x, y)), tm.add(tm.toR(atol), tm.mul(tm.toR(rtol), tm.abs_(y)))))
    return ufunc(f, [a, b], "b")


def np_allclose(a, b, **kw):
    return np_all(np_isclose(a, b, **kw))


def np_array_equal(a, b, **kw):
    a, b = toarr(a), toarr(b)
    if isnum(a) or isnum(b) or a.ndim != b.ndim:
        raise Unsupported("array_equal")
    for x, y in zip(a.shape, b.shape):
        if not samedim(x, y) and not CTX.decide(tm.eq(dsize(x), dsize(y))):
            return False
    return np_all(cmparr("eq", a, b))


def np_trapz(y, x=None, dx=1, axis=-1):
    y = toarr(y)
    if y.ndim != 1:
        raise Unsupported("trapz rank")
    s = lambda k: basic(y, [k])
    m = arith("Mult", arith("Add", s(SliceV(1, None, None)), s(SliceV(None, -1, None))), Fraction(1, 2))
    d = np_diff(toarr(x)) if x is not None else dx
    return np_sum(arith("Mult", m, d))


def np_unravel_index(i, shape):
    shape = [x for x in _INTERP[0].iter_concrete(shape)]
    i = as_int(toarr(i))
    if isinstance(i, Arr):
        raise Unsupported("unravel_index of arrays")
    out = []
    for n in reversed(shape):
        if isinstance(i, int) and isinstance(n, int):
            out.append(i % n)
            i = i // n
        else:
            it, nt = tm.num(i), tm.num(n)
            q = unravel(it, nt)
            out.append(simp(q[1]))
            i = simp(q[0])
    return tuple(reversed(out))


def unravel(t, n):
    """(quotient, remainder) of a row-major position q*n + r"""
    if t.op == "poly":
        d = tm._polyd(t)
        nm = n
        # look for q*n + r with r an argmin over [0,n)
        for m, c in d.items():
            if c == 1 and nm in m and len(m) == 2:
                l = list(m)
                l.remove(nm)
                rest = tm._frompoly({k: v for k, v in d.items() if k != m}, "I")
                if CTX.prove(tm.and_(tm.ge(rest, 0), tm.lt(rest, n))):
                    return l[0], rest
        if n.op == "c":
            k = n.args[0]
            qd = {m: c // k for m, c in d.items() if c % k == 0}
            rd = {m: c for m, c in d.items() if c % k != 0}
            q, r = tm._frompoly(qd, "I"), tm._frompoly(rd, "I")
            if CTX.prove(tm.and_(tm.ge(r, 0), tm.lt(r, n))):
                return q, r
    return tm.idiv(t, n), tm.imod(t, n)


def np_clip(a, lo=None, hi=None, out=None, **kw):
    lo = kw.get("a_min", lo)
    hi = kw.get("a_max", hi)
    r = toarr(a)
    if lo is not None:
        r = np_maximum(r, lo)
    if hi is not None:
        r = np_minimum(r, hi)
    if out is not None:
        setitem(out, Ellipsis, r)
        return out
    return r


def _mm(kind):
    def f(x, y):
        if conc(x) and conc(y):
            return max(x, y) if kind == "max" else min(x, y)
        return mkNT(tm.or_(nanof(x), nanof(y)), (tm.max_ if kind == "max" else tm.min_)(valof(x), valof(y)))
    return f


np_maximum = uf_where(_mm("max"))
np_minimum = uf_where(_mm("min"))


def s_abs(x):
    if conc(x):
        return abs(x)
    return mkNT(nanof(x), tm.abs_(valof(x)))


def np_sqrt_s(x):
    if conc(x):
        return simpf(tm.sqrt(R(x))) if x >= 0 else NAN
    v = valof(x)
    if CTX.prove(tm.ge(v, 0)):
        return s_sqrt(x)
    return mkNT(tm.or_(nanof(x), tm.lt(v, 0)), tm.sqrt(v))


def s_sign(x):
    return simp(tm.ite(tm.gt(valof(x), 0), 1, tm.ite(tm.lt(valof(x), 0), -1, 0)))


def logical(f):
    return uf_where(lambda *xs: simp(f(*[s_truth(x) for x in xs])), "b")


def np_take(a, idx, axis=None, **kw):
    a = toarr(a)
    if axis is None:
        a = np_ravel(a)
        axis = 0
    ax = normaxis(a, axis)[0]
    return getitem(a, tuple([SliceV(None, None, None)] * ax + [idx]))


def np_isin(a, b, **kw):
    a, b = toarr(a), toarr(b)
    g = b.snap()
    return ufunc(lambda x: simp(nany(b.shape, lambda ix: tm.eq(valof(x), valof(g(ix))))), [a], "b")


def nany(shape, fn):
    return tm.not_(nall(shape, lambda ix: tm.not_(fn(ix))))


def np_round(a, decimals=0, **kw):
    raise Unsupported("np.round")


def np_floor(a):
    return ufunc(lambda x: simpf(tm.toR(tm.floor(valof(x)))), [a], "f")


def np_ceil(a):
    return ufunc(lambda x: simpf(tm.toR(tm.neg(tm.floor(tm.neg(valof(x)))))), [a], "f")


def np_meshgrid(*a, **kw):
    raise Unsupported("meshgrid")


def np_apply_along_axis(f, axis, a, *r, **kw):
    raise Unsupported("apply_along_axis")


def item(a):
    ix = tuple(zero_index(d) for d in a.shape)
    return a.at(ix)


def zero_index(d):
    if d.kind == "x":
        return (zero_index(d.d1), zero_index(d.d2))
    return unplain(d, 0)


# ------------------------------------------------------------- random choice
CHOICES = []


def rnd_choice(a, size=None, replace=True, p=None):
    """numpy.random.choice: an arbitrary outcome"""
    if size is None or p is not None:
        raise Unsupported("random.choice options")
    arr = None
    if isinstance(a, Arr):
        arr = a
        N = dsize(a.shape[0])
    else:
        N = simp(a) if isinstance(a, T) else a
    size = simp(size) if isinstance(size, T) else size
    if replace is False and not CTX.decide(tm.le(size, N)):
        raise PyExc("ValueError", "Cannot take a larger sample than population when 'replace=False'")
    nm = "choice%d" % len(CHOICES)
    CHOICES.append((nm, N, size, replace))
    from .solver import Hyp
    if nm not in [h[0] for h in CHYPS]:
        pass
    CTX.hyps.append(Hyp(1, lambda k: tm.implies(tm.and_(tm.ge(k, 0), tm.lt(k, size)), tm.and_(tm.ge(tm.uf(nm, [k], "I"), 0), tm.lt(tm.uf(nm, [k], "I"), N))), [nm]))
    if replace is False:
        CTX.hyps.append(Hyp(2, lambda k, l: tm.implies(tm.and_(tm.ge(k, 0), tm.lt(k, l), tm.lt(l, size)), tm.ne(tm.uf(nm, [k], "I"), tm.uf(nm, [l], "I"))), [nm]))
    idx = mkarr((mkdim(size),), lambda ix: tm.uf(nm, [tm.num(ix[0])], "I"), "i")
    return idx if arr is None else getitem(arr, idx)


CHYPS = []


# ------------------------------------------------------------------ attributes
class NdFlat:
    pass


def arr_attr(interp, a, n):
    if n == "shape":
        return shape_of(a)
    if n == "ndim":
        return a.ndim
    if n == "size":
        r = 1
        for d in a.shape:
            r = mulv(r, dsize(d))
        return r
    if n == "T":
        return np_transpose(a)
    if n == "dtype":
        return NPT[a.dtype]
    m = ARRM.get(n)
    if m is not None:
        return lambda *x, **k: m(a, *x, **k)
    if n == "flat":
        return np_ravel(a)
    if n == "fill":
        return lambda v: setitem(a, Ellipsis, v)
    if n == "sort":
        def srt(*x, **k):
            setitem(a, Ellipsis, np_sort(a))
        return srt
    if n in ("append", "extend", "insert", "keys", "items", "values", "lower"):
        raise PyExc("AttributeError", "ndarray." + n)
    raise Unsupported("ndarray.%s" % n)


def arr_item(a, *ix):
    if ix:
        return getitem(a, ix if len(ix) > 1 else ix[0])
    n = 1
    for d in a.shape:
        n = mulv(n, dsize(d))
    if isinstance(n, int):
        if n != 1:
            raise PyExc("ValueError", "can only convert an array of size 1 to a Python scalar")
    elif not CTX.decide(tm.eq(n, 1)):
        raise PyExc("ValueError", "can only convert an array of size 1 to a Python scalar")
    return item(a)


def arr_reshape(a, *s, **kw):
    return np_reshape(a, s[0] if len(s) == 1 and isinstance(s[0], (tuple, LV)) else s)


def arr_tolist(a):
    if a.ndim == 1:
        k, it = _INTERP[0].iterable(a)
        return LV(it) if k == "c" else LV(dim=it[0], get=it[1])
    k, it = _INTERP[0].iterable(a)
    if k == "c":
        return LV([arr_tolist(x) for x in it])
    return LV(dim=it[0], get=lambda i: arr_tolist(it[1](i)))


ARRM = {}


def num_attr(interp, x, a):
    """attributes of numpy scalars"""
    if a == "item":
        return lambda: x
    if a == "astype":
        return lambda t, **k: astype(x, t)
    if a == "shape":
        return ()
    if a == "ndim":
        return 0
    if a == "size":
        return 1
    if a == "dtype":
        return NPT[sdtype(x)]
    if a in ("mean", "sum", "min", "max", "copy", "squeeze"):
        return lambda *y, **k: x
    if a == "std" or a == "var":
        return lambda *y, **k: Fraction(0)
    if a == "round":
        raise Unsupported("round")
    if a == "is_integer":
        return lambda: simp(tm.eq(tm.toR(tm.floor(x)), x))
    if a == "reshape":
        return lambda *s: arr_reshape(_zerod(x), *s)
    if a in ("real",):
        return x
    if a in ("lower", "append", "keys", "items", "fit", "limits"):
        raise PyExc("AttributeError", "number." + a)
    raise Unsupported("attribute %s of a number" % a)


NPT = {}


def make_numpy(interp):
    _INTERP[0] = interp
    ns = {}
    for k, f in dict(
            array=np_array, asarray=lambda x, dtype=None, **k: (x if isinstance(x, Arr) and dtype is None else np_array(x, dtype)),
            ascontiguousarray=lambda x, dtype=None: np_array(x, dtype), atleast_1d=lambda x: (np_reshape(toarr(x), (1,)) if isnum(toarr(x)) or toarr(x).ndim == 0 else toarr(x)),
            copy=lambda x, **k: copyarr(toarr(x)), sum=np_sum, mean=np_mean, average=lambda a, axis=None, weights=None: np_mean(a, axis) if weights is None else npw(a, axis, weights),
            var=np_var, std=np_std, min=np_min, max=np_max, amin=np_min, amax=np_max, argmin=np_argmin, argmax=np_argmax,
            nanmean=np_nanmean, nansum=np_nansum, nanvar=np_nanvar, nanstd=np_nanstd,
            all=np_all, any=np_any, alltrue=np_all, sometrue=np_any, count_nonzero=np_count_nonzero, ptp=np_ptp, prod=np_prod, median=np_median,
            dot=np_dot, matmul=np_dot, reshape=np_reshape, expand_dims=np_expand_dims, squeeze=np_squeeze, transpose=np_transpose, swapaxes=np_swapaxes, ravel=np_ravel,
            full=np_full, ones=np_ones, zeros=np_zeros, empty=np_empty, full_like=like(np_full), ones_like=like(np_ones), zeros_like=like(np_zeros), empty_like=like(np_empty), eye=np_eye, identity=np_eye,
            arange=np_arange, linspace=np_linspace, repeat=np_repeat, tile=np_tile, broadcast_to=np_broadcast_to, concatenate=np_concatenate, stack=np_stack, vstack=np_vstack, hstack=np_hstack, column_stack=np_column_stack,
            append=np_append, flip=np_flip, delete=np_delete, cumsum=np_cumsum, diff=np_diff, ediff1d=np_diff, digitize=np_digitize, searchsorted=np_searchsorted, bincount=np_bincount,
            divide=np_divide, true_divide=np_divide, interp=np_interp, isnan=np_isnan, isfinite=np_isfinite, nan_to_num=np_nan_to_num, where=np_where, nonzero=np_nonzero, flatnonzero=np_flatnonzero, argwhere=np_argwhere,
            unique=np_unique, argsort=np_argsort, sort=np_sort, isclose=np_isclose, allclose=np_allclose, array_equal=np_array_equal, trapz=np_trapz, unravel_index=np_unravel_index, clip=np_clip,
            maximum=np_maximum, minimum=np_minimum, take=np_take, isin=np_isin, in1d=np_isin, round=np_round, around=np_round, floor=np_floor, ceil=np_ceil, meshgrid=np_meshgrid, apply_along_axis=np_apply_along_axis,
            shape=lambda a: shape_of(toarr(a)), ndim=lambda a: toarr(a).ndim if isinstance(toarr(a), Arr) else 0, size=lambda a, axis=None: arr_attr(interp, toarr(a), "size") if axis is None else dsize(toarr(a).shape[axis]),
            add=uf_where(s_add), subtract=uf_where(s_sub), multiply=uf_where(s_mul), negative=uf_where(s_neg), power=uf_where(npow), square=uf_where(lambda x: s_pow(x, 2)), sqrt=uf_where(np_sqrt_s, "f"),
            abs=uf_where(s_abs), absolute=uf_where(s_abs), fabs=uf_where(s_abs, "f"), sign=uf_where(s_sign), float_power=uf_where(npow, "f"),
            logical_and=logical(tm.and_), logical_or=logical(tm.or_), logical_not=logical(tm.not_), logical_xor=logical(lambda a, b: tm.not_(tm.iff(a, b))),
            less=lambda a, b: cmparr("lt", a, b), less_equal=lambda a, b: cmparr("le", a, b), greater=lambda a, b: cmparr("gt", a, b), greater_equal=lambda a, b: cmparr("ge", a, b), equal=lambda a, b: cmparr("eq", a, b), not_equal=lambda a, b: cmparr("ne", a, b),
            isscalar=lambda x: isnum(x), seterr=lambda **k: None, logspace=lambda *a, **k: unsup("logspace"),
            exp=lambda *a, **k: unsup("exp"), log=lambda *a, **k: unsup("log")).items():
        ns[k] = f
    NPT["f"] = TypeV("np.float64", lambda x=0: conv_scalar(x, "f") if isnum(x) else astype(toarr(x), "float"))
    NPT["i"] = TypeV("np.int64", lambda x=0: conv_scalar(x, "i") if isnum(x) else astype(toarr(x), "int"))
    NPT["b"] = TypeV("np.bool_", lambda x=0: conv_scalar(x, "b"))
    ns["float64"] = ns["float_"] = ns["double"] = ns["float32"] = ns["floating"] = NPT["f"]
    ns["int64"] = ns["int_"] = ns["intp"] = ns["int32"] = ns["integer"] = NPT["i"]
    ns["bool_"] = NPT["b"]
    ns["number"] = TypeV("np.number")
    ns["ndarray"] = TypeV("np.ndarray")
    ns["generic"] = TypeV("np.generic")
    for n in ("float", "int", "bool"):
        ns[n] = Missing(n)
    ns["NaN"] = ns["nan"] = ns["NAN"] = NAN
    ns["inf"] = Inf()
    ns["Inf"] = ns["inf"]
    ns["pi"] = Fraction(314159265358979, 10 ** 14)
    ns["newaxis"] = None

    class ErrState:
        def __call__(self, **k):
            return None
    ns["errstate"] = lambda **k: None
    rnd = ModV("numpy.random", {"choice": rnd_choice, "seed": lambda *a: None, "rand": lambda *a: unsup("random.rand"), "permutation": lambda n: rnd_choice(n, n if not isinstance(n, Arr) else dsize(n.shape[0]), False)})
    ns["random"] = rnd
    ns["testing"] = ModV("numpy.testing", {})
    for k in ("mean", "sum", "min", "max", "var", "std", "all", "any", "argmin", "argmax", "cumsum", "squeeze", "nonzero", "ravel", "repeat", "argsort", "swapaxes", "clip", "prod", "take", "dot", "searchsorted", "ptp", "diff"):
        ARRM[k] = ns[k]
    ARRM.update(reshape=arr_reshape, flatten=lambda a, *x: copyarr(np_ravel(a)), copy=lambda a, *x, **k: copyarr(a), astype=lambda a, t, **k: astype(a, t), item=arr_item, tolist=arr_tolist,
                transpose=lambda a, *x: np_transpose(a, (x[0] if len(x) == 1 and isinstance(x[0], tuple) else x) or None), view=lambda a, *x: a, __len__=lambda a: dsize(a.shape[0]))
    interp.external["numpy.random"] = rnd
    return ModV("numpy", ns)


class Missing:
    def __init__(self, n):
        self.n = n

    def pyattr(self, interp, a):
        raise PyExc("AttributeError", "np." + self.n)


class Inf:
    def pyattr(self, interp, a):
        raise Unsupported("infinity")


def npw(a, axis, w):
    p = arith("Mult", a, w)
    return arith("Div", np_sum(p, axis), np_sum(w)) if isinstance(np_sum(p, axis), Arr) else npdiv(np_sum(p, axis), np_sum(w))
