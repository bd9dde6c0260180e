"""Builtins and library stubs (assumed contracts on everything outside /repo)."""
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE
from .values import *
from . import values as V
from . import interp as ip
from .interp import (BUILTINS, TypeV, ModV, ClassV, FuncV, BoundM, ExcCls, Iter, RangeV, LV, DV, SliceV, EXC_PARENTS,
                     lv_view, DVKeys)
from . import npmod


def tlen(interp, x):
    if isinstance(x, Arr):
        if not x.shape:
            raise PyExc("TypeError", "len() of unsized object")
        return dsize(x.shape[0])
    if isinstance(x, LV):
        ip.lv_touch(x)
        return len(x.items) if x.concrete else dsize(x.dim)
    if isinstance(x, (tuple, str)):
        return len(x)
    if isinstance(x, DV):
        if x.fams:
            raise Unsupported("len of a symbolic dict")
        return len(x.pairs)
    if isinstance(x, RangeV):
        return x.size()
    if isinstance(x, DVKeys):
        raise Unsupported("len of symbolic keys")
    if isinstance(x, Obj):
        return interp.call(interp.getattr(x, "__len__"), [], {})
    if isinstance(x, Iter):
        raise PyExc("TypeError", "object has no len()")
    if isnum(x) or x is None:
        raise PyExc("TypeError", "object has no len()")
    raise Unsupported("len of %s" % type(x).__name__)


def seqview(interp, x):
    k, d = interp.iterable(x)
    if k == "c":
        return "c", list(d)
    dim, get = d
    if dim.kind != "p":
        pd, m = npmod.toplain(dim)
        return "s", (pd, lambda i: get(m(i)))
    return "s", d


def typeof(interp, x):
    if isinstance(x, bool):
        return BUILTINS["bool"]
    if isinstance(x, int):
        return BUILTINS["int"]
    if isinstance(x, Fraction):
        return BUILTINS["float"]
    if isinstance(x, NT):
        return BUILTINS["float"]
    if isinstance(x, T):
        return {"I": BUILTINS["int"], "R": BUILTINS["float"], "B": BUILTINS["bool"]}[x.sort]
    if isinstance(x, (str, SymStr)):
        return BUILTINS["str"]
    if x is None:
        return BUILTINS["NoneType"]
    if isinstance(x, tuple):
        return BUILTINS["tuple"]
    if isinstance(x, LV):
        return BUILTINS["list"]
    if isinstance(x, DV):
        return BUILTINS["dict"]
    if isinstance(x, Arr):
        return interp.external["numpy"].attrs["ndarray"]
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, (FuncV, BoundM)) or callable(x):
        return BUILTINS["function"]
    if isinstance(x, RangeV):
        return BUILTINS["range_t"]
    raise Unsupported("type of %s" % type(x).__name__)


def isinst(interp, x, t):
    if isinstance(t, tuple):
        return any(isinst(interp, x, y) for y in t)
    if isinstance(t, LV):
        return any(isinst(interp, x, y) for y in t.items)
    if isinstance(t, ClassV):
        return isinstance(x, Obj) and t in x.cls.mro()
    if isinstance(t, ExcCls):
        return isinstance(x, PyExc) and ip.exc_isa(x.cls, t.name)
    if isinstance(t, TypeV):
        n = t.name
        ty = typeof(interp, x)
        tn = ty.name if isinstance(ty, TypeV) else "object"
        if n == "object":
            return True
        if n == tn:
            return True
        if n == "int" and tn == "bool":
            return not isinstance(x, T)
        if n in ("np.generic", "np.number"):
            return isinstance(x, (T, NT))
        if n in ("np.int64",) and isinstance(x, T) and x.sort == "I":
            return True
        if n == "np.float64" and isinstance(x, (T, NT)) and tn == "float":
            return True
        if n == "np.bool_" and isinstance(x, T) and x.sort == "B":
            return True
        if n == "range_t":
            return isinstance(x, RangeV)
        if n == "np.float64" or n == "np.int64" or n == "np.bool_":
            return False
        return False
    if isinstance(t, Typing):
        if t.name == "Callable":
            return isinstance(x, (FuncV, BoundM, ClassV)) or (callable(x) and not isinstance(x, (Obj, TypeV)))
        raise Unsupported("isinstance with typing.%s" % t.name)
    raise Unsupported("isinstance")


class Typing:
    def __init__(self, name):
        self.name = name

    def pyattr(self, interp, a):
        return Typing(a)

    def getitem(self, k):
        return self


class Rec:
    """recorder for plotting objects: every call is logged"""

    def __init__(self, name, log):
        self.name = name
        self.log = log

    def pyattr(self, interp, a):
        def f(*args, **kw):
            self.log.append((self.name, a, args, kw))
            if self.name == "plt" and a == "subplots":
                n = args[0] if args else kw.get("nrows", 1)
                m = args[1] if len(args) > 1 else kw.get("ncols", 1)
                fig = Rec("fig", self.log)
                axs = tuple(Rec("ax%d" % i, self.log) for i in range(n * m))
                return (fig, axs[0] if len(axs) == 1 else axs)
            if self.name == "plt" and a in ("figure", "gcf"):
                return Rec("fig", self.log)
            if a in ("gca", "subplot", "add_subplot", "axes"):
                return Rec("ax0", self.log)
            return Rec(self.name + "." + a, self.log)
        f.__name__ = self.name + "." + a
        return f


class Opaque:
    """library object whose behaviour is a fixed unknown function of its inputs"""

    def __init__(self, pyattrs, call=None):
        self.attrs = pyattrs
        if call is not None:
            self.fn = call

    def pyattr(self, interp, a):
        if a in self.attrs:
            v = self.attrs[a]
            return v() if isinstance(v, ip_thunk) else v
        raise Unsupported("library attribute %s" % a)

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class ip_thunk:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


def deepcopy(interp, x, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, Arr):
        if id(x) not in memo:
            memo[id(x)] = (npmod.copyarr(x), x)
        return memo[id(x)][0]
    if isinstance(x, LV):
        ip.lv_touch(x)
        if id(x) not in memo:
            memo[id(x)] = (LV([deepcopy(interp, y, memo) for y in x.items]) if x.concrete else LV(dim=x.dim, get=x.get), x)
        return memo[id(x)][0]
    if isinstance(x, DV):
        if id(x) not in memo:
            if x.fams:
                raise Unsupported("copy of a symbolic dict")
            d = DV()
            memo[id(x)] = (d, x)
            for a, b in x.pairs:
                d.pairs.append([a, deepcopy(interp, b, memo)])
        return memo[id(x)][0]
    if isinstance(x, tuple):
        return tuple(deepcopy(interp, y, memo) for y in x)
    if isinstance(x, Obj):
        if id(x) not in memo:
            o = Obj(x.cls)
            memo[id(x)] = (o, x)
            for k, v in x.attrs.items():
                o.attrs[k] = deepcopy(interp, v, memo)
        return memo[id(x)][0]
    return x


def shallow(interp, x):
    if isinstance(x, Arr):
        return npmod.copyarr(x)
    if isinstance(x, LV):
        return LV(list(x.items)) if x.concrete else LV(dim=x.dim, get=x.get)
    if isinstance(x, DV):
        d = DV(x.pairs)
        d.fams = list(x.fams)
        return d
    if isinstance(x, Obj):
        o = Obj(x.cls)
        o.attrs.update(x.attrs)
        return o
    return x


def install(interp):
    """fill BUILTINS and interp.external; returns the plot log"""
    B = BUILTINS

    def reg(name):
        def d(f):
            B[name] = f
            f.__name__ = name
            return f
        return d

    B["len"] = lambda x: tlen(interp, x)
    B["print"] = lambda *a, **k: None
    B["__identity__"] = lambda f: f
    B["__typing__"] = Typing("typing")
    B["NotImplemented"] = Opaque({})
    B["Ellipsis"] = Ellipsis
    B["__name__"] = "effector"
    B["id"] = lambda x: id(x)
    B["callable"] = lambda x: isinstance(x, (FuncV, BoundM, ClassV)) or (callable(x) and not isinstance(x, Obj)) or (isinstance(x, Obj) and x.cls.find("__call__") is not None)

    @reg("type")
    def type_(x, *a):
        return typeof(interp, x)

    @reg("isinstance")
    def isinstance_(x, t):
        return isinst(interp, x, t)

    @reg("issubclass")
    def issubclass_(c, t):
        if isinstance(t, tuple):
            return any(issubclass_(c, x) for x in t)
        return isinstance(c, ClassV) and t in c.mro()

    def range_(*a):
        for x in a:
            if isinstance(x, (Fraction, NT)) or isinstance(x, T) and x.sort != "I" or not isnum(x):
                raise PyExc("TypeError", "range() argument must be an integer")
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)
    B["range"] = range_
    B["range_t"] = TypeV("range_t")

    @reg("enumerate")
    def enumerate_(x, start=0):
        k, d = seqview(interp, x)
        if k == "c":
            return Iter("c", [(i + start, v) for i, v in enumerate(d)])
        dim, get = d
        return Iter("s", (dim, lambda i: (simp(tm.add(i, start)), get(i))))

    @reg("zip")
    def zip_(*xs):
        vs = [seqview(interp, x) for x in xs]
        if all(k == "c" for k, _ in vs):
            return Iter("c", list(zip(*[d for _, d in vs])))
        dims = [(len(d), ip.pick) if k == "c" else d for k, d in vs]
        n = None
        gets = []
        for k, d in vs:
            if k == "c":
                m = len(d)
                gets.append(lambda i, d=d: ip.pick(d, i))
            else:
                m = d[0].n
                gets.append(d[1])
            if n is None:
                n = m
            elif isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
            elif CTX.prove(tm.eq(n, m)):
                n = n if isinstance(n, int) else m
            elif CTX.prove(tm.le(n, m)):
                pass
            elif CTX.prove(tm.le(m, n)):
                n = m
            else:
                n = simp(tm.min_(n, m))
        if isinstance(n, int):
            return Iter("c", [tuple(g(i) for g in gets) for i in range(n)])
        return Iter("s", (plain(n), lambda i: tuple(g(i) for g in gets)))

    @reg("reversed")
    def reversed_(x):
        k, d = seqview(interp, x)
        if k == "c":
            return Iter("c", list(reversed(d)))
        dim, get = d
        return Iter("s", (dim, lambda i: get(simp(tm.sub(tm.sub(dim.n, 1), i)))))

    @reg("map")
    def map_(f, *xs):
        if len(xs) != 1:
            z = zip_(*xs)
            k, d = z.kind, z.data
            if k != "c":
                raise Unsupported("map over symbolic iterables")
            return Iter("c", [interp.call(f, list(t), {}) for t in d])
        k, d = seqview(interp, xs[0])
        if k == "c":
            return Iter("c", [interp.call(f, [v], {}) for v in d])
        from . import loops
        import ast
        env = ip.Env(None, ModV("<map>"), None)
        env.vars["__f"] = f
        g = ast.parse("[__f(__x) for __x in __y]", mode="eval").body
        lv = loops.sym_comp(interp, g.elt, g.generators[0], env, *d)
        return lv

    @reg("filter")
    def filter_(f, x):
        k, d = seqview(interp, x)
        if k != "c":
            raise Unsupported("filter over a symbolic iterable")
        return Iter("c", [v for v in d if interp.truth(interp.call(f, [v], {}) if f is not None else v)])

    @reg("sorted")
    def sorted_(x, key=None, reverse=False):
        k, d = seqview(interp, x)
        if k != "c":
            raise Unsupported("sorted over a symbolic iterable")
        keys = [v if key is None else interp.call(key, [v], {}) for v in d]
        out = []          # stable insertion sort by decided comparisons
        for v, kv in zip(d, keys):
            j = len(out)
            while j > 0:
                a, b = (kv, out[j - 1][1]) if not reverse else (out[j - 1][1], kv)
                if interp.truth(interp.compare("Lt", a, b)):
                    j -= 1
                else:
                    break
            out.insert(j, (v, kv))
        return LV([v for v, _ in out])

    def fold(op, name):
        def f(*xs, key=None, default=None):
            x = xs[0] if len(xs) == 1 else xs
            if isinstance(x, Arr):
                return npmod.np_ext("min" if name == "min" else "max")(x) if x.ndim == 1 else npmod.unsup("min of a matrix")
            k, d = seqview(interp, x if not isinstance(x, tuple) else tuple(x))
            if k == "c":
                d = list(d)
                if not d:
                    if default is not None:
                        return default
                    raise PyExc("ValueError", name + "() arg is an empty sequence")
                best = d[0]
                kb = best if key is None else interp.call(key, [best], {})
                for v in d[1:]:
                    kv = v if key is None else interp.call(key, [v], {})
                    if key is None and isnum(v) and isnum(best):
                        c = s_cmp("lt" if name == "min" else "gt", v, best)
                        best = v if c is True else best if c is False else s_ite(c, v, best)
                    elif interp.truth(interp.compare("Lt" if name == "min" else "Gt", kv, kb)):
                        best, kb = v, kv
                return best
            dim, get = d
            if key is not None:
                raise Unsupported("min/max with key over a symbolic iterable")
            if not npmod.nonempty(dim):
                raise PyExc("ValueError", name + "() arg is an empty sequence")
            return npmod.extremum("argmin" if name == "min" else "argmax", dim, lambda ix: get(ix[0] if isinstance(ix, tuple) else ix)) if False else (npmod.dmin if name == "min" else npmod.dmax)(dim, get)
        f.__name__ = name
        return f
    B["min"] = fold("lt", "min")
    B["max"] = fold("gt", "max")

    @reg("sum")
    def sum_(x, start=0):
        k, d = seqview(interp, x)
        if k == "c":
            acc = start
            for v in d:
                acc = interp.binop("Add", acc, v)
            return acc
        dim, get = d
        s = npmod.nsum(dim, get)
        return interp.binop("Add", start, s)

    @reg("any")
    def any_(x):
        k, d = seqview(interp, x)
        if k == "c":
            for v in d:
                if isinstance(v, T):
                    return simp(tm.or_(*[s_truth(w) if isnum(w) else tm.B(interp.truth(w)) for w in d]))
            return any(interp.truth(v) for v in d)
        return simp(dany(d[0], lambda i: s_truth(d[1](i))))

    @reg("all")
    def all_(x):
        k, d = seqview(interp, x)
        if k == "c":
            if any(isinstance(v, T) for v in d):
                return simp(tm.and_(*[s_truth(w) if isnum(w) else tm.B(interp.truth(w)) for w in d]))
            return all(interp.truth(v) for v in d)
        return simp(dall(d[0], lambda i: s_truth(d[1](i))))

    @reg("abs")
    def abs_(x):
        if isinstance(x, Arr):
            return npmod.map1(x, npmod.s_abs)
        interp.neednum(x)
        return npmod.s_abs(x)

    @reg("round")
    def round_(x, n=None):
        return npmod.np_round(x, 0 if n is None else n) if n is not None else npmod.conv_scalar(npmod.np_round(x, 0), "i")

    @reg("divmod")
    def divmod_(a, b):
        return (s_floordiv(a, b), s_mod(a, b))

    @reg("pow")
    def pow_(a, b):
        return interp.binop("Pow", a, b)

    def int_(x=0, *a):
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyExc("ValueError", "invalid literal for int()")
        if isinstance(x, SymStr):
            if len(x.parts) == 1 and isinstance(x.parts[0], T):
                return x.parts[0]
            raise Unsupported("int of a symbolic string")
        if isinstance(x, Arr):
            x = npmod.item(x)
        if not isnum(x):
            raise PyExc("TypeError", "int() argument")
        return npmod.conv_scalar(x, "i")

    def float_(x=Fraction(0)):
        if isinstance(x, str):
            return Fraction(x)
        if isinstance(x, Arr):
            x = npmod.item(x)
        if not isnum(x):
            raise PyExc("TypeError", "float() argument")
        return npmod.conv_scalar(x, "f")

    def str_(x=""):
        if isinstance(x, (str, SymStr)):
            return x
        if isinstance(x, bool) or x is None:
            return str(x)
        if isinstance(x, (int, Fraction, T, NT)):
            return mkstr(ip.fmtparts(x, "s"))
        return mkstr([("obj", id(x))])

    def bool_(x=False):
        if isinstance(x, T):
            return simp(s_truth(x))
        return interp.truth(x)

    def list_(x=()):
        k, d = interp.iterable(x)
        if k == "c":
            return LV(list(d))
        return LV(dim=d[0], get=d[1])

    def tuple_(x=()):
        return tuple(interp.iter_concrete(x))

    def set_(x=()):
        out = LV([])
        for v in interp.iter_concrete(x):
            if not interp.truth(interp.contains(out, v)):
                out.items.append(v)
        return out

    def dict_(x=None, **kw):
        d = DV()
        if isinstance(x, DV):
            d = shallow(interp, x)
        elif x is not None:
            for kv in interp.iter_concrete(x):
                a, b = interp.iter_concrete(kv)
                d.set(a, b)
        for k, v in kw.items():
            d.set(k, v)
        return d
    for n, f in dict(int=int_, float=float_, str=str_, bool=bool_, list=list_, tuple=tuple_, set=set_, dict=dict_, frozenset=set_).items():
        B[n] = TypeV(n, f)
    B["NoneType"] = TypeV("NoneType")
    B["function"] = TypeV("function")
    B["object"] = TypeV("object")
    B["slice"] = TypeV("slice", lambda *a: SliceV(*((None, a[0], None) if len(a) == 1 else (tuple(a) + (None,))[:3])))
    for n in ("staticmethod", "property", "classmethod"):
        B[n] = TypeV(n, lambda f, n=n: (n, f))

    @reg("hasattr")
    def hasattr_(o, a):
        try:
            interp.getattr(o, a)
            return True
        except PyExc as e:
            if e.cls == "AttributeError":
                return False
            raise

    @reg("getattr")
    def getattr_(o, a, *d):
        try:
            return interp.getattr(o, a)
        except PyExc as e:
            if e.cls == "AttributeError" and d:
                return d[0]
            raise

    B["super"] = lambda c, o: ip.SuperV(c, o)
    B["setattr"] = lambda o, a, v: interp.setattr(o, a, v)

    class ItObj:
        def __init__(self, its):
            self.its = list(its)
            self.pos = 0

    @reg("iter")
    def iter_(x):
        return ItObj(interp.iter_concrete(x))

    @reg("next")
    def next_(x, *d):
        if isinstance(x, LV):           # generator expression evaluated eagerly
            its = interp.iter_concrete(x)
            if its:
                return its[0]
            if d:
                return d[0]
            raise PyExc("StopIteration", "")
        if isinstance(x, ItObj):
            if x.pos < len(x.its):
                x.pos += 1
                return x.its[x.pos - 1]
            if d:
                return d[0]
            raise PyExc("StopIteration", "")
        raise Unsupported("next")

    for n in EXC_PARENTS:
        B[n] = ExcCls(n)
    B["BaseException"] = ExcCls("BaseException")

    # ---------------------------------------------------------------- modules
    E = interp.external
    E["numpy"] = npmod.make_numpy(interp)
    E["typing"] = ModV("typing", {n: Typing(n) for n in ("Callable", "List", "Optional", "Union", "Tuple", "Dict", "Any", "Iterable", "Sequence", "Literal", "Set", "NamedTuple", "Mapping", "Type")})
    E["copy"] = ModV("copy", {"copy": lambda x: shallow(interp, x), "deepcopy": lambda x: deepcopy(interp, x)})
    E["abc"] = ModV("abc", {"ABC": ClassV("ABC", [], {}, None), "abstractmethod": B["__identity__"]})
    log = []
    plt = Rec("plt", log)
    E["matplotlib.pyplot"] = plt
    E["matplotlib"] = ModV("matplotlib", {"pyplot": plt})

    def tq(x=None, *a, **k):
        return x
    E["tqdm"] = ModV("tqdm", {"tqdm": tq})
    E["logging"] = Rec("logging", [])
    E["warnings"] = ModV("warnings", {"warn": lambda *a, **k: None, "filterwarnings": lambda *a, **k: None, "catch_warnings": lambda *a, **k: None, "simplefilter": lambda *a, **k: None})
    E["time"] = ModV("time", {"time": lambda: unsup_("time")})
    E["re"] = ModV("re", {n: (lambda *a, n=n, **k: re_call(n, *a, **k)) for n in ("findall", "sub", "match", "search", "split", "compile")})
    E["math"] = ModV("math", {"sqrt": lambda x: simp(s_sqrt(x)) if isinstance(x, T) else s_sqrt(x), "floor": lambda x: npmod.conv_scalar(npmod.np_floor(x), "i"), "ceil": lambda x: npmod.conv_scalar(npmod.np_ceil(x), "i"), "isnan": lambda x: npmod.np_isnan(x), "fabs": npmod.s_abs})
    E["functools"] = ModV("functools", {"partial": lambda f, *a, **k: (lambda *b, **q: interp.call(f, list(a) + list(b), dict(k, **q))),
                                        "reduce": lambda f, x, *i: reduce_(f, x, *i), "wraps": lambda f: (lambda g: g)})
    E["operator"] = ModV("operator", {"itemgetter": lambda k: (lambda o: interp.getitem(o, k)), "attrgetter": lambda k: (lambda o: interp.getattr(o, k))})

    def reduce_(f, x, *i):
        its = interp.iter_concrete(x)
        acc = i[0] if i else its.pop(0)
        for v in its:
            acc = interp.call(f, [acc, v], {})
        return acc

    import itertools as it

    def product(*xs, repeat=1):
        return Iter("c", list(it.product(*([interp.iter_concrete(x) for x in xs] * repeat))))
    E["itertools"] = ModV("itertools", {"product": product,
                                        "chain": ChainF(interp), "combinations": lambda x, r: Iter("c", list(it.combinations(interp.iter_concrete(x), r))),
                                        "permutations": lambda x, *r: Iter("c", list(it.permutations(interp.iter_concrete(x), *r))),
                                        "accumulate": lambda x: acc_(x), "count": lambda *a: unsup_("itertools.count"), "groupby": lambda *a: unsup_("groupby")})

    def acc_(x):
        out = []
        for v in interp.iter_concrete(x):
            out.append(v if not out else interp.binop("Add", out[-1], v))
        return Iter("c", out)
    from collections import OrderedDict
    E["collections"] = ModV("collections", {"OrderedDict": dict_, "defaultdict": lambda *a: unsup_("defaultdict")})
    E["scipy"] = ModV("scipy", {})
    E["scipy.interpolate"] = ModV("scipy.interpolate", {"UnivariateSpline": lambda *a, **k: spline(interp, *a, **k)})
    E["scipy.integrate"] = ModV("scipy.integrate", {"quad": lambda *a, **k: unsup_("quad"), "dblquad": lambda *a, **k: unsup_("dblquad"), "trapezoid": npmod.np_trapz})
    E["shap"] = ModV("shap", {"Explainer": lambda *a, **k: explainer(interp, *a, **k)})
    return log


class ChainF:
    def __init__(self, interp):
        self.interp = interp
        self.__name__ = "chain"

    def __call__(self, *xs):
        return Iter("c", [v for x in xs for v in self.interp.iter_concrete(x)])

    def pyattr(self, interp, a):
        if a == "from_iterable":
            return lambda x: self(*interp.iter_concrete(x))
        raise PyExc("AttributeError", a)


def unsup_(m):
    raise Unsupported(m)


def re_call(n, *a, **k):
    import re
    if all(isinstance(x, str) for x in a):
        r = getattr(re, n)(*a, **k)
        if isinstance(r, list):
            return LV(r)
        if isinstance(r, str):
            return r
    raise Unsupported("re.%s" % n)


# ------------------------------------------------ opaque library functions
def lam_term(a):
    """hash-consed term standing for the whole content of array a (numeric)"""
    dims = list(a.shape)
    g = a.snap()
    from .npmod import toplain
    ps, ms = [], []
    for d in dims:
        if d.kind == "p":
            ps.append(d.n)
            ms.append(lambda i: i)
        else:
            pd, m = toplain(d)
            ps.append(pd.n)
            ms.append(m)
    names = [tm.fresh("o", "I", True) for _ in ps]
    v = g(tuple(m(n) for m, n in zip(ms, names)))
    if isinstance(v, NT):
        raise Unsupported("NaN in library call")
    return names, ps, tm.toR(tm.num(v)) if not (isinstance(v, T) and v.sort == "B") else tm.ind(v)


def opaque(name, arrs, extras, sort="R"):
    """unknown function of entire arrays (2-D at most, given as list) and scalar
    extras: a chain of atoms, one per array"""
    ex = [tm.num(e) for e in extras]
    for a in arrs:
        names, ps, body = lam_term(a)
        h = tm.mk_atom(("opaque", name), "R", names, [tm.num(p) for p in ps], TRUE, [body], tuple(ex))
        ex = [h]
    if not arrs:
        h = tm.uf(name, ex, "R")
    return h


def spline(interp, x, y, w=None, k=3, s=None, **kw):
    if w is not None or kw or k != 3 or s is not None:
        raise Unsupported("UnivariateSpline options")
    x, y = npmod.toarr(x), npmod.toarr(y)
    ident = ("spline", x, y)

    def call(q, nu=0, ext=None):
        one = npmod.isscalar(q)
        if one:
            return opaque("spline", [x, y], [q])
        q = npmod.toarr(q)
        g = q.snap()
        return npmod.map1(q, lambda v: opaque("spline", [x, y], [v]), "f")
    o = Opaque({"__call__": call}, call)
    o.ident = ident
    o.__name__ = "spline"
    return o


def explainer(interp, model, data=None, *a, **kw):
    if a or kw:
        raise Unsupported("shap.Explainer options")
    bg = data

    def call(x):
        vals = {}

        def values():
            if "v" not in vals:
                x_, b_ = npmod.toarr(x), npmod.toarr(bg)
                mid = getattr(model, "ident", None)
                if mid is None:
                    raise Unsupported("shap on an unknown model")
                vals["v"] = npmod.lam(x_.shape, lambda ix: shapterm(mid, x_, b_, ix))
            return vals["v"]
        return Opaque({"values": ip_thunk(values)})
    return Opaque({"__call__": call, "shap_values": lambda x: call(x).pyattr(interp, "values")}, call)


def shapterm(mid, x, bg, ix):
    # explained value of cell (i, j): unknown function of the model, of the row
    # x[i] (through all of x), of the background and of the cell position
    r = npmod.rank(x.shape[0], ix[0])
    return opaque("shap_" + str(mid), [x, bg], [r, ix[1]])
