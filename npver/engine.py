"""Symbolic execution of scenarios (contracts at API level) and discharge of
their obligations."""
import ast
import os
import time
import traceback
from fractions import Fraction
from . import terms as tm
from . import solver as sv
from .terms import T, TRUE, FALSE
from .values import *
from . import values as V
from . import interp as ip
from . import npmod
from . import builtins_ as bi

CONTRACTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")


class Ob:
    __slots__ = ("name", "goal", "extra", "status", "info", "t", "where", "pc")

    def __init__(self, name, goal, extra=(), where=""):
        self.name = name
        self.goal = goal
        self.extra = tuple(extra)
        self.status = None
        self.info = ""
        self.t = 0.0
        self.where = where
        # an obligation stands under what was assumed before it, not after
        self.pc = list(CTX.pc)


class StopPath(Exception):
    pass


class CallContract:
    """contract of a repository function used at its call sites"""
    def __init__(self, fn, pure=False):
        self.fn = fn
        self.pure = pure
        self.memo = []

    def apply(self, interp, f, vals):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        mine = [x.arg for x in self.fn.node.args.args[1:]]
        if names != mine:
            return interp.call_func(f, [], dict(vals), nocontract=True)
        interp.used[f.qual] = interp.used.get(f.qual, 0) + 1
        vs = [vals[n] for n in names]
        if self.pure:
            key = [fingerprint(x) for x in vs]
            for k, r in self.memo:
                if k == key:
                    return copied(interp, r)
        r = interp.call_func(self.fn, [interp.scenario_v] + vs, {})
        if self.pure:
            self.memo.append((key, copied(interp, r)))
        return r


def copied(interp, r):
    """the result of a second call with the same arguments: equal, not the same objects"""
    if isinstance(r, (tuple, list)):
        return type(r)(copied(interp, x) for x in r)
    if isinstance(r, Arr):
        return npmod.copyarr(r)
    if isinstance(r, Obj):
        return bi.deepcopy(interp, r)
    return r


PROBE = [tm.var("probe_%d" % i, "I") for i in range(4)]


def fingerprint(x):
    """equal fingerprints denote equal values"""
    if isinstance(x, Arr):
        try:
            e = x.snap()(tuple(PROBE[:x.ndim]))
        except Exception:       # noqa
            return ("arr", id(x), object())
        if isinstance(e, NT):
            e = (e.nan, e.val) if hasattr(e, "nan") else object()
        return ("arr", x.dtype, tuple(str(dsize(d)) for d in x.shape), e)
    if isinstance(x, Obj):
        fs = [(k, fingerprint(y)) for k, y in sorted(x.attrs.items())]
        simple = all(f[0] not in ("id", "obj") for _, f in fs)
        return ("obj", x.cls.name if simple else x.id, tuple(fs))
    if isinstance(x, (int, float, str, bool, Fraction, T)) or x is None:
        return (type(x).__name__, x)
    return ("id", id(x))


def contracts_table():
    """contract name -> qualified name of the function it specifies"""
    t = {}
    for st in ast.parse(open(os.path.join(CONTRACTS, "fc.py")).read()).body:
        if isinstance(st, ast.FunctionDef):
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                    t[st.name] = ast.literal_eval(d.args[0])
    return t


def pure_contracts():
    """contracts of functions whose result is a function of their arguments"""
    r = set()
    for st in ast.parse(open(os.path.join(CONTRACTS, "fc.py")).read()).body:
        if isinstance(st, ast.FunctionDef):
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and any(k.arg == "pure" and k.value.value for k in d.keywords):
                    r.add(st.name)
    return r


def literal(node, tree):
    """the value of a literal expression; a name denotes a module-level literal"""
    if isinstance(node, ast.Name):
        for st in tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and getattr(st.targets[0], "id", None) == node.id:
                return literal(st.value, tree)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return literal(node.left, tree) + literal(node.right, tree)
    return ast.literal_eval(node)


def loop_table():
    """name of an invariant -> (qualified name of the function, index of the loop, variables)"""
    t = {}
    for st in ast.parse(open(os.path.join(CONTRACTS, "inv.py")).read()).body:
        if isinstance(st, ast.FunctionDef):
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "invariant":
                    t[st.name.rsplit("_", 1)[0]] = tuple(ast.literal_eval(a) for a in d.args)
    return t


def scenario_loops(module, fname):
    tree = ast.parse(open(os.path.join(CONTRACTS, module + ".py")).read())
    for st in tree.body:
        if isinstance(st, ast.FunctionDef) and st.name == fname:
            for d in st.decorator_list:
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "loops":
                            return literal(k.value, tree)
    return ()


def scenario_uses(module, fname):
    tree = ast.parse(open(os.path.join(CONTRACTS, module + ".py")).read())
    for st in tree.body:
        if isinstance(st, ast.FunctionDef) and st.name == fname:
            for d in st.decorator_list:
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "uses":
                            t = contracts_table()
                            return {u: t[u] for u in literal(k.value, tree)}
    return {}


class SymV:
    """the scenario's view of the symbolic world"""
    symbolic = True

    def __init__(self, interp):
        self.interp = interp
        self.obs = []
        self.memo = []
        self.ghosts = {}      # of the loops with an invariant, when they end
        self.inputs = []      # (name, Arr, initial elem)
        self.models = {}
        self.timeout = 4000

    def pyattr(self, interp, a):
        if a == "symbolic":
            return True
        if a == "plots":
            return LV([(o, m, args, DV(list(kw.items()))) for o, m, args, kw in self.log])
        return getattr(self, "v_" + a)

    # ---- inputs
    def v_size(self, name, lo=0, hi=None, conc=None):
        n = tm.var(name, "I")
        CTX.assume(tm.ge(n, lo))
        if hi is not None:
            CTX.assume(tm.le(n, hi))
        if isinstance(hi, int) and lo == hi:
            return lo
        if isinstance(lo, int) and lo >= 0:
            tm.NN.add(n)
        return n

    def v_small(self, name, lo, hi, conc=None):
        """a size enumerated between small bounds (bounded scenario)"""
        return self.v_one_of(name, list(range(lo, hi + 1)))

    def v_int(self, name, lo=None, hi=None, conc=None):
        n = tm.var(name, "I")
        if lo is not None:
            CTX.assume(tm.ge(n, lo))
        if hi is not None:
            CTX.assume(tm.lt(n, hi))
        return n

    def v_real(self, name, lo=None, hi=None, pos=False, **kw):
        x = tm.var(name, "R")
        if pos:
            CTX.assume(tm.gt(x, 0))
        if lo is not None:
            CTX.assume(tm.ge(x, lo))
        if hi is not None:
            CTX.assume(tm.le(x, hi))
        return x

    def v_one_of(self, name, options):
        opts = options.items if isinstance(options, LV) else list(options)
        k = tm.var("opt_" + name, "I")
        CTX.assume(tm.ge(k, 0))
        CTX.assume(tm.lt(k, len(opts)))
        for i, o in enumerate(opts[:-1]):
            if CTX.decide(tm.eq(k, i)):
                return o
        CTX.assume(tm.eq(k, len(opts) - 1))
        return opts[-1]

    def v_array(self, name, shape, dtype="f", **kw):
        shape = shape if isinstance(shape, tuple) else (shape,)
        srt = {"f": "R", "i": "I", "b": "B"}[dtype]
        f = lambda ix: tm.uf(name, [tm.num(i) for i in ix], srt)
        a = mkarr(shape, f, dtype, name)
        self.inputs.append((name, a, f))
        return a

    v_data = v_array

    def v_assume_each(self, name, lo=None, hi=None):
        """every cell of input array `name` lies in [lo, hi]"""
        a = next(x for n, x, _ in self.inputs if n == name)

        def fn(*ix):
            c = []
            e = tm.uf(name, [tm.num(i) for i in ix], "R" if a.dtype == "f" else "I")
            if lo is not None:
                c.append(tm.ge(e, lo))
            if hi is not None:
                c.append(tm.le(e, hi))
            return tm.implies(tm.and_(*[tm.and_(tm.ge(i, 0), tm.lt(i, dsize(d))) for i, d in zip(ix, a.shape)]), tm.and_(*c))
        CTX.hyps.append(sv.Hyp(a.ndim, fn, [name]))

    def v_rule(self, trig, c):
        """a quantified assumption, used where cells of array trig occur"""
        c = self.cond(c)
        if not (c.op == "atom" and c.args[0].kind == "all"):
            raise Unsupported("v.rule: not a quantified condition")
        d, ps = c.args
        offs = [tm.I(0)]
        if len(d.binders) == 1:
            bv = tm.fresh("b", "I", True)
            _, _, bs, _ = d.inst(ps, [bv])
            offs = {}
            for x in tm.subterms(bs):
                if x.op == "uf" and x.args[0] == trig:
                    for a in x.args[1:]:
                        o = tm.sub(a, bv)
                        if not tm.contains(o, bv):
                            offs[o] = 1
            offs = list(offs) or [tm.I(0)]

        def fn(*ws):
            out = []
            for o in offs:
                w = [tm.sub(x, o) for x in ws]
                s, m, b, _ = d.inst(ps, w)
                out.append(tm.implies(tm.and_(sv.inrange(w, s), m), b[0]))
            return tm.and_(*out)
        CTX.hyps.append(sv.Hyp(len(d.binders), fn, [trig]))

    def v_assume_increasing(self, a):
        """input 1-D array: strictly increasing"""
        name = a.buf.name

        def fn(i, j):
            n = dsize(a.shape[0])
            return tm.implies(tm.and_(tm.ge(i, 0), tm.lt(i, j), tm.lt(j, n)), tm.lt(tm.uf(name, [i], "R"), tm.uf(name, [j], "R")))
        CTX.hyps.append(sv.Hyp(2, fn, [name]))

    def v_model(self, name="f", dim=None, **kw):
        """black box: one output per row, each row's output depends on that row only"""
        return self.rowfn(name, dim, False)

    def v_jac(self, name="J", dim=None, **kw):
        return self.rowfn(name, dim, True)

    def rowfn(self, name, dim, jac):
        me = self

        def model(x):
            x = npmod.toarr(x)
            if not isinstance(x, Arr) or x.ndim != 2:
                raise PyExc("ValueError", "the model was called with an input that is not two-dimensional")
            if dim is not None:
                me.obs.append(mkob("pre: model input has %s columns" % "D", tm.eq(dsize(x.shape[1]), dim), where="model call"))
            if x.shape[1].kind != "p":
                raise Unsupported("model input with filtered columns")
            g = x.snap()
            nd = x.shape[1].n if dim is None else dim

            def cell(i, extra):
                b = tm.fresh("d", "I", True)
                e = g((i, b))
                if isinstance(e, NT):
                    raise Unsupported("model evaluated on NaN")
                e = tm.toR(tm.num(e))
                return tm.mk_atom(("call", name), "R", [b], [tm.num(nd)], TRUE, [e], extra)
            if jac:
                return npmod.lam((x.shape[0], plain(nd)), lambda ix: cell(ix[0], [tm.num(ix[1])]), "f")
            return npmod.lam((x.shape[0],), lambda ix: cell(ix[0], []), "f")
        model.ident = name
        model.__name__ = name
        return model

    # ---- assumptions and obligations
    def v_assume(self, c):
        c = self.cond(c)
        CTX.assume(c)
        if not CTX.prove(TRUE) and False:
            raise Infeasible()

    def cond(self, c):
        if isinstance(c, Arr):
            c = npmod.np_all(c)
        if isinstance(c, (T, NT)):
            return s_truth(c)
        return tm.B(self.interp.truth(c))

    def v_holds(self, name, c):
        self.obs.append(mkob(name, self.cond(c)))

    def v_each(self, name, a):
        """every cell of boolean array a is true (checked at a fresh index)"""
        if not isinstance(a, Arr):
            return self.v_holds(name, a)
        fv = tuple(dimvars(d, "q") for d in a.shape)
        self.obs.append(mkob(name, s_truth(a.at(fv)), [inr(d, x) for d, x in zip(a.shape, fv)]))

    def v_equal(self, name, a, b, **kw):
        self.eq(name, a, b)

    v_same = v_equal
    v_close = v_equal

    def eq(self, name, a, b):
        if isinstance(a, Arr) and a.ndim == 0:
            a = npmod.item(a)
        if isinstance(b, Arr) and b.ndim == 0:
            b = npmod.item(b)
        if isinstance(a, Arr) != isinstance(b, Arr):
            if isinstance(a, LV) and all(isnum(x) for x in (a.items or [None])):
                a = npmod.toarr(a)
            elif isinstance(b, LV) and all(isnum(x) for x in (b.items or [None])):
                b = npmod.toarr(b)
            else:
                self.obs.append(mkob(name + " [kind: %s vs %s]" % (type(a).__name__, type(b).__name__), FALSE))
                return
        if isinstance(a, Arr):
            if a.ndim != b.ndim:
                self.obs.append(mkob(name + " [ndim %d vs %d]" % (a.ndim, b.ndim), FALSE))
                return
            if all(samedim(x, y) for x, y in zip(a.shape, b.shape)):
                pass
            else:
                a, b = npmod.plainarr(a), npmod.plainarr(b)
                for k, (x, y) in enumerate(zip(a.shape, b.shape)):
                    self.obs.append(mkob(name + " [size of axis %d]" % k, tm.eq(dsize(x), dsize(y))))
            fv = tuple(dimvars(d, "q") for d in a.shape)
            rng = [inr(d, x) for d, x in zip(a.shape, fv)]
            x, y = a.at(fv), b.at(fv)
            self.obs.append(mkob(name, eqnan(x, y), rng))
            return
        if isnum(a) and isnum(b):
            self.obs.append(mkob(name, eqnan(a, b)))
            return
        if isinstance(a, (tuple, LV)) and isinstance(b, (tuple, LV)):
            if isinstance(a, LV) and not a.concrete or isinstance(b, LV) and not b.concrete:
                na, ga = ip.lv_view(a if isinstance(a, LV) else LV(list(a)))
                nb, gb = ip.lv_view(b if isinstance(b, LV) else LV(list(b)))
                self.obs.append(mkob(name + " [length]", tm.eq(na, nb)))
                q = tm.fresh("q", "I", True)
                c = self.interp.eqv(ga(q), gb(q))
                self.obs.append(mkob(name, tm.boolt(c), [tm.ge(q, 0), tm.lt(q, na), tm.lt(q, nb)]))
                return
            x = list(a) if isinstance(a, tuple) else a.items
            y = list(b) if isinstance(b, tuple) else b.items
            if len(x) != len(y):
                self.obs.append(mkob(name + " [length %d vs %d]" % (len(x), len(y)), FALSE))
                return
            for i, (p, q) in enumerate(zip(x, y)):
                self.eq("%s[%d]" % (name, i), p, q)
            return
        c = self.interp.eqv(a, b)
        self.obs.append(mkob(name, tm.boolt(c)))

    def v_same_state(self, name, a, b):
        """the objects are equal through and through"""
        self.same_state(name, a, b, set())

    def same_state(self, name, a, b, seen):
        if a is b or (id(a), id(b)) in seen:
            return
        seen.add((id(a), id(b)))
        no = lambda why: self.obs.append(mkob(name + " [%s]" % why, FALSE))
        if isinstance(a, ip.Obj) and isinstance(b, ip.Obj):
            if a.cls is not b.cls or set(a.attrs) != set(b.attrs):
                return no("attributes")
            for k in sorted(a.attrs):
                self.same_state(name + "." + k, a.attrs[k], b.attrs[k], seen)
        elif isinstance(a, DV) and isinstance(b, DV):
            if a.fams or b.fams:
                raise Unsupported("comparison of dictionaries with unboundedly many keys")
            if len(a.pairs) != len(b.pairs):
                return no("number of keys")
            for k, x in list(a.pairs):
                p = b.find(k)
                if p is None:
                    return no("keys")
                self.same_state(name + "[%s]" % (k if isinstance(k, str) else "*"), x, p[1], seen)
        elif isinstance(a, bi.Opaque) and isinstance(b, bi.Opaque):
            ia, ib = getattr(a, "ident", None), getattr(b, "ident", None)
            if ia is None or ib is None or ia[0] != ib[0]:
                return no("object")
            for x, y in zip(ia[1:], ib[1:]):
                self.same_state(name, x, y, seen)
        elif isinstance(a, (Arr, T, NT, int, float, Fraction, str, SymStr, tuple, LV)) and a is not None:
            if type(a) != type(b) and not (isnum(a) and isnum(b)):
                return no("%s, %s" % (type(a).__name__, type(b).__name__))
            self.eq(name, a, b)
        elif a != b:
            no("value")

    def v_raises(self, f):
        """name of the exception class raised by f(), or None"""
        try:
            self.interp.call(f, [], {})
        except PyExc as e:
            return e.cls
        return None

    def v_unchanged(self, name=None):
        """frame: input arrays keep their contents (all, or one)"""
        for n, a, f in self.inputs:
            if name is not None and n != name:
                continue
            fv = tuple(dimvars(d, "q") for d in a.shape)
            self.obs.append(mkob("frame: input %s unchanged" % n, eqnan(a.buf.elem(fv), f(fv)), [inr(d, x) for d, x in zip(a.shape, fv)]))

    # ---- only inside contracts used at call sites: the havocked result
    def nohavoc(self):
        if CTX.journal is not None:
            raise Unsupported("contract with a fresh result inside a summarised loop")

    def v_fresh_size(self, name, lo=0):
        self.nohavoc()
        n = tm.fresh(name, "I")
        CTX.assume(tm.ge(n, lo))
        if isinstance(lo, int) and lo >= 0:
            tm.NN.add(n)
        return n

    def v_fresh_real(self, name, nan=False):
        self.nohavoc()
        x = tm.fresh(name, "R")
        return NT(tm.fresh(name + "_nan", "B"), x) if nan else x

    def v_fresh_bool(self, name):
        self.nohavoc()
        return CTX.decide(tm.fresh(name, "B"))

    def v_fresh_array(self, name, shape, dtype="f"):
        self.nohavoc()
        shape = shape if isinstance(shape, tuple) else (shape,)
        nm = tm.fresh(name, "I").args[0]
        srt = {"f": "R", "i": "I", "b": "B"}[dtype]
        return mkarr(shape, lambda ix: tm.uf(nm, [tm.num(i) for i in ix], srt), dtype, nm)

    def v_fresh_int(self, name, lo=None, hi=None):
        self.nohavoc()
        n = tm.fresh(name, "I")
        if lo is not None:
            CTX.assume(tm.ge(n, lo))
        if hi is not None:
            CTX.assume(tm.le(n, hi))
        return n

    def v_opaque(self, name, *args, kind="I"):
        """an uninterpreted function"""
        return tm.uf("opq_" + name, [tm.num(a) for a in args], kind)

    def v_ghost(self, name):
        return self.ghosts.get(name)

    def v_obj(self, cls, **attrs):
        c = ip.ClassV(cls, [], {}, None)
        o = ip.Obj(c)
        for k, x in attrs.items():
            self.interp.setattr(o, k, x)
        return o

    def v_pure(self, key, fn):
        """the value of fn(), the same for equal keys"""
        k = [fingerprint(x) for x in key]
        for k0, r in self.memo:
            if k0 == k:
                return copied(self.interp, r)
        r = self.interp.call(fn, [], {})
        self.memo.append((k, copied(self.interp, r)))
        return r

    def v_linear(self):
        """linear reasoning is enough from here on"""
        CTX.light = True

    def v_requires(self, name, c):
        """precondition of a contract, an obligation of the caller"""
        c = self.cond(c)
        if not CTX.prove(c):
            self.obs.append(mkob("pre: " + name, tm.implies(tm.and_(*CTX.pc), c)))
            CTX.assume(c)

    def v_stop(self):
        raise StopPath()

    def v_copy(self, a):
        return npmod.copyarr(a) if isinstance(a, Arr) else bi.deepcopy(self.interp, a)

    def v_note(self, *a):
        pass

    def v_tag(self, a):
        return tm.fresh(a, "I")


def mkob(name, goal, extra=(), where=""):
    return Ob(name, tm.boolt(goal), [e for e in extra], where)


def eqnan(x, y):
    if isinstance(x, bool):
        x = tm.B(x)
    if isinstance(y, bool):
        y = tm.B(y)
    nx, ny = nanof(x), nanof(y)
    vx, vy = valof(x), valof(y)
    isb = lambda z: isinstance(z, T) and z.sort == "B"
    if isb(vx) and isb(vy):
        e = tm.iff(vx, vy)
    elif isb(vx) or isb(vy):
        e = tm.eq(tm.ind(vx) if isb(vx) else vx, tm.ind(vy) if isb(vy) else vy)
    else:
        e = tm.eq(vx, vy)
    if nx is FALSE and ny is FALSE:
        return e
    return tm.and_(tm.iff(nx, ny), tm.or_(nx, e))


def make_interp(repo):
    it = ip.Interp(repo)
    it.specdir = CONTRACTS
    ident = lambda *a, **k: (lambda f: f)
    it.external["vapi"] = ip.ModV("vapi", {"scenario": ident, "contract": ident, "invariant": ident})
    log = bi.install(it)
    it.plotlog = log
    return it


class Outcome:
    def __init__(self, name):
        self.name = name
        self.obs = []           # (name, status, info, t)
        self.paths = 0
        self.dead = 0
        self.canary = 0
        self.functions = {}
        self.used = {}
        self.error = None
        self.wall = 0.0
        self.stats = {}
        self.unsupported = []
        self.assumptions = []
        self.choices = []

    def ok(self):
        return self.error is None and self.obs and all(o[1] == "proved" for o in self.obs) and self.canary > 0


def run_scenario(repo, module, fname, budget=120, maxpaths=200, verbose=False, contracts=None):
    t0 = time.time()
    out = Outcome(module + "." + fname)
    sv.DEADLINE[0] = t0 + budget
    CTX.base_pc = []
    CTX.hyps = []
    CTX.reset([])
    it = make_interp(repo)
    out.functions = it.calls
    out.used = it.used
    try:
        mod = it.resolve(module)
        fn = mod.attrs[fname]
        uses = scenario_uses(module, fname)
        if uses:
            fc = it.resolve("fc")
            pure = pure_contracts()
            for u, target in uses.items():
                if u not in fc.attrs:
                    raise Unsupported("no contract %s" % u)
                owner = it.lookup_qual(target)
                if owner is not None:       # a function that is gone is executed as whatever replaced it
                    it.contracts[target] = CallContract(fc.attrs[u], u in pure)
        ls = scenario_loops(module, fname)
        if ls:
            from . import inv
            im = it.resolve("inv")
            t = loop_table()
            for n in ls:
                q, i, vs = t[n]
                it.loopspecs.setdefault(q, {})[i] = inv.LoopSpec(n, i, vs.split(), im.attrs)
        globs = {m: dict(x.attrs) for m, x in it.modules.items()}
    except (Unsupported, PyExc) as e:
        out.error = "loading: %s" % e
        out.wall = time.time() - t0
        return out
    except Exception as e:
        out.error = "loading: " + traceback.format_exc(limit=-3)
        return out
    work = [[]]
    done = 0
    while work:
        if done >= maxpaths:
            out.error = "path limit %d reached" % maxpaths
            break
        if time.time() > t0 + budget:
            out.error = "time budget of %ds exhausted with %d paths left" % (budget, len(work))
            break
        prefix = work.pop()
        CTX.hyps = []
        CTX.reset(prefix)
        del it.plotlog[:]
        npmod.CHOICES[:] = []
        npmod.RANKS.clear()
        for m, a in globs.items():
            it.modules[m].attrs = dict(a) if False else it.modules[m].attrs
        for c in it.contracts.values():
            c.memo = []
        v = SymV(it)
        v.log = it.plotlog
        it.scenario_v = v
        exc = None
        cut = False
        it.depth = 0
        CTX.journal = None
        try:
            it.call(fn, [v], {})
        except StopPath:
            pass
        except Infeasible:
            cut = True
        except PyExc as e:
            exc = e
            if verbose:
                traceback.print_exc(limit=-6)
        except Unsupported as e:
            work.extend(CTX.forks)
            if not sv.feasible(CTX.pc, CTX.hyps):
                out.dead += 1
                continue
            out.unsupported.append(str(e))
            out.obs.append(("within the verifier's reach", "unsupported", str(e) + where_tb(e), 0.0))
            if verbose:
                traceback.print_exc(limit=-12)
            continue
        except RecursionError as e:
            work.extend(CTX.forks)
            out.obs.append(("within the verifier's reach", "unsupported", "recursion", 0.0))
            continue
        except Exception as e:
            work.extend(CTX.forks)
            out.obs.append(("within the verifier's reach", "unsupported", "engine: " + traceback.format_exc(limit=-4), 0.0))
            if verbose:
                traceback.print_exc()
            continue
        work.extend(CTX.forks)
        done += 1
        pc = list(CTX.pc)
        if cut:
            out.dead += 1
        else:
            out.paths += 1
        if exc is not None:
            r = sv.prove(pc, CTX.hyps, FALSE, timeout=v.timeout)
            if r.status == "proved":
                out.dead += 1
            else:
                out.obs.append(("no exception on admissible input", "failed", "%s raised" % exc, 0.0))
                continue
        elif not cut:
            # vacuity: the path must not be contradictory
            r = sv.prove(pc, CTX.hyps, FALSE, timeout=1500, rounds=3, nl=0)
            if r.status == "proved":
                out.dead += 1
            else:
                out.canary += 1
        # what was to be shown before a path turned out impossible still has to be shown
        for o in v.obs:
            t1 = time.time()
            if time.time() > t0 + budget:
                out.obs.append((o.name, "unknown", "time budget", 0.0))
                continue
            try:
                r = sv.prove_goal(list(o.pc) + list(o.extra), CTX.hyps, o.goal, v.timeout)
                st, info = r.status, r.info if r.status != "proved" else ""
            except Exception as e:
                st, info = "unknown", "solver: %s" % traceback.format_exc(limit=-3)
            out.obs.append((o.name, st, info, round(time.time() - t1, 3)))
            if verbose and st != "proved":
                print("FAILED", o.name, st, info)
                print("   goal:", tm.describe(tm.implies(tm.and_(*pc), o.goal))[:6000])
                print("   pc:", [tm.show(x)[:200] for x in pc + list(o.extra)][:40])
    out.wall = time.time() - t0
    out.stats = dict(sv.STATS)
    if not out.error and not out.obs:
        out.error = "no obligation generated"
    if not out.error and out.canary == 0:
        out.error = "every path is contradictory (vacuous)"
    return out


def where_tb(e):
    return ""
