"""Symbolic interpreter for the Python of the verified repository."""
import ast
import os
import sys
from fractions import Fraction
from . import terms as tm
from . import solver as sv
from .terms import T, TRUE, FALSE, I, R
from .values import *
from . import values as V

sys.setrecursionlimit(20000)
UNROLL = 12       # longer concrete loops are summarised like symbolic ones


class Env:
    __slots__ = ("vars", "parent", "globals", "fn", "nonlocals")

    def __init__(self, parent, globals_, fn=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.fn = fn
        self.nonlocals = set()

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                v = e.vars[n]
                if type(v).__name__ == "Lazy":
                    v = e.vars[n] = v.fn()
                if isinstance(v, Poison):
                    raise Unsupported("loop-carried variable %s" % n)
                return v
            e = e.parent
        if n in self.globals.attrs:
            return self.globals.attrs[n]
        if n in BUILTINS:
            return BUILTINS[n]
        raise PyExc("NameError", n)

    def set(self, n, v):
        if n in self.nonlocals:
            e = self.parent
            while e is not None:
                if n in e.vars:
                    e.vars[n] = v
                    return
                e = e.parent
            self.globals.attrs[n] = v
            return
        self.vars[n] = v


class Poison:
    pass


class FuncV:
    def __init__(self, name, node, env, interp, cls=None, module=None):
        self.name = name
        self.node = node
        self.env = env
        self.cls = cls
        self.module = module
        a = node.args
        self.defaults = [interp.ev(d, env) for d in a.defaults]
        self.kwdefaults = [None if d is None else interp.ev(d, env) for d in a.kw_defaults]
        self.qual = (module.name if module else "?") + "." + ((cls.name + ".") if cls else "") + name

    def __repr__(self):
        return "<func %s>" % self.qual


class BoundM:
    def __init__(self, f, self_):
        self.f = f
        self.self_ = self_


class ClassV:
    def __init__(self, name, bases, attrs, module):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, ClassV) else []):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.attrs:
                return c.attrs[n]
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class ModV:
    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ExcCls:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        return PyExc(self.name, a[0] if a else "")


class TypeV:
    """a builtin type used as a value (int, str, list, np.ndarray...)"""

    def __init__(self, name, conv=None):
        self.name = name
        self.conv = conv

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __repr__(self):
        return "<type %s>" % self.name


class SliceV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class RangeV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def concrete(self):
        return all(isinstance(x, int) for x in (self.a, self.b, self.c))

    def items(self):
        return list(range(self.a, self.b, self.c))

    def size(self):
        if self.concrete():
            return len(range(self.a, self.b, self.c))
        if self.c == 1:
            d = simp(tm.sub(self.b, self.a))
            if CTX.prove(tm.ge(d, 0)):
                return d
            return simp(tm.max_(d, 0))
        if self.c == -1:
            d = simp(tm.sub(self.a, self.b))
            if CTX.prove(tm.ge(d, 0)):
                return d
            return simp(tm.max_(d, 0))
        raise Unsupported("range with symbolic bounds and step")

    def get(self, i):
        return simp(tm.add(self.a, tm.mul(i, self.c)))


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


BUILTINS = {}
EXC_PARENTS = {"AssertionError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
               "ValueError": "Exception", "TypeError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
               "AttributeError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "NameError": "Exception",
               "StopIteration": "Exception", "Exception": "BaseException", "UserWarning": "Warning", "Warning": "Exception", "FloatingPointError": "ArithmeticError", "ImportError": "Exception"}


def exc_isa(n, m):
    while n is not None:
        if n == m:
            return True
        n = EXC_PARENTS.get(n)
    return m in ("Exception", "BaseException")


class Interp:
    def __init__(self, repo="/repo", pkg="effector"):
        self.repo = repo
        self.pkg = pkg
        self.modules = {}
        self.external = {}
        self.specdir = None
        self.used = {}
        self.loopspecs = {}      # qual -> {index of the loop: LoopSpec}
        self.contracts = {}      # qual -> Contract  (used at call sites)
        self.calls = {}          # qual -> number of symbolic executions of the body
        self.fileinfo = {}
        self.depth = 0
        self.unrolled = set()

    # ---------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.external:
            return self.external[name]
        if name == self.pkg:
            path = os.path.join(self.repo, self.pkg, "__init__.py")
        elif name.startswith(self.pkg + "."):
            path = os.path.join(self.repo, *name.split(".")) + ".py"
        elif self.specdir and os.path.exists(os.path.join(self.specdir, name + ".py")):
            path = os.path.join(self.specdir, name + ".py")
        else:
            raise Unsupported("import of %s" % name)
        if not os.path.exists(path):
            raise PyExc("ImportError", name)
        src = open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
        m = ModV(name)
        m.attrs["__name__"] = name
        self.modules[name] = m
        self.fileinfo[name] = path
        env = Env(None, m)
        env.vars = m.attrs
        for st in tree.body:
            self.ex(st, env)
        return m

    def import_(self, name, env, asname=None):
        if asname:
            env.set(asname, self.resolve(name))
        else:
            top = name.split(".")[0]
            self.resolve(name)
            env.set(top, self.resolve(top))

    def resolve(self, name):
        if name in self.external:
            return self.external[name]
        if "." in name and name not in self.modules and name.rsplit(".", 1)[0] not in self.modules:
            self.resolve(name.rsplit(".", 1)[0])
        m = self.load(name)
        if "." in name:
            p, c = name.rsplit(".", 1)
            if p in self.modules:
                self.modules[p].attrs.setdefault(c, m)
            elif p == self.pkg:
                self.load(p).attrs.setdefault(c, m)
        return m

    def lookup_qual(self, q):
        """the function with this qualified name, or None"""
        parts = q.split(".")
        for k in range(len(parts) - 1, 0, -1):
            try:
                m = self.resolve(".".join(parts[:k]))
            except (Unsupported, PyExc):
                continue
            o = m
            for x in parts[k:]:
                o = o.find(x) if isinstance(o, ClassV) else o.attrs.get(x)
                if o is None:
                    return None
            return o if isinstance(o, FuncV) else None
        return None

    # ---------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.ex(s, env)

    def ex(self, s, env):
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def ex_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def ex_Pass(self, s, env):
        pass

    def ex_Import(self, s, env):
        for a in s.names:
            self.import_(a.name, env, a.asname)

    def ex_ImportFrom(self, s, env):
        base = s.module
        if s.level:
            base = self.pkg + ("." + s.module if s.module else "")
        m = self.resolve(base)
        for a in s.names:
            if a.name == "*":
                for k, v in m.attrs.items():
                    env.set(k, v)
                continue
            if a.name in m.attrs:
                v = m.attrs[a.name]
            else:
                v = self.resolve(base + "." + a.name)
            env.set(a.asname or a.name, v)

    def ex_FunctionDef(self, s, env):
        cls = env.vars.get("__cls__") if "__cls__" in env.vars else None
        f = FuncV(s.name, s, env if cls is None else env.parent, self, cls, env.globals)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            if isinstance(dv, TypeV) and dv.name in ("staticmethod", "property", "classmethod"):
                v = (dv.name, v)
            elif dv is BUILTINS.get("__identity__"):
                pass
            else:
                v = self.call(dv, [v], {})
        env.set(s.name, v)

    def ex_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        c = ClassV(s.name, [b for b in bases if isinstance(b, ClassV)], {}, env.globals)
        e = Env(env, env.globals)
        e.vars["__cls__"] = c
        for st in s.body:
            self.ex(st, e)
        del e.vars["__cls__"]
        c.attrs.update(e.vars)
        if s.decorator_list:
            raise Unsupported("class decorator")
        env.set(s.name, c)

    def ex_Return(self, s, env):
        raise Ret(None if s.value is None else self.ev(s.value, env))

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def ex_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            its = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            k = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if k is not None:
                post = len(t.elts) - k - 1
                if len(its) < len(t.elts) - 1:
                    raise PyExc("ValueError", "not enough values to unpack")
                its = its[:k] + [LV(list(its[k:len(its) - post]))] + its[len(its) - post:]
            for e, x in zip(t.elts, its):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.index(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=False):
        its = self.iter_concrete(v, n)
        if not star and len(its) != n:
            raise PyExc("ValueError", "unpack: expected %d values" % n)
        return its

    def iter_concrete(self, v, hint=None):
        k, x = self.iterable(v)
        if k == "c":
            return list(x)
        dim, get = x
        n = V.dsize(dim)
        if isinstance(n, int) and dim.kind == "p":
            return [get(i) for i in range(n)]
        if hint is not None and dim.kind == "p" and CTX.decide(tm.eq(n, hint)):
            return [get(i) for i in range(hint)]
        raise Unsupported("symbolic iterable where a concrete one is needed")

    def iterable(self, v):
        """('c', list) or ('s', (dim, get))"""
        if isinstance(v, LV):
            lv_touch(v)
            if v.concrete:
                return "c", list(v.items)
            return "s", (v.dim, v.get)
        if isinstance(v, tuple):
            return "c", list(v)
        if isinstance(v, RangeV):
            if v.concrete() and (tm.CONCRETE or len(v.items()) <= UNROLL):
                return "c", v.items()
            return "s", (plain(v.size()), v.get)
        if isinstance(v, Arr):
            from . import npmod
            d = v.shape[0]
            if d.kind == "p" and isinstance(d.n, int) and (tm.CONCRETE or d.n <= UNROLL):
                return "c", [npmod.getitem(v, i) for i in range(d.n)]
            snap = v
            return "s", (d, lambda i: npmod.index_axis0(snap, i))
        if isinstance(v, DV):
            return "c", [p[0] for p in v.pairs]
        if isinstance(v, str):
            return "c", list(v)
        if isinstance(v, Iter):
            return v.kind, v.data
        if isinstance(v, (list,)):
            return "c", v
        if isnum(v) or v is None:
            raise PyExc("TypeError", "not iterable")
        raise Unsupported("iteration over %s" % type(v).__name__)

    def ex_AugAssign(self, s, env):
        from . import npmod
        cur_t = s.target
        if isinstance(cur_t, ast.Name):
            cur = env.lookup(cur_t.id)
        elif isinstance(cur_t, ast.Attribute):
            obj = self.ev(cur_t.value, env)
            cur = self.getattr(obj, cur_t.attr)
        else:
            obj = self.ev(cur_t.value, env)
            key = self.index(cur_t.slice, env)
            cur = self.getitem(obj, key)
        rhs = self.ev(s.value, env)
        if isinstance(cur, Arr):
            # in-place: write through (0-d results of getitem are scalars, not Arr)
            res = self.binop(type(s.op).__name__, cur, rhs)
            npmod.setitem(cur, Ellipsis, res)
            new = cur
        elif isinstance(cur, LV) and isinstance(s.op, ast.Add):
            for x in self.iter_concrete(rhs):
                cur.append(x)
            new = cur
        else:
            new = self.binop(type(s.op).__name__, cur, rhs)
        if isinstance(cur_t, ast.Name):
            env.set(cur_t.id, new)
        elif isinstance(cur_t, ast.Attribute):
            self.setattr(obj, cur_t.attr, new)
        else:
            self.setitem(obj, key, new)

    def ex_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def ex_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyExc("AssertionError", "")

    def ex_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "_cur_exc", None)
            raise cur if cur else PyExc("RuntimeError", "no active exception")
        e = self.ev(s.exc, env)
        if isinstance(e, ExcCls):
            e = PyExc(e.name, "")
        if isinstance(e, PyExc):
            raise e
        raise Unsupported("raise")

    def ex_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ty = self.ev(h.type, env)
                        tys = list(ty) if isinstance(ty, tuple) else [ty]
                        ok = any(exc_isa(e.cls, t.name) for t in tys)
                    if ok:
                        if h.name:
                            env.set(h.name, e)
                        old = getattr(self, "_cur_exc", None)
                        self._cur_exc = e
                        try:
                            self.block(h.body, env)
                        finally:
                            self._cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def ex_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.block(s.body, env)

    def ex_Break(self, s, env):
        raise Brk()

    def ex_Continue(self, s, env):
        raise Cont()

    def ex_Global(self, s, env):
        env.nonlocals |= set(s.names)

    ex_Nonlocal = ex_Global

    def ex_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.index(t.slice, env)
                if isinstance(o, DV):
                    o.pairs = [p for p in o.pairs if not keyeq(p[0], k)]
                elif isinstance(o, LV) and o.concrete:
                    del o.items[k]
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def loop_spec(self, s, env):
        if not self.loopspecs or env.fn is None or CTX.journal is not None:
            return None
        sp = self.loopspecs.get(env.fn.qual)
        if not sp:
            return None
        from . import inv
        return sp.get(inv.loop_index(env.fn, s))

    def ex_While(self, s, env):
        sp = self.loop_spec(s, env)
        if sp is not None:
            from . import inv
            return inv.run(self, sp, s, env)
        n = 0
        while True:
            if not self.truth(self.ev(s.test, env)):
                self.block(s.orelse, env)
                return
            n += 1
            if n > 400:
                raise Unsupported("while loop without a bound")
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                pass

    def ex_For(self, s, env):
        sp = self.loop_spec(s, env)
        if sp is not None:
            from . import inv
            return inv.run(self, sp, s, env)
        k, x = self.iterable(self.ev(s.iter, env))
        if k == "c":
            for v in x:
                self.assign(s.target, v, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    return
                except Cont:
                    continue
            self.block(s.orelse, env)
            return
        from . import loops
        loops.sym_for(self, s, env, *x)

    # ---------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def ev_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("non-finite literal")
            return Fraction(repr(v))
        if v is Ellipsis:
            return Ellipsis
        return v

    def ev_Name(self, e, env):
        return env.lookup(e.id)

    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def ev_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.iter_concrete(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return tuple(out)

    def ev_List(self, e, env):
        return LV(list(self.ev_Tuple(e, env)))

    def ev_Set(self, e, env):
        return LV(list(self.ev_Tuple(e, env)))

    def ev_Dict(self, e, env):
        d = DV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                for a, b in o.pairs:
                    d.set(a, b)
            else:
                kk = self.ev(k, env)
                d.set(kk, self.ev(v, env))
        return d

    def ev_Lambda(self, e, env):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
        return FuncV("<lambda>", node, env, self, None, env.globals)

    def ev_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, T) else False
            if not isand and t:
                return v if not isinstance(v, T) else True
        return v

    def ev_UnaryOp(self, e, env):
        from . import npmod
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T) and v.sort == "B":
                return simp(tm.not_(v))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                return npmod.map1(v, s_neg)
            if isinstance(v, npmod.Inf):
                return v
            self.neednum(v)
            return s_neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr):
                if v.dtype != "b":
                    raise Unsupported("invert of non-bool array")
                return npmod.map1(v, lambda x: simp(tm.not_(s_truth(x))), "b")
            if isinstance(v, T) and v.sort == "B":
                return simp(tm.not_(v))
            if isinstance(v, bool):
                raise Unsupported("~ on a Python bool")
            if isinstance(v, int):
                return ~v
        raise Unsupported("unary operator")

    def neednum(self, v):
        if not isnum(v):
            if isinstance(v, (str, SymStr, LV, DV, tuple)) or v is None or isinstance(v, (Obj, FuncV)):
                raise PyExc("TypeError", "bad operand type %s" % type(v).__name__)
            raise Unsupported("arithmetic on %s" % type(v).__name__)

    def ev_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        from . import npmod
        if op == "Mod" and isinstance(a, (str, SymStr)):
            return self.strmod(a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return npmod.arith(op, a, b)
        if op == "Add":
            if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                pa = (a,) if isinstance(a, str) else a.parts
                pb = (b,) if isinstance(b, str) else b.parts
                return mkstr(list(pa) + list(pb))
            if isinstance(a, LV) and isinstance(b, LV):
                if a.concrete and b.concrete:
                    return LV(a.items + b.items)
                return self.lv_concat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == "Mult":
            if isinstance(a, LV) and isinstance(b, int):
                return LV(a.items * b)
            if isinstance(b, LV) and isinstance(a, int):
                return LV(b.items * a)
            if isinstance(a, LV) and a.concrete and len(a.items) == 1 and isinstance(b, T):
                x = a.items[0]
                return LV(dim=plain(simp(tm.max_(b, 0)) if not CTX.prove(tm.ge(b, 0)) else b), get=lambda i: x)
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(b, str) and isinstance(a, int):
                return b * a
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
        if op in ("BitAnd", "BitOr", "BitXor"):
            isb = lambda x: isinstance(x, bool) or isinstance(x, T) and x.sort == "B"
            if isb(a) and isb(b):
                x, y = s_truth(a), s_truth(b)
                return simp({"BitAnd": tm.and_(x, y), "BitOr": tm.or_(x, y), "BitXor": tm.not_(tm.iff(x, y))}[op])
            if isinstance(a, int) and isinstance(b, int):
                return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
            raise Unsupported("bit operation")
        self.neednum(a)
        self.neednum(b)
        f = {"Add": s_add, "Sub": s_sub, "Mult": s_mul, "Div": s_div, "Pow": s_pow, "FloorDiv": s_floordiv, "Mod": s_mod}.get(op)
        if f is None:
            raise Unsupported("operator %s" % op)
        r = f(a, b)
        return simp(r) if isinstance(r, T) else r

    def lv_concat(self, a, b):
        na, ga = lv_view(a)
        nb, gb = lv_view(b)
        n = simp(tm.add(na, nb))
        return LV(dim=plain(n), get=lambda i: sel_ite(tm.lt(i, na), lambda: ga(i), lambda: gb(simp(tm.sub(i, na)))))

    def strmod(self, a, b):
        args = list(b) if isinstance(b, tuple) else [b]
        if not isinstance(a, str):
            raise Unsupported("% on a symbolic format")
        import re
        parts = []
        pos = 0
        k = 0
        for m in re.finditer(r"%(%|[-+ 0#]*\d*(?:\.\d*)?[dsfegixr])", a):
            parts.append(a[pos:m.start()])
            pos = m.end()
            if m.group(1) == "%":
                parts.append("%")
                continue
            if k >= len(args):
                raise PyExc("TypeError", "not enough arguments for format string")
            parts += fmtparts(args[k], m.group(0))
            k += 1
        parts.append(a[pos:])
        if k != len(args):
            raise PyExc("TypeError", "not all arguments converted")
        return mkstr(parts)

    def ev_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev_JoinedStr(v.format_spec, env)
                parts += fmtparts(x, "{:%s}" % spec if spec else "s")
        return mkstr(parts)

    def ev_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, env)
            c = self.compare(type(op).__name__, l, rv)
            if res is None:
                res = c
            else:
                if not self.truth(res):
                    return False
                res = c
            l = rv
        return res

    def compare(self, op, a, b):
        from . import npmod
        if op in ("Is", "IsNot"):
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(b, bool) and isinstance(a, T) and a.sort == "B":
                r = False     # np.bool_ is not the singleton
            elif a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b and type(a) == type(b)
            elif isinstance(a, TypeV) and isinstance(b, TypeV):
                r = a.name == b.name
            elif isinstance(a, str) and isinstance(b, str):
                r = a == b
            else:
                r = a is b
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, T):
                return r if op == "In" else simp(tm.not_(r))
            return r if op == "In" else not r
        o = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}[op]
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, (str, SymStr)) or isinstance(b, Arr) and isinstance(a, (str, SymStr)) or a is None or b is None:
                return o == "ne"
            return npmod.cmparr(o, a, b)
        if isnum(a) and isnum(b):
            return s_cmp(o, a, b)
        if o in ("eq", "ne"):
            r = self.eqv(a, b)
            if isinstance(r, T):
                return r if o == "eq" else simp(tm.not_(r))
            return r if o == "eq" else not r
        if isinstance(a, str) and isinstance(b, str):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[o]
        raise PyExc("TypeError", "unorderable types")

    def eqv(self, a, b):
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            return streq(a, b)
        if isnum(a) and isnum(b):
            return s_cmp("eq", a, b)
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        if isinstance(a, (tuple, LV)) and type(a) == type(b):
            x = list(a) if isinstance(a, tuple) else a.items
            y = list(b) if isinstance(b, tuple) else b.items
            if x is None or y is None:
                raise Unsupported("equality of symbolic lists")
            if len(x) != len(y):
                return False
            r = tm.and_(*[tm.boolt(self.eqv(p, q)) for p, q in zip(x, y)])
            return simp(r)
        if a is None or b is None:
            return a is b
        if type(a) != type(b):
            return False
        return a is b

    def contains(self, c, x):
        if isinstance(c, (str,)) and isinstance(x, str):
            return x in c
        if isinstance(c, DV):
            return c.find(x) is not None
        if isinstance(c, DVKeys):
            return c.d.find(x) is not None
        k, it = self.iterable(c)
        if k == "c":
            r = tm.or_(*[tm.boolt(self.compare("Eq", y, x)) if not (isinstance(y, Arr) or isinstance(x, Arr)) else tm.boolt(self.arr_eq_in(y, x)) for y in it])
            return simp(r)
        dim, get = it
        return simp(dany(dim, lambda i: tm.boolt(self.eqv(get(i), x))))

    def arr_eq_in(self, a, b):
        raise Unsupported("array membership")

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, (T, NT)):
            return CTX.decide(s_truth(v))
        if isinstance(v, str):
            return v != ""
        if isinstance(v, SymStr):
            return True
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, LV):
            lv_touch(v)
            if v.concrete:
                return len(v.items) > 0
            return CTX.decide(tm.gt(V.dsize(v.dim), 0))
        if isinstance(v, DV):
            return len(v.pairs) > 0
        if isinstance(v, Arr):
            from . import npmod
            n = 1
            for d in v.shape:
                n = mulv(n, dsize(d))
            if isinstance(n, int) and n == 1:
                return CTX.decide(s_truth(npmod.item(v)))
            if isinstance(n, int) and n == 0:
                return False
            if isinstance(n, T) and CTX.decide(tm.eq(n, 1)):
                raise Unsupported("truth of an array of symbolic size")
            raise PyExc("ValueError", "truth value of an array is ambiguous")
        return True

    def ev_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.index(e.slice, env))

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            return self.ev_Slice(s, env)
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env) for x in s.elts)
        return self.ev(s, env)

    def ev_Slice(self, s, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return SliceV(f(s.lower), f(s.upper), f(s.step))

    def getitem(self, o, k):
        from . import npmod
        if isinstance(o, Arr):
            return npmod.getitem(o, k)
        if isinstance(o, DV):
            p = o.find(k)
            if p is None:
                if o.fams:
                    for dim, keyfn, valfn in reversed(o.fams):
                        v = dimvars(dim, "k")
                        c = streq(keyfn(v), k)
                        if c is False:
                            continue
                        sol = solve_eq(c, v) if isinstance(c, T) else None
                        if sol is None:
                            raise Unsupported("lookup in a symbolic dictionary")
                        if CTX.decide(inr(dim, sol)):
                            return subst_value(valfn(v), {v: tm.num(sol)})
                raise PyExc("KeyError", str(k))
            return p[1]
        if isinstance(o, tuple):
            if isinstance(k, SliceV):
                return o[slice(k.start, k.stop, k.step)]
            k = simp(k) if isinstance(k, T) else k
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                raise PyExc("IndexError", "tuple index")
            return self.getitem(LV(list(o)), k)
        if isinstance(o, LV):
            return lv_get(o, k)
        if isinstance(o, str):
            if isinstance(k, SliceV):
                return o[slice(k.start, k.stop, k.step)]
            return o[k]
        if isinstance(o, RangeV):
            if isinstance(k, int) and o.concrete():
                return o.items()[k]
            n = o.size()
            return o.get(norm_index(k, n))
        if isinstance(o, TypeV) or isinstance(o, ModV) or o is BUILTINS.get("__typing__"):
            return o
        if o is None or isnum(o):
            if isinstance(o, (T, NT)) or o is None or True:
                raise PyExc("TypeError", "not subscriptable")
        m = getattr(o, "getitem", None)
        if m:
            return m(k)
        raise Unsupported("subscript of %s" % type(o).__name__)

    def setitem(self, o, k, v):
        from . import npmod
        if isinstance(o, Arr):
            npmod.setitem(o, k, v)
        elif isinstance(o, DV):
            o.set(k, v)
        elif isinstance(o, LV):
            lv_set(o, k, v)
        else:
            if o is None or isinstance(o, tuple) or isnum(o):
                raise PyExc("TypeError", "item assignment")
            raise Unsupported("item assignment on %s" % type(o).__name__)

    # ---------------------------------------------------------- attributes
    def getattr(self, o, a):
        from . import npmod
        if isinstance(o, Obj):
            if CTX.journal is not None and o.stamp <= CTX.journal.start:
                CTX.journal.events.append(("aread", o, a))
            if a in o.attrs:
                return o.attrs[a]
            c = o.cls.find(a)
            if c is not None:
                return self.bind(c, o)
            if a == "__class__":
                return o.cls
            if a == "__dict__":
                raise Unsupported("__dict__")
            raise PyExc("AttributeError", a)
        if isinstance(o, ModV):
            if a in o.attrs:
                return o.attrs[a]
            full = o.name + "." + a
            try:
                return self.resolve(full)
            except Unsupported:
                raise Unsupported("%s.%s" % (o.name, a))
        if isinstance(o, ClassV):
            c = o.find(a)
            if c is not None:
                if isinstance(c, tuple) and c and c[0] == "staticmethod":
                    return c[1]
                return c
            if a == "__name__":
                return o.name
            raise PyExc("AttributeError", a)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro()
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if a in c.attrs:
                    return self.bind(c.attrs[a], o.obj)
            if a == "__init__":
                return lambda *x, **k: None
            raise PyExc("AttributeError", a)
        if isinstance(o, Arr):
            return npmod.arr_attr(self, o, a)
        if isinstance(o, LV):
            return lv_attr(self, o, a)
        if isinstance(o, DV):
            return dv_attr(self, o, a)
        if isinstance(o, (str, SymStr)):
            return str_attr(self, o, a)
        if isnum(o):
            return npmod.num_attr(self, o, a)
        if isinstance(o, tuple):
            if a == "index":
                return lambda x: o.index(x)
            if a == "count":
                return lambda x: o.count(x)
        if isinstance(o, FuncV):
            if a == "__name__":
                return o.name
        if isinstance(o, PyExc):
            if a == "args":
                return (o.msg,)
        g = getattr(o, "pyattr", None)
        if g is not None:
            return g(self, a)
        if o is None:
            raise PyExc("AttributeError", "None." + a)
        if isinstance(o, TypeV):
            g = getattr(o, "attrs", {})
            if a in g:
                return g[a]
            if a == "__name__":
                return o.name
        if a == "__class__":
            return BUILTINS["type"](o)
        raise Unsupported("attribute %s of %s" % (a, type(o).__name__))

    def bind(self, c, o):
        if isinstance(c, tuple) and len(c) == 2 and c[0] in ("staticmethod", "property", "classmethod"):
            if c[0] == "staticmethod":
                return c[1]
            if c[0] == "property":
                return self.call(c[1], [o], {})
            return BoundM(c[1], o.cls)
        if isinstance(c, FuncV):
            return BoundM(c, o)
        return c

    def setattr(self, o, a, v):
        if isinstance(o, Obj):
            o.set(a, v)
            return
        if isinstance(o, ClassV):
            o.attrs[a] = v
            return
        s = getattr(o, "pysetattr", None)
        if s:
            s(a, v)
            return
        raise Unsupported("attribute assignment on %s" % type(o).__name__)

    # ---------------------------------------------------------- calls
    def ev_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = env
            while f is not None and f.fn is None:
                f = f.parent
            fn = f.fn
            return SuperV(fn.cls, f.vars[fn.node.args.args[0].arg])
        fn = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iter_concrete(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for a, b in d.pairs:
                    kw[a] = b
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        if isinstance(fn, BoundM):
            return self.call_func(fn.f, [fn.self_] + list(args), kw)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw)
        if isinstance(fn, ClassV):
            o = Obj(fn)
            init = fn.find("__init__")
            if init is not None:
                self.call_func(init, [o] + list(args), kw)
            elif args or kw:
                raise PyExc("TypeError", "takes no arguments")
            return o
        if isinstance(fn, Obj):
            c = fn.cls.find("__call__")
            if c is not None:
                return self.call_func(c, [fn] + list(args), kw)
            raise PyExc("TypeError", "object not callable")
        if callable(fn) and not isinstance(fn, type):
            try:
                return fn(*args, **kw)
            except TypeError as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                if len(tb) == 1:
                    # the signature of the native model did not accept the call
                    raise Unsupported("call of native %s: %s" % (getattr(fn, "__name__", "?"), e))
                raise
        if fn is None or isnum(fn) or isinstance(fn, (str, tuple, LV, DV, Arr)):
            raise PyExc("TypeError", "not callable")
        raise Unsupported("call of %r" % (fn,))

    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in vals:
                    raise PyExc("TypeError", "multiple values for argument %s" % k)
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DV(list(extra.items()))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(n, d)
        for x, d, nd_ in zip(konly, f.kwdefaults, a.kw_defaults):
            if nd_ is not None:
                vals.setdefault(x, d)
        for n in names + konly:
            if n not in vals:
                raise PyExc("TypeError", "%s() missing argument '%s'" % (f.name, n))
        return vals

    def call_func(self, f, args, kw, nocontract=False):
        if not isinstance(f, FuncV):
            return self.call(f, args, kw)
        vals = self.bindargs(f, args, kw)
        c = self.contracts.get(f.qual)
        if c is not None and not nocontract:
            return c.apply(self, f, vals)
        self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
        env = Env(f.env, f.module, f)
        env.vars.update(vals)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("recursion depth")
        try:
            self.block(f.node.body, env)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ---------------------------------------------------------- comprehensions
    def ev_ListComp(self, e, env):
        return self.comp(e, env)

    def ev_SetComp(self, e, env):
        return self.comp(e, env)

    def ev_GeneratorExp(self, e, env):
        lv = self.comp(e, env)
        return lv

    def comp(self, e, env):
        return self.comp_gen(e.elt, e.generators, Env(env, env.globals))

    def comp_gen(self, elt, gens, env):
        g = gens[0]
        k, x = self.iterable(self.ev(g.iter, env))
        if k == "c":
            out = []
            symb = False
            for v in x:
                self.assign(g.target, v, env)
                if all(self.truth(self.ev(c, env)) for c in g.ifs):
                    if len(gens) == 1:
                        out.append(self.ev(elt, env))
                    else:
                        r = self.comp_gen(elt, gens[1:], env)
                        if r.concrete:
                            out += r.items
                        else:
                            if len(x) == 1:
                                return r
                            symb = True
                            out.append(r)
            if symb:
                raise Unsupported("nested symbolic comprehension")
            return LV(out)
        if len(gens) > 1:
            raise Unsupported("nested symbolic comprehension")
        from . import loops
        return loops.sym_comp(self, elt, g, env, *x)

    def ev_DictComp(self, e, env):
        g = e.generators[0]
        env = Env(env, env.globals)
        k, x = self.iterable(self.ev(g.iter, env))
        d = DV()
        if k != "c" or len(e.generators) != 1:
            raise Unsupported("symbolic dict comprehension")
        for v in x:
            self.assign(g.target, v, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                kk = self.ev(e.key, env)
                d.set(kk, self.ev(e.value, env))
        return d

    def ev_Starred(self, e, env):
        raise Unsupported("starred")


class Iter:
    """result of zip/enumerate/reversed/map..."""

    def __init__(self, kind, data):
        self.kind = kind
        self.data = data


class DVKeys:
    def __init__(self, d):
        self.d = d


# -------------------------------------------------------------------- lists
def lv_touch(v):
    if CTX.journal is not None and v.stamp <= CTX.journal.start:
        CTX.journal.events.append(("lread", v))


def lv_view(v):
    """(size, get) of any list"""
    lv_touch(v)
    if v.concrete:
        its = list(v.items)
        return len(its), lambda i: pick(its, i)
    if v.dim.kind != "p":
        d, m = V_toplain(v.dim)
        g = v.get
        return d.n, lambda i: g(m(i))
    return v.dim.n, v.get


def V_toplain(dim):
    from . import npmod
    return npmod.toplain(dim)


def pick(its, i):
    i = simp(i) if isinstance(i, T) else i
    if isinstance(i, int):
        return its[i]
    if not its:
        raise Unsupported("symbolic index into an empty list")
    r = its[-1]
    for k in range(len(its) - 2, -1, -1):
        r = itev(tm.eq(i, k), its[k], r)
    return r


def sel_ite(c, fa, fb):
    c = tm.boolt(c)
    if c is TRUE:
        return fa()
    if c is FALSE:
        return fb()
    return itev(c, fa(), fb())


def norm_index(k, n):
    """bounds-check and normalise an index (int or T) against size n"""
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, Fraction) or isinstance(k, T) and k.sort == "R":
        raise PyExc("IndexError", "only integers are valid indices")
    if isinstance(k, NT):
        raise Unsupported("NaN index")
    if not isinstance(k, (int, T)):
        raise PyExc("TypeError", "indices must be integers")
    if isinstance(k, int) and isinstance(n, int):
        if -n <= k < n:
            return k if k >= 0 else k + n
        raise PyExc("IndexError", "index out of range")
    if isinstance(k, int) and k < 0:
        if CTX.decide(tm.ge(tm.add(n, k), 0)):
            return simp(tm.add(n, k))
        raise PyExc("IndexError", "index out of range")
    if CTX.decide(tm.ge(k, 0)):
        if CTX.decide(tm.lt(k, n)):
            return k
        raise PyExc("IndexError", "index out of range")
    if CTX.decide(tm.ge(tm.add(k, n), 0)):
        return simp(tm.add(k, n))
    raise PyExc("IndexError", "index out of range")


def slice_bounds(k, n):
    """(start, size, step) for a slice over size n; step in {1,-1} or concrete"""
    def clampi(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, NT) or isinstance(x, Fraction):
            raise PyExc("TypeError", "slice indices must be integers")
        if isinstance(x, int) and isinstance(n, int):
            return max(0, min(n, x + n if x < 0 else x))
        y = x
        if isinstance(x, int):
            y = tm.add(n, x) if x < 0 else I(x)
        elif not CTX.prove(tm.ge(x, 0)):
            y = tm.ite(tm.lt(x, 0), tm.add(x, n), x)
        if not CTX.prove(tm.ge(y, 0)):
            y = tm.max_(y, 0)
        if not CTX.prove(tm.le(y, n)):
            y = tm.min_(y, n)
        return simp(y)
    step = 1 if k.step is None else k.step
    if step == 1:
        a = clampi(k.start, 0)
        b = clampi(k.stop, n)
        if isinstance(a, int) and isinstance(b, int):
            return a, max(0, b - a), 1
        sz = simp(tm.sub(b, a))
        if not (isinstance(sz, int) and sz >= 0) and not CTX.prove(tm.ge(sz, 0)):
            sz = simp(tm.max_(sz, 0))
        return a, sz, 1
    if step == -1 and k.start is None and k.stop is None:
        return simp(tm.sub(n, 1)), n, -1
    if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
        r = range(*slice(k.start, k.stop, step).indices(n))
        return r.start, len(r), step
    if k.start is None and k.stop is None and isinstance(step, int) and step > 1:
        return 0, simp(tm.idiv(tm.add(n, step - 1), step)), step
    raise Unsupported("slice with a symbolic step")


def lv_get(o, k):
    if isinstance(k, T):
        k = simp(k)
    if isinstance(k, tuple):
        raise PyExc("TypeError", "list indices must be integers or slices, not tuple")
    if isinstance(k, SliceV):
        if o.concrete and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            lv_touch(o)
            return LV(o.items[slice(k.start, k.stop, k.step)])
        n, g = lv_view(o)
        a, sz, st = slice_bounds(k, n)
        return LV(dim=plain(sz), get=lambda i: g(simp(tm.add(a, tm.mul(i, st)))))
    n, g = lv_view(o)
    return g(norm_index(k, n))


def lv_set(o, k, v):
    if CTX.journal is not None and o.stamp <= CTX.journal.start:
        raise Unsupported("list item assignment in a symbolic loop")
    if isinstance(k, T):
        k = simp(k)
    if isinstance(k, SliceV):
        if o.concrete:
            o.items[slice(k.start, k.stop, k.step)] = list(v.items)
            return
        raise Unsupported("slice assignment on a list")
    if o.concrete and isinstance(k, int):
        if not -len(o.items) <= k < len(o.items):
            raise PyExc("IndexError", "list assignment index out of range")
        o.items[k] = v
        return
    n, g = lv_view(o)
    kk = norm_index(k, n)
    o.dim, o.items = plain(n), None
    if o.concrete:
        pass
    o.get = lambda i: sel_ite(tm.eq(i, kk), lambda: v, lambda: g(i))


def lv_attr(interp, o, a):
    if a == "append":
        return lambda v: o.append(v)
    if a == "extend":
        def extend(v):
            k, x = interp.iterable(v)
            if k == "c":
                for y in x:
                    o.append(y)
            else:
                if CTX.journal is not None and o.stamp <= CTX.journal.start:
                    raise Unsupported("extend in a symbolic loop")
                c = interp.lv_concat(o, LV(dim=x[0], get=x[1]))
                o.items, o.dim, o.get = None, c.dim, c.get
        return extend
    if a == "reverse":
        def rev():
            lv_touch(o)
            if CTX.journal is not None and o.stamp <= CTX.journal.start:
                raise Unsupported("reverse in a symbolic loop")
            if o.concrete:
                o.items.reverse()
            else:
                n, g = lv_view(o)
                o.dim, o.get = plain(n), (lambda i: g(simp(tm.sub(tm.sub(n, 1), i))))
        return rev
    if a == "insert":
        def insert(i, v):
            lv_touch(o)
            if CTX.journal is not None and o.stamp <= CTX.journal.start:
                raise Unsupported("insert in a symbolic loop")
            if o.concrete:
                o.items.insert(i, v)
            else:
                if i != 0:
                    raise Unsupported("insert in a symbolic list")
                n, g = lv_view(o)
                o.dim, o.get = plain(simp(tm.add(n, 1))), (lambda j: sel_ite(tm.eq(j, 0), lambda: v, lambda: g(simp(tm.sub(j, 1)))))
        return insert
    if a == "pop":
        def pop(i=-1):
            lv_touch(o)
            if CTX.journal is not None and o.stamp <= CTX.journal.start:
                raise Unsupported("pop in a symbolic loop")
            if not o.items:
                raise PyExc("IndexError", "pop from empty list")
            return o.items.pop(i)
        return pop
    if a == "copy":
        return lambda: LV(list(o.items)) if o.concrete else LV(dim=o.dim, get=o.get)
    if a == "index":
        def index(x):
            for i, y in enumerate(o.items):
                if interp.truth(interp.compare("Eq", y, x)):
                    return i
            raise PyExc("ValueError", "not in list")
        return index
    if a == "count":
        return lambda x: simp(tm.Sum(len(o.items), lambda i: 0)) if not o.items else sum(1 for y in o.items if interp.truth(interp.compare("Eq", y, x)))
    if a == "sort":
        def sort(key=None, reverse=False):
            o.items = BUILTINS["sorted"](o, key=key, reverse=reverse).items
        return sort
    if a == "add":      # sets
        def add(v):
            if not interp.truth(interp.contains(o, v)):
                o.append(v)
        return add
    if a == "remove":
        def remove(x):
            for i, y in enumerate(o.items):
                if interp.truth(interp.compare("Eq", y, x)):
                    del o.items[i]
                    return
            raise PyExc("ValueError", "not in list")
        return remove
    if a in ("shape", "dtype", "ndim", "size", "astype", "keys"):
        raise PyExc("AttributeError", "list." + a)
    raise Unsupported("list method %s" % a)


def dv_attr(interp, o, a):
    if a == "keys":
        return lambda: LV([p[0] for p in o.pairs]) if not o.fams else DVKeys(o)
    if a == "values":
        return lambda: LV([p[1] for p in o.pairs])
    if a == "items":
        return lambda: LV([tuple(p) for p in o.pairs])
    if a == "get":
        def get(k, d=None):
            p = o.find(k)
            return d if p is None else p[1]
        return get
    if a == "update":
        def update(x=None, **kw):
            if x is not None:
                for k, v in x.pairs:
                    o.set(k, v)
            for k, v in kw.items():
                o.set(k, v)
        return update
    if a == "copy":
        return lambda: DV(o.pairs)
    if a == "pop":
        def pop(k, *d):
            p = o.find(k)
            if p is None:
                if d:
                    return d[0]
                raise PyExc("KeyError", str(k))
            o.pairs = [q for q in o.pairs if q is not p]
            return p[1]
        return pop
    if a == "setdefault":
        def sd(k, d=None):
            p = o.find(k)
            if p is None:
                o.set(k, d)
                return d
            return p[1]
        return sd
    if a == "clear":
        def clear():
            o.pairs = []
            o.fams = []
        return clear
    raise Unsupported("dict method %s" % a)


def fmtparts(x, spec):
    """pieces of a formatted value"""
    if isinstance(x, str):
        if spec in ("s", "%s"):
            return [x]
        return [spec % x if spec.startswith("%") else spec.format(x)]
    if isinstance(x, V.StrIte):
        raise Unsupported("formatting one of two strings")
    if isinstance(x, SymStr):
        if spec in ("s", "%s"):
            return list(x.parts)
        raise Unsupported("formatting a symbolic string")
    if isinstance(x, Fraction) or isinstance(x, int):
        y = float(x) if isinstance(x, Fraction) else x
        if spec == "s" or spec == "%s":
            return [str(y)]
        return [spec % y if spec.startswith("%") else spec.format(y)]
    if isinstance(x, T) and x.sort == "I" and spec in ("s", "%s", "%d", "{:d}", "%i"):
        return [x]
    if isinstance(x, T):
        return [(spec, x)]
    if isinstance(x, NT):
        return [(spec, x.val, x.nan)]
    if x is None:
        return ["None"]
    return [("obj", id(type(x)))]


def str_attr(interp, o, a):
    if isinstance(o, str):
        if a == "format":
            def fmt(*args, **kw):
                import string
                parts = []
                auto = 0
                for lit, name, spec, conv in string.Formatter().parse(o):
                    parts.append(lit)
                    if name is None:
                        continue
                    if name == "":
                        v = args[auto]
                        auto += 1
                    elif name.isdigit():
                        v = args[int(name)]
                    elif name in kw:
                        v = kw[name]
                    else:
                        raise Unsupported("format field %s" % name)
                    parts += fmtparts(v, "{:%s}" % spec if spec else "s")
                return mkstr(parts)
            return fmt
        if a == "join":
            def join(l):
                out = []
                for i, x in enumerate(interp.iter_concrete(l)):
                    if i:
                        out.append(o)
                    out += [x] if isinstance(x, str) else list(x.parts)
                return mkstr(out)
            return join
        m = getattr(o, a, None)
        if m is None:
            raise PyExc("AttributeError", "str." + a)

        def call(*args, **kw):
            r = m(*[x for x in args], **kw)
            if isinstance(r, list):
                return LV(r)
            return r
        return call
    if a in ("lower", "upper", "strip"):
        return lambda: mkstr([getattr(p, a)() if isinstance(p, str) and a != "strip" else p for p in o.parts])
    raise Unsupported("method %s of a symbolic string" % a)


def solve_eq(c, v):
    """c: T; find a conjunct determining v; returns term or None"""
    cs = c.args if c.op == "and" else (c,)
    for x in cs:
        if x.op == "eq0":
            p = x.args[0]
            d = tm._polyd(p)
            k = d.get((v,))
            if k in (1, -1) and not any(v in tm.free_idx(f) for m in d if m != (v,) for f in m):
                rest = tm._frompoly({m: q for m, q in d.items() if m != (v,)}, p.sort)
                return tm.neg(rest) if k == 1 else rest
            r = solve_sel(d, v)
            if r is not None:
                return r
    return None


def solve_sel(d, v):
    """u = the v-th selected index  =>  v = number of selected indices below u"""
    at = [m for m in d if len(m) == 1 and m[0].op == "atom" and m[0].args[0].kind == "sel" and v in tm.free_idx(m[0])]
    if len(at) != 1 or d[at[0]] not in (1, -1):
        return None
    t = at[0][0]
    dd, ps = t.args
    s, mk, b, e = dd.inst(ps)
    rest = tm._frompoly({m: q for m, q in d.items() if m != at[0]}, t.sort)
    u = tm.neg(rest) if d[at[0]] == 1 else rest
    if e[0] is not v or v in tm.free_idx(u) or any(v in tm.free_idx(x) for x in s) or v in tm.free_idx(dd.inst(ps, [tm.num(0)])[1]):
        return None
    return tm.Count(u, lambda i: dd.inst(ps, [i])[1])
