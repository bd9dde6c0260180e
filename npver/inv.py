"""Loops with user-supplied invariants (contracts/inv.py): the invariant holds on
entry, is preserved by one iteration from an arbitrary state that satisfies it,
and is all that is known of the variables of the loop afterwards."""
import ast
from . import terms as tm
from .terms import T, TRUE
from .values import *
from . import interp as ip
from . import loops


class LoopSpec:
    def __init__(self, name, index, variables, attrs):
        self.name = name
        self.index = index
        self.roles = [r.split(":") for r in variables]      # name, type; + marks a variable the loop does not write
        self.attrs = attrs
        self.fn = {k: attrs[name + "_" + k] for k in ("start", "state", "holds", "step")}


def loop_index(fn, s):
    """position of loop s among the loops of the function (in source order)"""
    ls = [n for n in ast.walk(fn.node) if isinstance(n, (ast.While, ast.For))]
    ls.sort(key=lambda n: (n.lineno, n.col_offset))
    return next((i for i, n in enumerate(ls) if n is s), None)


TYPES = {"any": lambda x: True, "int": lambda x: isinstance(x, (int, T)) and not isinstance(x, bool), "list": lambda x: isinstance(x, LV), "array": lambda x: isinstance(x, Arr)}


def modified(body):
    """names the loop assigns, or calls a method of that may change them"""
    out = loops.assigned_names(body)
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                out.append(n.func.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.append(n.value.id)
    return out


def rolemap(spec, s, env):
    """which local plays which role: by name, or the only one of its type"""
    mod = modified(s.body)
    if isinstance(s, ast.For):
        mod = mod + [counter_name(s)]
    out = {}
    for name, typ in spec.roles:
        const = typ.endswith("+")
        ok = TYPES[typ.rstrip("+")]
        if name in env.vars and ok(env.vars[name]) and (name in mod) != const:
            out[name] = name
            continue
        c = [k for k, x in env.vars.items() if ok(x) and (k in mod) != const and k not in out.values()]
        if len(c) != 1:
            raise Unsupported("the invariant of loop %d is about a variable %s, which there is not" % (spec.index, name))
        out[name] = c[0]
    return out


def ns(env, roles={}):
    o = ip.Obj(ip.ClassV("locals", [], {}, None))
    e = env
    while e is not None:
        for k, x in e.vars.items():
            if k not in o.attrs and not isinstance(x, ip.Poison) and type(x).__name__ != "Lazy":
                o.attrs[k] = x
        e = e.parent
    for r, k in roles.items():
        if k in env.vars and not isinstance(env.vars[k], ip.Poison):
            o.attrs[r] = env.vars[k]
    return o


def heap(roots):
    """everything reachable, with what it holds"""
    out = {}
    st = list(roots)
    while st:
        x = st.pop()
        if id(x) in out:
            continue
        if isinstance(x, ip.Obj):
            c = dict(x.attrs)
            st += list(c.values())
        elif isinstance(x, Arr):
            c = {0: x.buf.elem}
        elif isinstance(x, LV):
            c = dict(enumerate(x.items)) if x.concrete else {0: x.get, 1: x.dim}
            st += x.items or []
        elif isinstance(x, DV):
            c = {i: tuple(p) for i, p in enumerate(x.pairs)}
            st += [y for p in x.pairs for y in p]
        elif isinstance(x, tuple):
            c = {}
            st += list(x)
        else:
            continue
        out[id(x)] = (x, c)
    return out


def same(a, b):
    return a is b or (isinstance(a, (int, T, str)) and type(a) == type(b) and a == b) or (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)))


def unchanged(before):
    for x, c in before.values():
        now = heap([x])[id(x)][1]
        if set(now) != set(c) or not all(same(c[k], now[k]) for k in c):
            raise Unsupported("a loop with an invariant writes to %s, which is not among its variables" % type(x).__name__)


def counter_name(s):
    """the variable that counts the iterations of a for loop"""
    if isinstance(s.target, ast.Name) and is_call(s.iter, "range"):
        return s.target.id
    if isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and all(isinstance(x, ast.Name) for x in s.target.elts) and is_call(s.iter, "enumerate") and len(s.iter.args) == 1:
        return s.target.elts[0].id
    raise Unsupported("invariant of a loop over something else than a range or an enumeration")


def is_call(c, f):
    return isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == f and not c.keywords


class Range:
    """a counter and, for an enumeration, the element"""
    def __init__(self, interp, s, env):
        self.name = counter_name(s)
        self.step, self.elem = 1, None
        a = [interp.ev(x, env) for x in s.iter.args]
        if is_call(s.iter, "range"):
            if len(a) == 3:
                self.step = a[2]
            if self.step not in (1, -1):
                raise Unsupported("invariant of a range loop with this step")
            self.start, self.stop = (0, a[0]) if len(a) == 1 else a[:2]
        else:
            seq = a[0]
            if not isinstance(seq, LV):
                raise Unsupported("invariant of an enumeration of something else than a list")
            if seq.concrete:
                raise Unsupported("invariant of an enumeration of a list of fixed length")
            self.start, self.stop = 0, dsize(seq.dim)
            self.elem = s.target.elts[1].id, seq.get


def clauses(interp, spec, v, x, g):
    r = interp.call(spec.fn["holds"], [v, x, g], {})
    return [(it[0], v.cond(it[1])) for it in r.items]


def run(interp, spec, s, env):
    v = interp.scenario_v
    rng = None
    if isinstance(s, ast.For):
        rng = Range(interp, s, env)
        env.set(rng.name, rng.start)
    if s.orelse:
        raise Unsupported("invariant of a loop with an else part")
    roles = rolemap(spec, s, env)
    variables = [roles[n] for n, t in spec.roles if not t.endswith("+")]
    before = heap(x for k, x in env.vars.items() if k not in variables)
    # objects shared with a variable of the loop would change behind its back
    for n in variables:
        for i in heap([env.vars[n]]):
            if i in before and not isinstance(before[i][0], tuple):
                raise Unsupported("the variable %s of a loop with an invariant is shared" % n)
    x0 = ns(env, roles)
    g0 = interp.call(spec.fn["start"], [v, x0], {})
    for nm, c in clauses(interp, spec, v, x0, g0):
        oblige(v, "loop %s, on entry: %s" % (spec.name, nm), c)
    CTX.light = True
    new, g = interp.call(spec.fn["state"], [v, x0], {})
    if spec.name + "_entry" in spec.attrs:      # facts about what the loop does not write
        for it in interp.call(spec.attrs[spec.name + "_entry"], [v, x0], {}).items:
            oblige(v, "loop %s, on entry: %s" % (spec.name, it[0]), v.cond(it[1]))
    body = loops.assigned_names(s.body)
    for n in body:
        if n not in variables and n in env.vars and not (rng and n == rng.name):
            env.vars[n] = ip.Poison()
    for p in new.pairs:
        env.vars[roles[p[0]]] = p[1]        # those the loop does not write are abstracted: the clauses are all that is known of them
    x = ns(env, roles)
    for nm, c in clauses(interp, spec, v, x, g):
        CTX.assume(c)
    for n, t in spec.roles:        # as they are before the iteration
        y = x.attrs[n]
        if isinstance(y, LV):
            x.attrs[n] = LV(list(y.items) if y.concrete else None, y.dim, y.get)
        elif isinstance(y, Arr):
            from . import npmod
            x.attrs[n] = npmod.copyarr(y)
    if not isinstance(s, ast.For):
        go = interp.truth(interp.ev(s.test, env))
    else:
        h, e = tm.num(env.vars[rng.name]), tm.num(rng.stop)
        go = CTX.decide(tm.lt(h, e) if rng.step == 1 else tm.gt(h, e))
    if not go:
        v.ghosts[spec.name] = g
        for n in loops.assigned_names(s.body):
            if n not in variables:
                env.vars[n] = ip.Poison()
        if rng:     # one more than Python leaves in it
            env.vars[rng.name] = ip.Poison()
            if rng.elem:
                env.vars[rng.elem[0]] = ip.Poison()
        return
    head = env.vars[rng.name] if rng else None
    if rng and rng.elem:
        env.vars[rng.elem[0]] = rng.elem[1](head)
    try:
        interp.block(s.body, env)
    except ip.Cont:
        pass
    except ip.Brk:
        unchanged(before)
        v.ghosts[spec.name] = g
        return
    if rng:
        env.vars[rng.name] = simp(tm.add(head, rng.step))
    unchanged(before)
    y = ns(env, roles)
    h = interp.call(spec.fn["step"], [v, x, g, y], {})
    for nm, c in clauses(interp, spec, v, y, h):
        oblige(v, "loop %s, kept: %s" % (spec.name, nm), c)
    v.v_stop()


def oblige(v, name, c):
    from . import engine
    o = engine.mkob(name, c)
    o.pc = list(CTX.pc)
    v.obs.append(o)
