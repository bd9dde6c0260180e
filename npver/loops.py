"""Loops over symbolic ranges.

A loop body is executed once for an arbitrary index k; its effects are turned
into a closed form for the whole loop when every iteration is independent of
the others (maps, filters, stores into distinct cells) or accumulates (sums,
conjunctions).  Anything else is reported as unsupported."""
import ast
from . import terms as tm
from .terms import T, TRUE, FALSE, I, R
from .values import *
from . import values as V
from . import interp as ip


def assigned_names(stmts):
    out = {}

    class Vis(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out[n.name] = 1

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out[n.id] = 1

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    v = Vis()
    for s in stmts:
        v.visit(s)
    return list(out)


def mentions(t, names, seen=None):
    """does term t (including inside atom definitions) mention one of the
    variable/uf names?"""
    st = [t]
    seen = set()
    defs = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("v", "uf") and x.args[0] in names:
            return True
        if x.op == "atom" and x.args[0] not in defs:
            d = x.args[0]
            defs.add(d)
            st.extend(d.bodies)
            st.extend(d.extras)
            st.extend(d.sizes)
            st.append(d.mask)
        st.extend(tm.children(x))
    return False


def v_mentions(v, names):
    if isinstance(v, T):
        return mentions(v, names)
    if isinstance(v, NT):
        return mentions(tm.boolt(v.nan), names) or mentions(tm.num(v.val), names)
    if isinstance(v, tuple):
        return any(v_mentions(x, names) for x in v)
    if isinstance(v, Arr):
        fv = tuple(dimvars(d, "q") for d in v.shape)
        return v_mentions(v.at(fv), names) or any(d_mentions(d, names) for d in v.shape)
    if isinstance(v, LV):
        if v.concrete:
            return any(v_mentions(x, names) for x in v.items)
        return v_mentions(v.get(dimvars(v.dim, "q")), names)
    if isinstance(v, DV):
        return any(v_mentions(x, names) for p in v.pairs for x in p)
    return False


def d_mentions(d, names):
    if d.kind == "p":
        return isinstance(d.n, T) and mentions(d.n, names)
    if d.kind == "f":
        return mentions(d.key, names) or d_mentions(d.base, names)
    return d_mentions(d.d1, names) or d_mentions(d.d2, names)


class Path:
    __slots__ = ("cond", "kind", "exc", "j", "env", "bufs", "attrs", "dicts", "val")


def sub_explore(run, names, env, assume):
    """execute `run` for all paths; heap effects are rolled back and returned"""
    save = (CTX.prefix, CTX.taken, CTX.forks, CTX.forkconds, CTX.pc, CTX.journal, set(tm.NONZERO))
    base = list(CTX.pc)
    outer = CTX.journal
    paths = []
    work = [[]]
    reads = []
    try:
        while work:
            prefix = work.pop()
            CTX.prefix, CTX.taken, CTX.forks, CTX.forkconds = prefix, [], [], []
            CTX.pc = list(base)
            tm.NONZERO.clear()
            tm.NONZERO.update(save[6])
            CTX.journal = j = Journal()
            CTX.assume(assume)
            p = Path()
            p.exc = None
            oldvars = dict(env.vars)
            try:
                p.val = run()
                p.kind = "ok"
            except ip.Cont:
                p.kind = "ok"
            except PyExc as e:
                p.kind, p.exc = "exc", e
            except ip.Brk:
                p.kind = "brk"
            except ip.Ret:
                p.kind = "ret"
            except Infeasible:
                p.kind = "inf"
            work.extend(CTX.forks)
            if len(paths) > 60:
                raise Unsupported("too many paths in a loop body")
            p.cond = tm.and_(*CTX.forkconds)
            p.env = {n: env.vars.get(n) for n in names if n in env.vars}
            p.j = j
            p.bufs = {b: b.elem for b in j.bufs}
            # rollback
            for b, old in j.bufs.items():
                b.elem = old
            for d, old in j.dicts.items():
                d.pairs = old
            for ev in reversed(j.events):
                if ev[0] == "attr":
                    if ev[4]:
                        ev[1].attrs[ev[2]] = ev[3]
                    else:
                        ev[1].attrs.pop(ev[2], None)
            env.vars.clear()
            env.vars.update(oldvars)
            if p.kind != "inf":
                paths.append(p)
            if outer is not None:
                for ev in j.events:
                    if ev[0] in ("aread", "lread", "dread") and ev[1].stamp <= outer.start:
                        outer.events.append(ev)
    finally:
        CTX.prefix, CTX.taken, CTX.forks, CTX.forkconds, CTX.pc, CTX.journal = save[:6]
        tm.NONZERO.clear()
        tm.NONZERO.update(save[6])
    return paths


def merge(paths, vals):
    """ite over path conditions"""
    r = vals[-1]
    for p, v in list(zip(paths, vals))[-2::-1]:
        r = itev(p.cond, v, r)
    return r


def last_index(dim):
    if dim.kind == "p":
        return simp(tm.sub(dim.n, 1))
    raise Unsupported("value after a loop over a filtered range")


def carry_value(v, n):
    """fresh symbolic stand-in for the loop-carried value v; (value, names)"""
    if isinstance(v, bool):
        t = tm.fresh("cb_" + n, "B")
        return t, {t.args[0]}
    if isinstance(v, T) and v.sort == "B":
        t = tm.fresh("cb_" + n, "B")
        return t, {t.args[0]}
    if isnum(v) and not isinstance(v, NT):
        t = tm.fresh("c_" + n, tm.num(v).sort)
        return t, {t.args[0]}
    if isinstance(v, Arr):
        nm = tm.fresh("ca_" + n, "I").args[0]
        srt = {"b": "B", "i": "I"}.get(v.dtype, "R")
        return mkarr(v.shape, lambda ix: tm.uf(nm, [tm.num(x) for x in flatvars(tuple(ix))], srt), v.dtype), {nm}
    return ip.Poison(), set()


def sym_for(interp, s, env, dim, get):
    names = assigned_names(s.body)
    tnames = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))])

    def body(i):
        interp.assign(s.target, get(i), env)
        interp.block(s.body, env)
    family(interp, dim, body, list(dict.fromkeys(tnames + names)), env, set(tnames))
    if s.orelse:
        interp.block(s.orelse, env)


def sym_comp(interp, elt, g, env, dim, get):
    res = LV([])

    def body(i):
        interp.assign(g.target, get(i), env)
        for c in g.ifs:
            if not interp.truth(interp.ev(c, env)):
                return
        res.append(interp.ev(elt, env))
    tn = assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(value=0))])
    family(interp, dim, body, tn, env, set(tn))
    return res


def family(interp, dim, body, names, env, fresh_names):
    pre = {n: env.vars[n] for n in names if n in env.vars}
    k = dimvars(dim, "k")
    rng = inr(dim, k)

    # carried candidates
    carry = {}
    cnames = {}
    for n in names:
        if n in pre and n not in fresh_names:
            v, nm = carry_value(pre[n], n)
            carry[n] = v
            cnames[n] = nm
    allc = set().union(*cnames.values()) if cnames else set()

    def run():
        for n, v in carry.items():
            env.vars[n] = v
        for n in fresh_names:
            env.vars.pop(n, None)
        body(k)

    paths = sub_explore(run, names, env, rng)
    written = {}
    for p in paths:
        for b in p.bufs:
            written[b] = 1
    bcarry = {}
    if written:
        # second pass with the written buffers replaced by symbolic contents
        saved = {b: b.elem for b in written}
        for b in written:
            nm = tm.fresh("cw", "I").args[0]
            srt = {"b": "B", "i": "I"}.get(b.dtype, "R")
            bcarry[b] = (nm, srt)
            b.elem = (lambda nm, srt: lambda ix: tm.uf(nm, [tm.num(x) for x in flatvars(tuple(ix))], srt))(nm, srt)
        try:
            paths = sub_explore(run, names, env, rng)
        finally:
            for b, e in saved.items():
                b.elem = e
    for b in {b: 1 for p in paths for b in p.bufs}:
        if b not in bcarry:
            raise Unsupported("unstable loop effects")
    allw = {nm for nm, _ in bcarry.values()}

    # -- exceptions ---------------------------------------------------------
    def bindk(t, i):
        m = {}
        V._bind((k,), (i,), m)
        return tm.subst(t, m)

    exc = [p for p in paths if p.kind == "exc"]
    stop = [p for p in paths if p.kind in ("brk", "ret")]
    ok = [p for p in paths if p.kind == "ok"]
    for p in paths:
        if mentions(p.cond, allw) or (p.kind != "ok" and mentions(p.cond, allc)):
            raise Unsupported("loop-carried condition")
    if exc:
        c = tm.or_(*[p.cond for p in exc])
        if stop:
            cs = tm.or_(*[p.cond for p in stop])
        if CTX.decide(dany(dim, lambda i: bindk(c, i))):
            if stop:
                raise Unsupported("loop with both break and exceptions")
            raise exc[0].exc
    if stop:
        c = tm.or_(*[p.cond for p in stop])
        if CTX.decide(dany(dim, lambda i: bindk(c, i))):
            if dim.kind != "p":
                raise Unsupported("break in a filtered loop")
            v = tm.fresh("i", "I", True)
            kk = tm.mk_atom("first", "I", [v], [tm.num(dim.n)], bindk(c, v), [])
            CTX.assume(tm.and_(tm.ge(kk, 0), tm.lt(kk, dim.n), bindk(c, kk),
                               tm.All(kk, lambda i: tm.not_(bindk(c, i)))))
            family_effects(interp, plain(simp(kk)), k, ok, names, env, pre, carry, cnames, bcarry, fresh_names)
            # the stopping iteration is executed for real
            try:
                body(kk)
            except ip.Brk:
                return
            except ip.Cont:
                pass
            raise Unsupported("break path did not break")
    family_effects(interp, dim, k, ok, names, env, pre, carry, cnames, bcarry, fresh_names)


class Lazy:
    def __init__(self, fn):
        self.fn = fn


def family_effects(interp, dim, k, ok, names, env, pre, carry, cnames, bcarry, fresh_names):
    allc = set().union(*cnames.values()) if cnames else set()
    allw = {nm for nm, _ in bcarry.values()}
    if not ok:
        # every iteration leaves the loop abnormally: the range is empty here
        return

    def bind(i):
        m = {}
        V._bind((k,), (i,), m)
        return m

    # -- event checks ------------------------------------------------------
    appended = {}
    dsets = {}
    asets = {}
    for p in ok:
        order = {}
        for n, ev in enumerate(p.j.events):
            if ev[0] == "append":
                appended.setdefault(ev[1], {}).setdefault(p, []).append(ev[2])
            elif ev[0] == "dict":
                dsets.setdefault(ev[1], {}).setdefault(p, []).append((ev[2], ev[3]))
            elif ev[0] == "attr":
                asets.setdefault((ev[1], ev[2]), {}).setdefault(p, []).append(ev[5])
    for p in ok:
        wrote_a = set()
        wrote_d = {}
        for ev in p.j.events:
            if ev[0] == "aread" and (ev[1], ev[2]) in asets and (ev[1], ev[2]) not in wrote_a:
                raise Unsupported("loop-carried attribute %s" % ev[2])
            if ev[0] == "attr":
                wrote_a.add((ev[1], ev[2]))
            if ev[0] == "lread" and ev[1] in appended:
                raise Unsupported("list read while being built in a loop")
            if ev[0] == "dread" and ev[1] in dsets:
                if not any(_samekey(x, ev[2]) for x in wrote_d.get(ev[1], [])):
                    raise Unsupported("dictionary read while being built in a loop")
            if ev[0] == "dict":
                wrote_d.setdefault(ev[1], []).append(ev[2])

    # -- lists ---------------------------------------------------------------
    for lv, per in appended.items():
        counts = {p: len(per.get(p, [])) for p in ok}
        mx = max(counts.values())
        for p in ok:
            for v in per.get(p, []):
                if v_mentions(v, allc | allw):
                    raise Unsupported("appended value depends on earlier iterations")
            if mentions(p.cond, allc):
                raise Unsupported("loop-carried condition")
        if mx == 1:
            sel = [p for p in ok if counts[p] == 1]
            val = merge(sel, [per[p][0] for p in sel])
            if len(sel) == len(ok):
                d2 = dim
            else:
                c = tm.or_(*[p.cond for p in sel])
                d2 = filt(dim, lambda i: tm.subst(c, bind(i)))
            fam = LV(dim=d2, get=lambda i, val=val: subst_value(val, bind(i)))
        elif all(c == mx for c in counts.values()):
            vals = [merge(ok, [per[p][j] for p in ok]) for j in range(mx)]
            fam = LV(dim=prod(dim, plain(mx)), get=lambda ij, vals=vals: subst_value(ip.pick(vals, ij[1]), bind(ij[0])))
        else:
            raise Unsupported("varying number of appends")
        if lv.concrete and not lv.items:
            if CTX.journal is not None and lv.stamp <= CTX.journal.start:
                raise Unsupported("nested loop building an outer list")
            lv.items, lv.dim, lv.get = None, fam.dim, fam.get
        else:
            if CTX.journal is not None and lv.stamp <= CTX.journal.start:
                raise Unsupported("nested loop building an outer list")
            c = interp.lv_concat(lv, fam)
            lv.items, lv.dim, lv.get = None, c.dim, c.get

    # -- variables -----------------------------------------------------------
    newv = {}
    for n in names:
        if n in fresh_names:
            continue
        vals = [p.env.get(n, pre.get(n)) for p in ok]
        if n not in pre and any(n not in p.env for p in ok):
            newv[n] = ip.Poison()
            continue
        if n in pre:
            vals = [p.env[n] if n in p.env else carry[n] for p in ok]
            if all(v is carry[n] for v in vals):
                newv[n] = pre[n]
                continue
        try:
            M = merge(ok, vals)
        except Unsupported:
            newv[n] = ip.Poison()
            continue
        others = (allc - cnames.get(n, set())) | allw
        if n in pre and v_mentions(M, cnames[n]):
            if v_mentions(M, others):
                newv[n] = ip.Poison()
                continue
            newv[n] = accumulate(dim, k, M, carry[n], pre[n], cnames[n], bind)
        elif v_mentions(M, others):
            newv[n] = ip.Poison()
        else:
            newv[n] = Lazy(lambda M=M, n=n: last_value(dim, M, bind, pre.get(n)))
    # -- buffers -------------------------------------------------------------
    stable = {nm: stable_reads(dim, k, ok, b, b.elem) for b, (nm, srt) in bcarry.items()}
    for b, (nm, srt) in bcarry.items():
        buffer_effect(dim, k, ok, b, nm, srt, bind, allc | (allw - {nm}), stable)
    # -- dictionaries --------------------------------------------------------
    for d, per in dsets.items():
        nk = {len(v) for v in per.values()}
        if len(per) != len(ok):
            raise Unsupported("conditional dictionary store in a loop")
        ps = list(per)
        keys = [kk for kk, _ in per[ps[0]]]
        for idx, key in enumerate(dict.fromkeys([_hk(x) for x in keys])):
            kk = next(x for x in keys if _hk(x) == key)
            vals = []
            for p in ps:
                vs = [v for q, v in per[p] if _hk(q) == key]
                if not vs:
                    raise Unsupported("conditional dictionary store in a loop")
                vals.append(vs[-1])
            val = merge(ps, vals) if len(ps) > 1 else vals[0]
            if v_mentions(val, allc | allw):
                raise Unsupported("dictionary value depends on earlier iterations")
            ks = {x.args[0] for x in flatvars((k,))}
            if isinstance(kk, SymStr) and any(isinstance(x, T) and mentions(x, ks) for x in kk.parts):
                if CTX.journal is not None and d.stamp <= CTX.journal.start:
                    raise Unsupported("nested dictionary family")
                d.fams.append((dim, lambda i, kk=kk: subst_value(kk, bind(i)), lambda i, val=val: subst_value(val, bind(i))))
            else:
                if CTX.decide(tm.gt(dsize(dim), 0)):
                    d.set(kk, subst_value(val, bind(last_index(dim))))
    # -- attributes ----------------------------------------------------------
    for (o, a), per in asets.items():
        if len(per) != len(ok):
            raise Unsupported("conditional attribute store in a loop")
        vals = [per[p][-1] for p in ok]
        val = merge(ok, vals)
        if v_mentions(val, allc | allw):
            raise Unsupported("attribute depends on earlier iterations")
        if CTX.decide(tm.gt(dsize(dim), 0)):
            o.set(a, subst_value(val, bind(last_index(dim))))
    for n, v in newv.items():
        env.vars[n] = v
    for n in fresh_names:
        env.vars.pop(n, None)
        env.vars[n] = ip.Poison()


def _hk(x):
    return x.parts if isinstance(x, SymStr) else x


def _samekey(a, b):
    return _hk(a) == _hk(b)


def last_value(dim, M, bind, pre):
    if CTX.decide(tm.gt(dsize(dim), 0)):
        return subst_value(M, bind(last_index(dim)))
    if pre is None:
        raise PyExc("NameError", "variable of an empty loop")
    return pre


def accumulate(dim, k, M, c, c0, names, bind):
    if isinstance(M, Arr) and isinstance(c, Arr):
        fv = tuple(dimvars(d, "q") for d in M.shape)
        e = s_sub(M.at(fv), c.at(fv))
        if v_mentions(e, names) or isinstance(e, NT):
            raise Unsupported("loop-carried array")
        g0 = c0.snap()

        def elem(ix):
            m0 = {}
            V._bind(fv, ix, m0)
            return simp(tm.add(g0(ix), dsum(dim, lambda i: tm.subst(tm.num(e), {**m0, **bind(i)}))))
        if M.ndim != c0.ndim or not all(samedim(x, y) for x, y in zip(M.shape, c0.shape)):
            raise Unsupported("loop-carried array of changing shape")
        return mkarr(M.shape, elem, "f" if M.dtype == "f" or c0.dtype == "f" else M.dtype)
    if isinstance(M, T) and M.sort == "B" and isinstance(c, T) and c.sort == "B":
        parts = M.args if M.op == "and" else (M,)
        if c in parts:
            rest = tm.and_(*[p for p in parts if p is not c])
            if not mentions(rest, names):
                return simp(tm.and_(tm.boolt(c0), dall(dim, lambda i: tm.subst(rest, bind(i)))))
        parts = M.args if M.op == "or" else (M,)
        if c in parts:
            rest = tm.or_(*[p for p in parts if p is not c])
            if not mentions(rest, names):
                return simp(tm.or_(tm.boolt(c0), dany(dim, lambda i: tm.subst(rest, bind(i)))))
        raise Unsupported("loop-carried boolean")
    if isinstance(M, NT):
        e = tm.sub(M.val, c)
        if mentions(e, names) or mentions(M.nan, names):
            return ip.Poison()
        return mkNT(dany(dim, lambda i: tm.subst(M.nan, bind(i))), simp(tm.add(valof(c0), dsum(dim, lambda i: tm.subst(e, bind(i))))))
    if isinstance(M, T) and isinstance(c, T):
        e = tm.sub(M, c)
        if not mentions(e, names):
            return simp(tm.add(valof(c0), dsum(dim, lambda i: tm.subst(e, bind(i)))))
        # running minimum / maximum
        if M.op == "ite":
            for flip in (False, True):
                a, b = (M.args[2], M.args[1]) if flip else (M.args[1], M.args[2])
                if b is c or (b.op == "toR" and b.args[0] is c):
                    e = a
                    if mentions(e, names):
                        continue
                    from . import npmod
                    cond = tm.not_(M.args[0]) if flip else M.args[0]
                    if cond in (tm.lt(e, c), tm.le(e, c)):
                        mn = npmod.dmin(dim, lambda i: tm.subst(e, bind(i)))
                        return simp(tm.ite(tm.gt(dsize(dim), 0), tm.min_(valof(c0), mn), valof(c0)))
                    if cond in (tm.gt(e, c), tm.ge(e, c)):
                        mx = npmod.dmax(dim, lambda i: tm.subst(e, bind(i)))
                        return simp(tm.ite(tm.gt(dsize(dim), 0), tm.max_(valof(c0), mx), valof(c0)))
    return ip.Poison()


def stable_reads(dim, k, ok, b, old):
    """the content before the loop of a cell that no iteration writes, else None"""
    if any(d.kind != "p" for d in b.shape):
        return lambda r: None
    fv = tuple(dimvars(d, "u") for d in b.shape)
    C = tm.or_(*[tm.and_(p.cond, c(fv)) for p in ok for c in p.j.writes.get(b, [])])
    k2 = dimvars(dim, "k")

    def at(r):
        m = dict(zip(fv, r))
        V._bind((k,), (k2,), m)
        c = tm.and_(inr(dim, k2), tm.subst(C, m))
        if c is not FALSE and not CTX.prove(tm.not_(c)):
            return None
        o = old(tuple(simp(x) for x in r))
        return tm.num(o) if isinstance(o, (T, int)) and not (isinstance(o, T) and o.sort == "B") else None
    return at


def resolve(t, stable, cell, memo):
    """t with the reads of cells that the loop does not write replaced by their content"""
    if t in memo:
        return memo[t]
    names = set(stable)
    if not mentions(t, names) or t is cell:
        r = t
    elif t.op == "uf" and t.args[0] in names:
        ch = [resolve(c, stable, cell, memo) for c in t.args[1:]]
        r = stable[t.args[0]](ch)
        r = tm.rebuild(t, ch) if r is None else r
    elif t.op == "atom":
        d, ps = t.args
        ws = [tm.fresh("w", x.sort, True) for x in d.binders]
        sz, mask, bs, es = d.inst([resolve(c, stable, cell, memo) for c in ps], ws)
        f = lambda x: resolve(x, stable, cell, memo)
        r = tm.mk_atom(d.kind, d.sort, ws, [f(x) for x in sz], f(mask), [f(x) for x in bs], [f(x) for x in es])
    else:
        r = tm.rebuild(t, [resolve(c, stable, cell, memo) for c in tm.children(t)])
    memo[t] = r
    return r


def buffer_effect(dim, k, ok, b, nm, srt, bind, others, stable):
    fv = tuple(dimvars(d, "u") for d in b.shape)
    cell = tm.uf(nm, [tm.num(x) for x in flatvars(fv)], srt)
    elems = []
    conds = []
    for p in ok:
        if b in p.bufs:
            elems.append(p.bufs[b](fv))
            cs = [tm.boolt(c(fv)) for c in p.j.writes.get(b, [])]
            conds.append(tm.and_(p.cond, tm.or_(*cs)))
        else:
            elems.append(cell)
    e = merge(ok, elems)
    C = conds
    if isinstance(e, T) and mentions(e, set(stable)):
        e = resolve(e, stable, cell, {})
    if v_mentions(e, others):
        raise Unsupported("array store depends on other loop-carried state")
    old = b.elem

    def at(expr, ix, m):
        mm = dict(m)
        V._bind(fv, ix, mm)
        return subst_value(expr, mm)

    # distinct-cell stores
    kv = flatvars(k)
    sols = []
    for c in C:
        disj = c.args if c.op == "or" else (c,)
        for dj in disj:
            s = [ip.solve_eq(dj, v) for v in kv]
            if any(x is None for x in s):
                # conjunction containing a disjunction of writes with a common index
                sols = None
                break
            sols.append(tuple(s))
        if sols is None:
            break
    if sols and all(s == sols[0] for s in sols):
        sol = dict(zip(kv, sols[0]))
        written = tm.or_(*C)

        def unflat(k):
            return tuple(unflat(x) for x in k) if isinstance(k, tuple) else sol[k]
        kk = unflat(k)
        # an index of an axis as long as the loop is a valid iteration number
        whole = any(x is kk and dd.kind == dim.kind and samedim(dd, dim) for x, dd in zip(fv, b.shape) if not isinstance(x, tuple))
        w2 = tm.and_(tm.subst(written, sol), tm.TRUE if whole else inr(dim, kk))
        e2 = subst_value(e, sol)
        # own-cell reads only
        e2 = subst_value(e2, {cell: tm.var("$own" + srt + nm, srt, False)})
        if v_mentions(e2, {nm}):
            raise Unsupported("array cell depends on cells of other iterations")
        own = tm.var("$own" + srt + nm, srt, False)

        def elem(ix):
            m = {}
            V._bind(fv, ix, m)
            c = tm.subst(w2, m)
            if c is FALSE:
                return old(ix)
            o = old(ix)
            if isinstance(o, NT):
                mm = dict(m)
                v = subst_value(subst_value(e2, mm), {own: tm.var("$own!", srt)}) if v_mentions(e2, {own.args[0]}) else subst_value(e2, mm)
                if v_mentions(v, {"$own!"}):
                    raise Unsupported("update of a NaN cell")
            else:
                m[own] = tm.num(o) if srt != "B" else tm.boolt(o)
                v = subst_value(e2, m)
            return itev(c, v, o)
        _install(b, elem, lambda ix: tm.subst(w2, _m(fv, ix)))
        return
    # scatter-add
    if isinstance(e, T):
        d = tm.sub(e, cell) if srt != "B" else None
        if d is not None and not mentions(d, {nm}):
            def elem(ix):
                m = {}
                V._bind(fv, ix, m)
                return simp(tm.add(old(ix), dsum(dim, lambda i: tm.subst(d, {**m, **bind(i)}))))
            _install(b, elem, lambda ix: TRUE)
            return
    # the same cells in every iteration: last one wins
    written = tm.or_(*C)
    kn = {x.args[0] for x in kv}
    if not mentions(written, kn) and not v_mentions(e, {nm}) or (not mentions(written, kn)):
        e3 = subst_value(e, {cell: tm.var("$own" + srt + nm, srt, False)})
        if not v_mentions(e3, {nm, "$own" + srt + nm}):
            def elem(ix):
                m = {}
                V._bind(fv, ix, m)
                c = tm.and_(tm.subst(written, m), tm.gt(dsize(dim), 0))
                return itev(c, subst_value(e, {**m, **bind(last_index(dim))}), old(ix))
            _install(b, elem, lambda ix: tm.subst(written, _m(fv, ix)))
            return
        e4 = subst_value(e, {})
        own_only = tm.ite(written, TRUE, TRUE)
        if isinstance(e, T) and e.op == "ite" and e.args[2] is cell and e.args[0] is written and not mentions(e.args[1], {nm}):
            val = e.args[1]

            def elem(ix):
                m = {}
                V._bind(fv, ix, m)
                c = tm.and_(tm.subst(written, m), tm.gt(dsize(dim), 0))
                return itev(c, tm.subst(val, {**m, **bind(last_index(dim))}), old(ix))
            _install(b, elem, lambda ix: tm.subst(written, _m(fv, ix)))
            return
    raise Unsupported("array store pattern in a loop")


def _m(fv, ix):
    m = {}
    V._bind(fv, ix, m)
    return m


def _install(b, elem, cond):
    old = b.elem
    if CTX.journal is not None and b.stamp <= CTX.journal.start:
        CTX.journal.bufs.setdefault(b, old)
        CTX.journal.writes.setdefault(b, []).append(cond)
    b.elem = elem
