"""Run-time check: the contracts evaluated by CPython on the real code with
generated inputs (also replays a recorded failing input)."""
import sys
import os
import re
import json
import argparse
import importlib
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True


class Reject(Exception):
    pass


class Stop(Exception):
    pass


class Violation(Exception):
    pass


STYLES = ["normal", "ties", "grid", "skew", "offset", "wide", "uniform"]


class FakeAx:
    def __init__(self, name, log):
        self.__dict__["name"] = name
        self.__dict__["log"] = log

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        import numpy as np

        def f(*args, **kw):
            cp = lambda x: np.array(x) if isinstance(x, np.ndarray) else x
            self.log.append((self.name, a, tuple(cp(x) for x in args), {k: cp(x) for k, x in kw.items()}))
            if self.name == "plt" and a == "subplots":
                n = args[0] if args else kw.get("nrows", 1)
                m = args[1] if len(args) > 1 else kw.get("ncols", 1)
                axs = tuple(FakeAx("ax%d" % i, self.log) for i in range(n * m))
                return FakeAx("fig", self.log), (axs[0] if len(axs) == 1 else axs)
            if a in ("figure", "gcf"):
                return FakeAx("fig", self.log)
            if a in ("gca", "subplot", "add_subplot", "axes"):
                return FakeAx("ax0", self.log)
            return FakeAx(self.name + "." + a, self.log)
        return f


class ConcV:
    symbolic = False

    def __init__(self, seed, trial):
        import numpy as np
        self.np = np
        self.trial = trial
        self.rng = np.random.default_rng([seed, trial])
        self.style = STYLES[trial % len(STYLES)] if self.rng.random() < 0.7 else STYLES[self.rng.integers(len(STYLES))]
        self.inputs = []
        self.log = []
        self.checks = 0
        self.notes = {}
        self._plots = []
        self.opt_i = 0

    # ---- inputs
    def size(self, name, lo=0, hi=None, conc=None):
        a, b = conc if conc else (lo, max(lo + 6, 12))
        b = b if hi is None else min(b, hi)
        v = int(self.rng.integers(a, b + 1))
        self.log.append((name, v))
        return v

    def small(self, name, lo, hi):
        return self.size(name, lo, hi, (lo, hi))

    def int(self, name, lo=None, hi=None, conc=None):
        lo = -5 if lo is None else lo
        hi = lo + 12 if hi is None else hi
        if conc:
            lo, hi = max(lo, conc[0]), min(hi, conc[1])
        if hi <= lo:
            raise Reject()
        v = int(self.rng.integers(lo, hi))
        self.log.append((name, v))
        return v

    def real(self, name, lo=None, hi=None, pos=False, choices=None):
        if choices is not None and self.rng.random() < 0.7:
            v = choices[self.rng.integers(len(choices))]
        else:
            a = -4.0 if lo is None else float(lo)
            b = a + 8.0 if hi is None else float(hi)
            v = float(self.np.round(self.rng.uniform(a, b) * 16) / 16)
        if pos:
            v = abs(v) or 0.5
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        self.log.append((name, v))
        return v

    def one_of(self, name, options):
        self.opt_i += 1
        k = int(self.rng.integers(len(options)))
        self.log.append((name, repr(options[k])))
        return options[k]

    def draw(self, shape, style):
        np, r = self.np, self.rng
        if style == "normal":
            return r.normal(size=shape)
        if style == "uniform":
            return r.uniform(0, 1, size=shape)
        if style == "ties":
            return r.integers(0, 4, size=shape).astype(float)
        if style == "grid":
            return r.integers(-8, 9, size=shape) / 8.0
        if style == "skew":
            x = r.exponential(0.1, size=shape)
            far = r.random(size=shape) < 0.12
            return np.where(far, 5.0 + r.uniform(0, 1, size=shape), x)
        if style == "offset":
            return 100.0 + r.normal(size=shape)
        if style == "wide":
            return 1000.0 * r.normal(size=shape)
        raise ValueError(style)

    def array(self, name, shape, dtype="f", style=None, lo=None, hi=None):
        np = self.np
        if dtype == "i":
            a = self.rng.integers(-4 if lo is None else lo, 9 if hi is None else hi, size=shape)
        elif dtype == "b":
            a = self.rng.random(size=shape) < 0.5
        else:
            a = np.asarray(self.draw(shape, style or self.style), dtype=float)
            if lo is not None or hi is not None:
                a = np.clip(a, lo, hi)
        self.inputs.append((name, a, a.copy()))
        self.log.append((name, a.copy()))
        return a

    def data(self, name, shape, style=None, mixed=True, **kw):
        """a data matrix; columns may have different character"""
        np = self.np
        if len(shape) == 2 and style is None and mixed and self.rng.random() < 0.6:
            cols = [self.draw((shape[0],), STYLES[self.rng.integers(len(STYLES))]) for _ in range(shape[1])]
            a = np.stack(cols, axis=1) if cols else np.zeros(shape)
            self.inputs.append((name, a, a.copy()))
            self.log.append((name, a.copy()))
            return a
        return self.array(name, shape, style=style, **kw)

    def assume_each(self, name, lo=None, hi=None):
        a = next(x for n, x, _ in self.inputs if n == name)
        c = self.np.clip(a, lo, hi)
        a[...] = c
        for k, (n, x, y) in enumerate(self.inputs):
            if n == name:
                y[...] = c

    def assume_increasing(self, a):
        np = self.np
        a[...] = np.sort(a)
        if np.any(np.diff(a) <= 0):
            a[...] = a[0] + np.cumsum(0.25 + np.abs(np.diff(a, prepend=a[0])))
        for n, x, y in self.inputs:
            if x is a:
                y[...] = a

    def freeze(self, name):
        """the current contents of an input are its initial contents"""
        for n, x, y in self.inputs:
            if n == name:
                y[...] = x

    def model(self, name="f", dim=None, kind=None):
        np, r = self.np, self.rng
        d = dim
        w = np.round(r.normal(size=d), 2)
        kind = kind or ["linear", "inter", "smooth", "step", "mixed"][r.integers(5)]
        j, k = int(r.integers(d)), int(r.integers(d))
        c = float(np.round(r.normal() * 3, 2))
        self.log.append((name, "%s w=%s j=%d k=%d c=%s" % (kind, w.tolist(), j, k, c)))
        me = self

        def f(x):
            x = np.asarray(x)
            if x.ndim != 2 or x.shape[1] != d:
                raise Violation("the model was called with shape %s, expected (*, %d)" % (x.shape, d))
            y = x @ w + c
            if kind in ("inter", "mixed"):
                y = y + x[:, j] * x[:, k] + 0.5 * x[:, j] ** 2
            if kind in ("smooth", "mixed"):
                y = y + 2 * np.sin(x[:, k]) + np.cos(x[:, j] * 0.7) * x[:, -1]
            if kind in ("step", "mixed"):
                y = y + np.where(x[:, j] > 0.3, 2.5, -1.0) * (1 + 0.1 * x[:, k])
            return y

        def jac(x):
            x = np.asarray(x)
            if x.ndim != 2 or x.shape[1] != d:
                raise Violation("the jacobian was called with shape %s, expected (*, %d)" % (x.shape, d))
            g = np.tile(w, (x.shape[0], 1)).astype(float)
            if kind in ("inter", "mixed"):
                g[:, j] += x[:, k]
                g[:, k] += x[:, j]
                g[:, j] += x[:, j]
            if kind in ("smooth", "mixed"):
                g[:, k] += 2 * np.cos(x[:, k])
                g[:, j] += -0.7 * np.sin(x[:, j] * 0.7) * x[:, -1]
                g[:, -1] += np.cos(x[:, j] * 0.7)
            if kind in ("step", "mixed"):
                g[:, k] += 0.1 * np.where(x[:, j] > 0.3, 2.5, -1.0)
            return g
        f.jac = jac
        f.scale = 1.0
        return f

    def jac(self, name="J", dim=None, of=None):
        """an arbitrary user-supplied jacobian (need not match any model)"""
        np, r = self.np, self.rng
        W = np.round(r.normal(size=(dim, dim)), 2)
        b = np.round(r.normal(size=dim), 2)
        self.log.append((name, "W=%s b=%s" % (W.tolist(), b.tolist())))

        def jac(x):
            x = np.asarray(x)
            if x.ndim != 2 or x.shape[1] != dim:
                raise Violation("the jacobian was called with shape %s, expected (*, %d)" % (x.shape, dim))
            return x @ W + b + np.sin(x)
        return jac

    @property
    def plots(self):
        return list(self._plots)

    # ---- assumptions and obligations
    def assume(self, c):
        if not self.np.all(c):
            raise Reject()

    def holds(self, name, c):
        self.checks += 1
        if not self.np.all(c):
            raise Violation("%s: does not hold" % name)

    each = holds

    def equal(self, name, a, b, rtol=1e-6, atol=1e-9, scale=None):
        np = self.np
        self.checks += 1
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and any(isinstance(x, (list, tuple, np.ndarray, str)) or x is None for x in list(a) + list(b)):
            if len(a) != len(b):
                raise Violation("%s: length %d, expected %d" % (name, len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                self.equal("%s[%d]" % (name, i), x, y, rtol, atol, scale)
            return
        if isinstance(a, (str, bool, np.bool_)) or a is None or isinstance(b, (str, bool, np.bool_)) or b is None:
            same = (a is None) == (b is None) and isinstance(a, str) == isinstance(b, str) and bool(np.all(a == b))
            if not same:
                raise Violation("%s: got %r, expected %r" % (name, a, b))
            return
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if x.shape != y.shape:
            raise Violation("%s: shape %s, expected %s" % (name, x.shape, y.shape))
        if x.size == 0:
            return
        fin = np.abs(y[np.isfinite(y)])
        sc = max(fin.max() if fin.size else 0.0, scale or 0.0)
        ok = np.isclose(x, y, rtol=rtol, atol=atol + 1e-9 * sc if scale is None else atol + 1e-7 * sc, equal_nan=True)
        if not ok.all():
            i = tuple(int(k) for k in np.argwhere(~ok)[0]) if x.ndim else ()
            raise Violation("%s: at %s got %r, expected %r" % (name, list(i), float(x[i]), float(y[i])))

    def same(self, name, a, b):
        self.equal(name, a, b, rtol=0, atol=0, scale=0.0)

    def close(self, name, a, b, **kw):
        self.equal(name, a, b, **(kw or dict(rtol=1e-3, atol=1e-5)))

    def raises(self, f):
        try:
            f()
        except (Violation, Reject):
            raise
        except Exception as e:
            self.last_exc = traceback.format_exc(limit=-3)
            return type(e).__name__
        return None

    def linear(self):
        pass

    def unchanged(self, name=None):
        np = self.np
        for n, a, c in self.inputs:
            if name is None or n == name:
                self.checks += 1
                if a.shape != c.shape or a.dtype != c.dtype or not np.array_equal(a, c, equal_nan=a.dtype.kind == "f"):
                    raise Violation("frame: input %s was changed by the call" % n)

    def stop(self):
        raise Stop()

    def copy(self, a):
        import copy
        return copy.deepcopy(a)

    def note(self, *a):
        self.log.append(("note", repr(a)))


def show(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


PUBLIC = {"eval", "fit", "plot", "summary", "get_node_info", "eval_pairwise", "eval_one_vs_all"}


def gone(e):
    """the contract itself (not the code it calls) asked for an internal function
    that the code no longer has, or has with other parameters"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if os.path.dirname(os.path.abspath(tb.tb_frame.f_code.co_filename)) != os.path.join(ROOT, "contracts"):
        return False
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        m = getattr(o, "__name__", "") if isinstance(o, type(os)) else getattr(type(o), "__module__", "")
        return str(m).split(".")[0] == "effector" and e.name not in PUBLIC
    if isinstance(e, TypeError):
        m = re.match(r"([\w.]+)\(\) (got an unexpected keyword|missing \d+ required|takes )", str(e))
        return bool(m) and m.group(1).split(".")[-1] not in PUBLIC | {"__init__"}
    return False


def run_one(fn, seed, trial):
    import numpy as np
    v = ConcV(seed, trial)
    np.random.seed((seed * 7919 + trial * 31) % (2 ** 31))
    import effector.visualization as vis
    real = vis.plt
    vis.plt = FakeAx("plt", v._plots)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(v)
    except Reject:
        return "reject", None, v
    except Stop:
        return "ok", None, v
    except Violation as e:
        return "violation", str(e), v
    except Exception as e:
        if gone(e):
            return "gone", str(e), v
        return "violation", "unexpected %s on admissible input: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)), v
    finally:
        vis.plt = real
    return "ok", None, v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--module", action="append", default=[])
    ap.add_argument("--only")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float, default=120)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(ROOT, "contracts"))
    sys.path.insert(0, a.repo)
    import vapi
    import contextlib
    import io
    buf = io.StringIO()
    if a.replay:
        r = json.load(open(a.replay))
        importlib.import_module(r["module"])
        fn = next(f for f in vapi.REGISTRY if f.__name__ == r["scenario"])
        with contextlib.redirect_stdout(buf):
            st, msg, v = run_one(fn, r["seed"], r["trial"])
        print(st, msg)
        sys.exit(1 if st == "violation" else 0)
    for m in a.module:
        try:
            importlib.import_module(m)
        except Exception:
            json.dump({"error": traceback.format_exc(limit=-5), "scenarios": []}, open(a.out, "w"))
            return
    import effector
    assert os.path.realpath(effector.__file__).startswith(os.path.realpath(a.repo)), effector.__file__
    fns = [f for f in vapi.REGISTRY if a.prop in f.props and f.conc and (not a.only or f.__name__ == a.only)]
    res = []
    t0 = time.time()
    for k, f in enumerate(fns):
        n = max(1, int(f.n * a.scale))
        ev = rej = chk = 0
        bad = lost = None
        distinct = set()
        sample = None
        tmax = t0 + a.budget * (k + 1) / len(fns)
        trial = 0
        while ev < n and trial < n * 15 + 40:
            if time.time() > tmax and ev >= 1:
                break
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                st, msg, v = run_one(f, a.seed, trial)
            buf.seek(0)
            buf.truncate()
            if st in ("reject", "gone") or (st == "ok" and v.checks == 0):
                rej += 1
            else:
                ev += 1
                chk += v.checks
                if v.checks:
                    distinct.add(hash(repr([(x, show(y)) for x, y in v.log])))
                if sample is None and st == "ok":
                    sample = repr([(x, show(y)) for x, y in v.log])[:1500]
            if st == "gone":
                lost = msg
                break
            if st == "violation":
                bad = {"module": f.__module__, "scenario": f.__name__, "seed": a.seed, "trial": trial, "message": msg,
                       "inputs": [(x, show(y)) for x, y in v.log]}
                break
            trial += 1
        res.append({"module": f.__module__, "scenario": f.__name__, "evaluations": ev, "rejected": rej, "checks": chk, "distinct": len(distinct), "violation": bad, "gone": lost, "sample": sample})
    json.dump({"error": None, "scenarios": res, "wall": time.time() - t0}, open(a.out, "w"), default=str)


if __name__ == "__main__":
    main()
