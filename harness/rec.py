"""Runs the real library and records what it did, as cases of TraceKalman.tla."""
import hashlib
import signal

import numpy as np

from enc import NAN, enc, rat

import kalmankit
from kalmankit import ExtendedKalmanFilter, KalmanFilter

F64 = 1e-12     # relative error granted per elementary matrix operation
F32 = 4e-6


class Hang(Exception):
    pass


class Outside(Exception):
    """Raised by a callback of a model."""


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


# ---------------------------------------------------------------- models
class KF:
    """Linear model: arrays with a leading time axis, in master precision."""
    kind = "kf"

    def __init__(self, A, B, H, Q, R, x0, P0):
        self.A, self.B, self.H, self.Q, self.R, self.x0, self.P0 = A, B, H, Q, R, x0, P0
        self.n, self.m, self.T = x0.shape[0], H.shape[1], A.shape[0]
        self.c = 0 if B is None else B.shape[2]

    def replace(self, **kw):
        d = dict(A=self.A, B=self.B, H=self.H, Q=self.Q, R=self.R, x0=self.x0, P0=self.P0)
        d.update(kw)
        return KF(**d)

    def cut(self, i, j, **kw):
        d = dict(A=self.A[i:j], B=None if self.B is None else self.B[i:j], H=self.H[i:j], Q=self.Q[i:j], R=self.R[i:j],
                 x0=self.x0, P0=self.P0)
        d.update(kw)
        return KF(**d)

    def encode(self):
        return {"kind": "kf", "A": enc(self.A), "B": [] if self.B is None else enc(self.B), "H": enc(self.H),
                "Q": enc(self.Q), "R": enc(self.R), "x0": enc(self.x0), "P0": enc(self.P0)}

    def kwargs(self, rep=lambda name, a: a):
        return dict(A=rep("A", self.A), xk=rep("xk", self.x0), B=None if self.B is None else rep("B", self.B),
                    Pk=rep("Pk", self.P0), H=rep("H", self.H), Q=rep("Q", self.Q), R=rep("R", self.R))


class Poly:
    """Polynomial map: list of components, each a list of (coefficient, exponents)."""

    def __init__(self, comps):
        self.comps = comps

    def val(self, y):
        return np.array([sum((c * self._mono(e, y) for c, e in comp), 0.0) for comp in self.comps], dtype=float)

    @staticmethod
    def _mono(e, y):
        r = 1.0
        for k, p in enumerate(e):
            if p:
                r *= (y[k] if k < len(y) else 0.0) ** p
        return r

    def jac(self, y, n):
        out = np.zeros((len(self.comps), n))
        for i, comp in enumerate(self.comps):
            for j in range(n):
                s = 0.0
                for c, e in comp:
                    if e[j]:
                        e2 = list(e)
                        e2[j] -= 1
                        s += c * e[j] * self._mono(e2, y)
                out[i, j] = s
        return out

    def encode(self):
        return [[{"c": rat(c), "e": list(map(int, e))} for c, e in comp] for comp in self.comps]


class EKF:
    """Nonlinear model.  f, h are Poly, or Python functions with Jacobians
    (kind "tab": the values at the points of each run are tabulated)."""

    def __init__(self, f, h, Q, R, x0, P0, m, c=0, JA=None, JH=None, scalar_h=False):
        self.f, self.h, self.JA, self.JH = f, h, JA, JH
        self.Q, self.R, self.x0, self.P0, self.m, self.c = Q, R, x0, P0, m, c
        self.n, self.T = x0.shape[0], Q.shape[0]
        self.kind = "ekf" if isinstance(f, Poly) else "tab"
        self.scalar_h = scalar_h
        self.log = None
        self.hook = None
        self.style, self.own = {}, {}

    def replace(self, **kw):
        d = dict(f=self.f, h=self.h, Q=self.Q, R=self.R, x0=self.x0, P0=self.P0, m=self.m, c=self.c, JA=self.JA,
                 JH=self.JH, scalar_h=self.scalar_h)
        d.update(kw)
        r = EKF(**d)
        r.style = self.style
        return r

    STYLES = ["same", "readonly", "int", "fortran", "strided"]

    def _out(self, fn, v, x=None):
        """The value in the form in which this callback returns its values."""
        k = self.style.get(fn)
        if k is None or not isinstance(v, np.ndarray):
            return v
        if k == "same":             # its own argument, or a view of it, wherever that is the value
            if isinstance(x, np.ndarray) and x.ndim == 1 and v.shape[0] <= x.shape[0] and x.dtype == v.dtype:
                if np.array_equal(x[:v.shape[0]], v):
                    return x if v.shape == x.shape else x[:v.shape[0]]
            return v
        if k == "int" and np.isfinite(v).all() and (v == np.round(v)).all() and np.abs(v).max(initial=0) < 2 ** 31:
            return v.astype(np.int64)
        if k == "buffer":           # the one array it always fills and returns
            w = self.own.setdefault(fn, np.zeros(v.shape))
            w[...] = v
            return w
        if k == "fortran":
            return np.asfortranarray(v)
        if k == "strided":
            w = np.zeros(tuple(2 * d for d in v.shape))
            w[tuple([slice(None, None, 2)] * v.ndim)] = v
            return w[tuple([slice(None, None, 2)] * v.ndim)]
        if k == "readonly":
            v = v.copy()
            v.flags.writeable = False
        return v

    def _arg(self, x, u):
        x = np.asarray(x, dtype=float)
        u = np.atleast_1d(np.asarray(u, dtype=float)) if u is not None else np.array([np.nan])
        if self.c == 0 or np.isnan(u).all():
            return x
        return np.concatenate([x, u])

    # pure evaluation
    def fv(self, x, u):
        return self.f.val(self._arg(x, u)) if self.kind == "ekf" else self.f(x, u)

    def fj(self, x, u):
        return self.f.jac(self._arg(x, u), self.n) if self.kind == "ekf" else self.JA(x, u)

    def hv(self, x):
        return self.h.val(x) if self.kind == "ekf" else self.h(x)

    def hj(self, x):
        return self.h.jac(x, self.n) if self.kind == "ekf" else self.JH(x)

    # callbacks handed to the library
    def _note(self, fn, x, u):
        if self.log is not None:
            self.log.append((fn, np.array(x, dtype=float, copy=True), None if u is None else np.array(u, copy=True)))
        if self.hook is not None:
            self.hook(fn)

    def cb_f(self, x, u):
        self._note("f", x, u)
        return self._out("f", self.fv(x, u), x)

    def cb_JA(self, x, u):
        self._note("JA", x, u)
        return self._out("JA", self.fj(x, u))

    def cb_h(self, x):
        self._note("h", x, None)
        v = self.hv(x)
        return float(np.ravel(v)[0]) if self.scalar_h else self._out("h", v, x)

    def cb_JH(self, x):
        self._note("JH", x, None)
        return self._out("JH", self.hj(x))

    def kwargs(self, rep=lambda name, a: a):
        return dict(xk=rep("xk", self.x0), Pk=rep("Pk", self.P0), Q=rep("Q", self.Q), R=rep("R", self.R),
                    f=self.cb_f, h=self.cb_h, jacobian_A=self.cb_JA, jacobian_H=self.cb_JH)

    def encode(self, pts=None, us=None):
        """pts: recorded points x_0, x_1, ... of a run (for kind "tab")."""
        base = {"kind": self.kind, "Q": enc(self.Q), "R": enc(self.R), "x0": enc(self.x0), "P0": enc(self.P0)}
        if self.kind == "ekf":
            base.update(f=self.f.encode(), h=self.h.encode())
            return base
        fx, JA, hx, JH = [], [], [], []
        for k in range(len(us)):
            x, u = pts[k], us[k]
            if not np.isfinite(x).all():
                fx.append([NAN] * self.n)
                JA.append([[NAN] * self.n] * self.n)
                hx.append([NAN] * self.m)
                JH.append([[NAN] * self.n] * self.m)
                continue
            p = np.asarray(self.fv(x, u), dtype=float)
            fx.append(enc(p))
            JA.append(enc(self.fj(x, u)))
            hx.append(enc(np.atleast_1d(self.hv(p))))
            JH.append(enc(self.hj(p)))
        base.update(fx=fx, JA=JA, hx=hx, JH=JH)
        return base


class Zoomed:
    """An extended model in other units: what the library sees of it."""

    def __init__(self, model, zoom):
        self.model, self.zoom = model, zoom
        sx, sz, su = zoom
        self.kind, self.x0, self.P0, self.Q, self.R = model.kind, model.x0 * sx, model.P0 * sx ** 2, model.Q * sx ** 2, model.R * sz ** 2

    def kwargs(self, rep=lambda name, a: a):
        m, (sx, sz, su) = self.model, self.zoom
        U = (lambda u: u) if su == 1 else (lambda u: None if u is None else u / su)
        return dict(xk=rep("xk", self.x0), Pk=rep("Pk", self.P0), Q=rep("Q", self.Q), R=rep("R", self.R),
                    f=lambda x, u: m.cb_f(x / sx, U(u)) * sx, h=lambda x: m.cb_h(x / sx) * sz,
                    jacobian_A=lambda x, u: m.cb_JA(x / sx, U(u)), jacobian_H=lambda x: m.cb_JH(x / sx) * (sz / sx))


def zoomed(model, zoom):
    """The model in other units (powers of two): states times zoom[0], observations zoom[1], controls zoom[2]."""
    if zoom is None:
        return model
    sx, sz, su = zoom
    if model.kind != "kf":
        return Zoomed(model, zoom)
    return KF(model.A, None if model.B is None else model.B * (sx / su), model.H * (sz / sx), model.Q * sx ** 2, model.R * sz ** 2,
              model.x0 * sx, model.P0 * sx ** 2)


def times(a, s):
    if a is None or s == 1:
        return a
    return [np.asarray(r) * s for r in a] if isinstance(a, list) else a * s


# ---------------------------------------------------------------- recording
def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        if a is None:
            h.update(b"none")
        elif isinstance(a, (list, tuple)):
            h.update(b"[")
            h.update(digest(*a).encode())
        elif callable(a):
            h.update(str(id(a)).encode())
        else:
            b = np.asarray(a)
            h.update(str((b.shape, b.dtype.str)).encode())
            h.update(b.tobytes())
    return h.hexdigest()[:16]


def numeric(a, shape):
    """(array of the wanted shape, NaN where unusable)."""
    try:
        b = np.asarray(a, dtype=float)
    except Exception:
        return np.full(shape, np.nan)
    return b if b.shape == tuple(shape) else np.full(shape, np.nan)


def shape_of(a):
    try:
        return list(np.shape(a))
    except Exception:
        return []


class Handle:
    def __init__(self, o, model, mref, obj):
        self.o, self.model, self.mref, self.obj = o, model, mref, obj
        self.snap = []                 # copies of the gains seen so far


ATTRS = ("A", "xk", "B", "Pk", "H", "Q", "R", "state_size")


class Case:
    def __init__(self, tag, eps=F64, psd=1e-9):
        self.tag, self.eps, self.psd = tag, eps, psd
        self.models, self.data, self.events = [], [], []
        self.nobj = 0
        self.raw = []                  # (x, P) arrays per event, for drivers
        self.kw = None                 # arguments by name ("None": also those that are None)
        self.bare = False              # an absent control of a direct predict is None for extended models, too
        self.zoom = None               # units in which the library sees the models: results are converted back, exactly
        self.log = []                  # free text: how the case was made

    # -- references
    def mref(self, model):
        self.models.append(model.encode())
        return len(self.models)

    def dref(self, z, u=None, c=0):
        z = np.asarray(z, dtype=float)
        z = z.reshape(z.shape[0], -1)
        d = {"z": enc(z), "u": []}
        if u is not None:
            u = np.asarray(u, dtype=float)
            d["u"] = enc(u.reshape(u.shape[0], -1))
        self.data.append(d)
        return len(self.data)

    def _ev(self, raw=None, **e):
        e.setdefault("want", [])
        self.events.append(e)
        self.raw.append(raw)
        return len(self.events)        # 1-based index

    # -- objects
    def new(self, model, want=(), rep=lambda name, a: a, mref=None, **extra):
        self.nobj += 1
        kw = zoomed(model, self.zoom).kwargs(rep)
        obj = (KalmanFilter if model.kind == "kf" else ExtendedKalmanFilter)(**kw, **extra)
        if mref is None:
            if model.kind == "tab":
                mref = None            # tabulated per run
            else:
                mref = self.mref(model)
        h = Handle(self.nobj, model, mref, obj)
        h.args, h.zoom = kw, self.zoom
        self._gains(h)
        if mref is not None:
            self._ev(op="new", o=h.o, m=mref, g=len(getattr(obj, "kalman_gains", [0])), want=list(want))
        return h

    def copy(self, h, how):
        """A copy of an object ("copy", "deepcopy", "pickle"), with a gain log of its own that is empty."""
        import copy
        import pickle
        obj = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o))}[how](h.obj)
        if how == "copy":
            obj.kalman_gains = []
        else:
            obj.kalman_gains.clear()
        self.nobj += 1
        c = Handle(self.nobj, h.model, self.mref(h.model), obj)
        c.args, c.zoom = dict(h.args), h.zoom
        self._gains(c)
        self._ev(op="new", o=c.o, m=c.mref, g=len(obj.kalman_gains), want=[])
        return c

    # the attributes of an object that hold its model
    NAMES = {"kf": dict(A="A", xk="x0", B="B", Pk="P0", H="H", Q="Q", R="R"), "ekf": dict(xk="x0", Pk="P0", Q="Q", R="R")}

    def set(self, h, model, how="replace", names=None, want=("gcount",)):
        """The owner gives the object another model of the same shapes: attributes
        replaced, or (how "inplace") the contents of the arrays it was built from overwritten."""
        seen = zoomed(model, h.zoom)
        for a, f in self.NAMES[model.kind].items():
            if names is not None and a not in names or getattr(model, f) is None:
                continue
            v = getattr(seen, f)
            old = h.args[a]
            if how == "inplace" and isinstance(old, np.ndarray) and old.dtype == v.dtype and old.shape == v.shape and old.flags.writeable:
                old[...] = v
            elif how == "inplace" and isinstance(old, list):
                for k, w in enumerate(v):
                    old[k] = np.array(w)
            else:
                h.args[a] = np.array(v)
                setattr(h.obj, a, h.args[a])
        if model.kind != "kf":
            for a, v in seen.kwargs().items():
                if callable(v):
                    h.args[a] = v
                    setattr(h.obj, a, v)
        h.model = model
        new, same = self._gains(h)
        mr = self.mref(model)
        return self._ev(op="set", o=h.o, m=mr, K=self._encK(new, model.n, model.m, h.zoom), gsame=same, want=list(want))

    def clear(self, h):
        """The owner empties the log of gains."""
        h.obj.kalman_gains.clear()
        h.snap = []
        return self._ev(op="clear", o=h.o)

    def _gains(self, h):
        """(new gains, True when the earlier ones are untouched)."""
        try:
            g = [np.array(k, dtype=float) for k in h.obj.kalman_gains]
        except Exception:
            return [], False
        old = h.snap
        same = len(g) >= len(old) and all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
                                          for a, b in zip(old, g))
        new = g[len(old):] if len(g) >= len(old) else []
        h.snap = g
        return new, bool(same)

    def _encK(self, new, n, m, zoom=None):
        out = []
        for k in new:
            k = k if zoom is None else k * (zoom[1] / zoom[0])
            out.append(enc(k.reshape(n, m)) if k.size == n * m and (k.ndim < 2 or k.shape == (n, m)) else [[NAN] * m for _ in range(n)])
        return out

    @staticmethod
    def _guard(call):
        """(result, None) or (None, error name)"""
        signal.setitimer(signal.ITIMER_REAL, 60)
        try:
            return call(), None
        except Hang:
            return None, "Hang"
        except np.linalg.LinAlgError:
            return None, "LinAlgError"
        except Exception as ex:        # recorded as the failure it is
            return None, type(ex).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    @staticmethod
    def _guard_plain(call):
        """As _guard, without the alarm (usable outside the main thread)."""
        try:
            return call()
        except Exception as ex:
            return ex

    def adopt(self, h, op, z, u, res, last):
        """Records a call made elsewhere (for instance in a thread); its gains
        are the last ones the object logged."""
        mod = h.model
        T, n = len(z), mod.n
        new, same = self._gains(h)
        x, P, sh, out = self._pair(res, T, n)
        ok = isinstance(res, tuple)
        e = dict(op=op, o=h.o, d=self.dref(z, u), ok=ok, err="" if ok else type(res).__name__, x=enc(x), P=enc(P),
                 K=self._encK(new[-last:], n, mod.m), gsame=same and len(new) % last == 0 and len(new) >= last, sh=sh,
                 want=["gcount"], fx=enc(x) if op == "smooth" else [], fP=enc(P) if op == "smooth" else [], stop=[])
        if mod.kind == "tab":
            self._tab(e, mod, x, z, u)
        return self._ev(raw=(x, P, out, None, None), **e)

    @staticmethod
    def _natural(res, zoom):
        """A result in the model's own units."""
        if zoom is not None and isinstance(res, tuple) and len(res) == 2 and all(isinstance(a, np.ndarray) for a in res):
            return res[0] / zoom[0], res[1] / zoom[0] ** 2
        return res

    def _pair(self, res, T, n):
        """x, P and the observed shapes of a (states, covariances) result."""
        sh = {"x": [], "P": [], "dt": "?"}
        if isinstance(res, tuple) and len(res) == 2:
            sh["x"], sh["P"] = shape_of(res[0]), shape_of(res[1])
            try:
                k = {res[0].dtype.kind, res[1].dtype.kind}
                sh["dt"] = "f" if k == {"f"} else "x"
            except AttributeError:
                pass
            return numeric(res[0], (T, n)), numeric(res[1], (T, n, n)), sh, res
        return np.full((T, n), np.nan), np.full((T, n, n), np.nan), sh, res

    def _tab(self, e, mod, x, z, u):
        """A tabulated run is judged as the run of an object of its own: the model's values at its points."""
        T = len(z)
        pts = [mod.x0] + list(x) + [np.full(mod.n, np.nan)] * T
        us = [np.full(np.shape(z[k]), np.nan) if u is None else np.asarray(u, float)[k] for k in range(T)]
        self.models.append(mod.encode(pts, us))
        self.nobj += 1
        e["o"] = self.nobj
        self._ev(op="new", o=self.nobj, m=len(self.models), g=0, want=[])

    def run(self, h, op, z, u=None, want=(), zarg=None, uarg=None, dref=None, pure=None, shadow=None,
            stop=None):
        """filter or smooth; zarg/uarg are the objects handed to the call; stop: see _stop."""
        mod = h.model
        zz = np.asarray(z, dtype=float)
        T, n = len(zz), mod.n
        zarg = z if zarg is None else zarg
        uarg = u if uarg is None and u is not None else uarg
        d = self.dref(zz, u) if dref is None else dref
        if h.zoom is not None:
            zarg, uarg = times(zarg, h.zoom[1]), times(uarg, h.zoom[2])
        good, steps = zarg, []
        if stop is not None:
            zarg, steps = self._stop(h, op, zz, u, zarg, uarg, *stop)
        f = getattr(h.obj, op)
        if self.kw:
            call = (lambda: f(Z=zarg)) if uarg is None and self.kw != "None" else (lambda: f(U=uarg, Z=zarg))
        else:
            call = (lambda: f(zarg)) if uarg is None else (lambda: f(zarg, uarg))
        watched = [zarg, uarg] + [v for v in h.args.values() if not callable(v)]
        before, at0 = (digest(*watched), self._attrs(h)) if pure else (None, None)
        res, err = self._guard(call)
        after, at1 = (digest(*watched), self._attrs(h)) if pure else (None, None)
        if stop is not None and mod.kind != "kf":
            mod.hook = None
        new, same = self._gains(h)
        x, P, sh, out = self._pair(self._natural(res, h.zoom), T, n)
        zarg = good
        e = dict(op=op, o=h.o, d=d, ok=err is None, err=err or "", x=enc(x), P=enc(P), K=self._encK(new, n, mod.m, h.zoom),
                 gsame=same, sh=sh, want=list(want), fx=[], fP=[], stop=steps)
        fx = fP = None
        t = T if err is None else min(len(new), T)
        if t and (op == "smooth" or err is not None):
            # the filtering result the call is built on: of all the data, or
            # of the steps taken before it failed
            if shadow is None or err is not None:
                kw = h.args
                hook, mod_log = getattr(mod, "hook", None), getattr(mod, "log", None)
                if mod.kind != "kf":
                    mod.hook = mod.log = None
                fresh = type(h.obj)(**kw)
                zt, ut = (zarg, uarg) if t == T else (zarg[:t], None if uarg is None else uarg[:t])
                r2, er2 = self._guard(lambda: fresh.filter(zt, ut) if ut is not None else fresh.filter(zt))
                if mod.kind != "kf":
                    mod.hook, mod.log = hook, mod_log
                fx, fP, _, _ = self._pair(self._natural(r2, h.zoom), t, n)
                if err is not None and not (np.isfinite(fx).all() and np.isfinite(fP).all()):
                    fx, fP = np.zeros((0, n)), np.zeros((0, n, n))
            else:
                fx, fP = shadow
            e["fx"], e["fP"] = enc(fx), enc(fP)
        if mod.kind == "tab":
            self._tab(e, mod, x if op == "filter" else (fx if fx is not None else x), zz, u)
        idx = self._ev(raw=(x, P, out, fx, fP), **e)
        if pure:
            self._ev(op="same", name=pure, a=before, b=after)
            self._ev(op="same", name=pure + "-object", a=at0, b=at1)
        return idx

    @staticmethod
    def _attrs(h):
        """What later calls depend on: the values the object's attributes hold, and how numpy treats errors."""
        def value(a):
            try:
                return np.asarray(a, dtype=float)
            except (TypeError, ValueError):
                return a
        return digest(*[value(getattr(h.obj, a, None)) for a in ATTRS], str(sorted(np.geterr().items())))

    def _stop(self, h, op, z, u, zarg, uarg, k, how):
        """What makes a run fail at its step k (from 0), or in its backward pass (k = None): "data", an observation that
        does not fit, or a callback ("f", "JA", "h", "JH") that raises.  (observations to pass, steps at which it may fail)"""
        mod = h.model
        T = len(z)
        if how != "data":
            def calls(op):
                seen = []
                mod.hook = lambda fn: seen.append(fn)
                self._guard(lambda: getattr(type(h.obj)(**h.args), op)(zarg, uarg))
                mod.hook = None
                return seen.count(how)
            there = calls("filter")             # the k-th call of a callback is the one of step k
            back = calls("smooth") - there if op == "smooth" and there == T and k is None else 0
            at = k + 1 if k is not None else T + (back + 1) // 2
            if there == T and (k is not None or back > 0):
                left = [at]

                def hook(fn):
                    left[0] -= fn == how
                    if left[0] == 0 and fn == how:
                        raise Outside()
                mod.hook = hook
                return zarg, [0 if k is None else k + 1]
        k = T - 1 if k is None else k
        rows = [np.array(r) for r in zarg]
        rows[k] = np.append(rows[k], 1.0)
        return rows, [1, k + 1]                 # an implementation may look at the data before its first step

    def predict(self, h, model, z=None, u=None, want=(), call=None, pure=None, watched=()):
        """A direct predict; model is a one-step model holding the arguments."""
        return self._direct(h, "predict", model, z, u, want, call, pure, watched)

    def update(self, h, model, z, want=(), call=None, pure=None, watched=()):
        return self._direct(h, "update", model, z, None, want, call, pure, watched)

    def _direct(self, h, op, model, z, u, want, call, pure, watched):
        n, m = model.n, model.m
        if z is None:
            z = np.zeros(m)
        zz = np.asarray(z, dtype=float).reshape(1, -1)
        uu = None if u is None else np.asarray(u, dtype=float).reshape(1, -1)
        d = self.dref(zz, uu)
        zoom = h.zoom if call is None else None
        assert call is None or h.zoom is None or model.kind == "kf" or getattr(call, "fails", False)
        if call is None:
            natural, model, z, u = model, zoomed(model, zoom), times(z, zoom[1]) if zoom else z, times(u, zoom[2]) if zoom else u
            if model.kind == "kf":
                if op == "predict":
                    B = None if model.B is None else model.B[0]
                    args = dict(Ak=model.A[0], xk=model.x0, Bk=B, uk=u, Pk=model.P0, Qk=model.Q[0])
                else:
                    args = dict(Hk=model.H[0], xk=model.x0, Pk=model.P0, zk=z, Rk=model.R[0])
            else:
                if op == "predict":
                    args = dict(xk=model.x0, uk=u if u is not None or self.bare else np.full(m, np.nan), Pk=model.P0, Qk=model.Q[0])
                else:
                    args = dict(xk=model.x0, Pk=model.P0, zk=z, Rk=model.R[0])
            watched = list(args.values())
            call = lambda: getattr(h.obj, op)(**args)
            if zoom:
                model, z, u = natural, zz[0], None if uu is None else uu[0]
        before, at0 = digest(*watched), self._attrs(h)
        res, err = self._guard(call)
        res = self._natural(res, zoom)
        after, at1 = digest(*watched), self._attrs(h)
        new, same = self._gains(h)
        x = P = None
        if isinstance(res, tuple) and len(res) == 2:
            x, P = numeric(res[0], (n,)), numeric(res[1], (n, n))
        else:
            x, P = np.full(n, np.nan), np.full((n, n), np.nan)
        if model.kind == "tab":
            mr = len(self.models) + 1
            if op == "predict":
                enc_m = model.encode([model.x0], [np.full(m, np.nan) if u is None else u])
            else:
                enc_m = model.encode([model.x0], [np.full(m, np.nan)])
                enc_m["hx"], enc_m["JH"] = [enc(np.atleast_1d(model.hv(model.x0)))], [enc(model.hj(model.x0))]
            self.models.append(enc_m)
        else:
            mr = self.mref(model)
        o = h.o
        if model.kind == "tab":
            self.nobj += 1
            o = self.nobj
            self._ev(op="new", o=o, m=mr, g=0, want=[])
        idx = self._ev(raw=(x, P, res, None, None), op=op, o=o, m=mr, d=d, ok=err is None, err=err or "", x=enc(x),
                       P=enc(P), K=self._encK(new, n, m, zoom), gsame=same, want=list(want))
        if pure:
            self._ev(op="same", name=pure, a=before, b=after)
            self._ev(op="same", name=pure + "-object", a=at0, b=at1)
        return idx

    # -- whole-run oracles and relations
    def batch(self, e, ts, tol):
        m = self._model_of(e)
        self._ev(op="batch", e=e, m=m, ts=list(ts), tol=rat(tol))

    def e2e(self, e, tol):
        self._ev(op="e2e", e=e, m=self._model_of(e), tol=rat(tol))

    def _model_of(self, e):
        o = self.events[e - 1]["o"]
        for ev in reversed(self.events[:e]):
            if ev["op"] in ("new", "set") and ev["o"] == o:
                return ev["m"]
        raise KeyError(o)

    def rel(self, name, l, r, cmp=("x", "P", "K"), tol=1e-8, step=False):
        self._ev(op="rel", name=name, l=l, r=r, cmp=list(cmp), tol=rat(tol), step=bool(step))

    def zero(self, name, e, rows, rows2=(), cols=(), tol=1e-9):
        self._ev(op="zero", name=name, e=e, rows=list(rows), rows2=list(rows2), cols=list(cols), tol=rat(tol))

    def same(self, name, a, b):
        self._ev(op="same", name=name, a=a, b=b)

    def encode(self):
        return {"tag": self.tag, "eps": rat(self.eps), "psd": rat(self.psd), "models": self.models,
                "data": self.data, "events": self.events, "how": self.log}


def side(*es, w=None, idx=(), rows=(), cols=(), M=None, off=None, W=None):
    """A side of a relation; M, W are float matrices or already encoded ones."""
    e = lambda a: [] if a is None else (a if isinstance(a, list) and not any(isinstance(v, np.ndarray) for v in a) else enc(a))
    return {"es": list(es), "w": [] if w is None else [rat(v) for v in w], "idx": list(idx), "rows": list(rows),
            "cols": list(cols), "M": e(M), "off": e(off), "W": e(W)}
