"""Scenarios per property.  Each function yields Case objects; the verdicts are TLC's."""
import itertools
import os
import threading

import numpy as np

import gen
import world
from rec import EKF, F32, KF, Case, Outside, Poly, digest, side, times, zoomed

import kalmankit

NANROW = lambda m: np.full(m, np.nan)


def reps(n, tier):
    return n if tier == "quick" else n * 12


def call_style(rng, cs):
    """Arguments by position mostly."""
    cs.kw = rng.choice([None, "given", "None"], p=[.75, .15, .1])


def maybe_u(rng, mod, dyadic=False, p=0.75):
    if mod.c == 0 or rng.random() > p:
        return None
    return gen.ctl(rng, mod.T, mod.c, dyadic)


def stretch(rng, i, n, m, T, every=24, longest=1100, widest=20):
    """Now and then a long series, or a large model: sizes at which a shortcut would set in."""
    if i % every == every // 4:
        return min(n, 2), min(m, 2), longest if i == every // 4 else int(rng.choice([130, 260, 520, longest]))
    if i % every == 3 * every // 4:
        n, m = int(rng.integers(7, widest + 1)), int(rng.integers(1, widest - 1))
        if i < every:                       # beyond 16: many states first, then many components
            return widest - int(rng.integers(3)), m // 3 + 1, min(T, 3)
        if i < 2 * every:
            return n // 4 + 1, widest - int(rng.integers(3)), min(T, 3)
        return n, m // 2 + 1, min(T, 3)
    return n, m, T


def rep_of(rng, p=0.25):
    """A random array representation, identity most of the time."""
    if rng.random() > p:
        return "plain", lambda name, a: a
    if rng.random() < 0.3:
        return longer(rng)
    name = str(rng.choice(list(gen.representations(rng))))
    f = gen.representations(rng)[name]
    return name, lambda _n, a: f(np.asarray(a))


def longer(rng):
    """Per-step parameters with entries beyond the series, which must not matter."""
    k = int(rng.integers(1, 4))
    bad = float(rng.choice([np.nan, 1e3, -7.0, 0.0]))
    some = {nm for nm in ("A", "B", "H", "Q", "R") if rng.random() < 0.7}

    def rep(name, a):
        a = np.asarray(a)
        if name not in some:
            return a
        tail = np.full((k,) + a.shape[1:], bad) if rng.random() < 0.5 else rng.normal(size=(k,) + a.shape[1:]) * 5
        return np.concatenate([a, tail.astype(a.dtype)])
    return "longer by %d" % k, rep


def integer_model(rng, n, m, T, c):
    """A model all of whose entries are integers."""
    rep = lambda g: np.array([g() for _ in range(T)]).astype(float)
    I = np.eye(n)
    return KF(rep(lambda: rng.integers(-1, 2, size=(n, n))),
              rep(lambda: rng.integers(-2, 3, size=(n, c))) if c else None,
              rep(lambda: rng.integers(-2, 3, size=(m, n))), rep(lambda: I * rng.integers(1, 4)),
              rep(lambda: np.eye(m) * rng.integers(1, 4) + (lambda v: v @ v.T)(rng.integers(-1, 2, size=(m, 1)))),
              rng.integers(-3, 4, size=n).astype(float), I * rng.integers(1, 5))


def reach(mod, z, u):
    """A bound of the integers that the first step of a run computes before anything is a floating-point number."""
    a = lambda v: np.abs(v).max(axis=0)
    A, H = a(mod.A), a(mod.H)
    P = A @ np.abs(mod.P0) @ A.T + a(mod.Q)
    x = A @ np.abs(mod.x0) + (0 if mod.B is None or u is None else a(mod.B) @ np.nan_to_num(a(u)))
    return max(v.max() for v in (H @ P @ H.T + a(mod.R), P, H @ x + a(z), x))


def units(rng, cs, p=.4):
    """Now and then the library sees the case in other units: powers of two, so that results convert back exactly."""
    if rng.random() < p:
        k = rng.integers(-45, 46, size=3) * (rng.random(3) < .8) // int(rng.choice([1, 1, 3]))
        cs.zoom = tuple(2.0 ** float(e) for e in k)
        cs.log.append("units 2^" + ",".join(map(str, k)))


as_int = lambda name, a: np.asarray(a).astype(np.int64)


def f32(mod, z, u):
    """The model rounded to single precision."""
    g = lambda a: None if a is None else np.asarray(a, dtype=np.float32).astype(float)
    return KF(*(g(a) for a in (mod.A, mod.B, mod.H, mod.Q, mod.R, mod.x0, mod.P0))), g(z), g(u)


to_f32 = lambda name, a: np.asarray(a, dtype=np.float32)


def mixture(rng, tier, count, op, want, tag, eps_case=None, pdq=False, after=None, nmax=4, mmax=3):
    """The common mixture of linear runs; after(case, event, mod, z, u, dyadic) adds oracles."""
    kinds = ["plain"] * 9 + ["dyadic"] * 6 + ["scaled"] * 3 + ["int"] * 2 + ["f32"] * 2 + ["big"] * 1 + ["long"] * 1 + \
            ["scalar"] * 3 + ["second"] * 2 + ["statesize"] * 1 + ["wide"] * 2 + ["longconst"] * 1 + ["quirk"] * 9 + ["mixed"] * 3 + \
            ["world"] * 20
    kinds = [kinds[j * 29 % len(kinds)] for j in range(len(kinds))]      # spread out: 29 and the length are coprime
    sizes = ["verylong", "bigger", "biggerscaled"]
    N = reps(count + len(sizes), tier)
    nq = int(rng.integers(99))
    for i in range(N):
        kind = kinds[i % len(kinds)] if i < N - reps(len(sizes), tier) else sizes[i % len(sizes)]
        n, m, c = gen.dims(rng, nmax, mmax)
        T = gen.length(rng)
        dyadic = kind == "dyadic"
        flav = str(rng.choice(["plain", "plain", "diffuse", "precise", "sparseH"])) if pdq else None
        eps, rn, rep, extra = None, "plain", None, {}
        if kind == "long":
            n, m, T = int(rng.integers(1, 3)), 1, gen.length(rng, True)
        if kind == "verylong":
            n, m, T = 1, 1, 1040
        if kind == "bigger":
            n, m, T = int(rng.integers(8, 18)), int(rng.integers(1, 18)), 2
        if kind == "biggerscaled":
            n, m, T = int(rng.integers(1, 9)), int(rng.integers(7, 18)), 2
        if kind == "longconst":
            n, m, T = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.choice([80, 140]))
        if kind == "big":
            n, m, T = int(rng.integers(5, 8)), int(rng.integers(1, 6)), int(rng.integers(2, 5))
        if kind == "wide":
            n, m = int(rng.integers(1, 3)), int(rng.integers(3, 6))
        if dyadic:
            n, m = min(n, 3), min(m, 3)
            T = min(T, max(1, 10 // m))
        if kind == "scalar":
            n, m = int(rng.choice([1, 1, 2])), 1
        c = c if rng.random() < 0.65 or kind == "verylong" else 0
        if kind == "quirk":
            nq += 1
            name, mod, z, u = gen.quirk(rng, n, m, min(T, 8), c, gen.QUIRKS[nq % len(gen.QUIRKS)])
            rep = lambda _n, a: a
            n, m, c, T = mod.n, mod.m, mod.c, mod.T
        elif kind == "world":
            mod, z, u, text = world.pieces(rng, n, m, T, c, pd_only=op == "smooth")
            rn, rep = rep_of(rng)
            rn += " " + text
        elif kind in ("int", "mixed"):
            mod = integer_model(rng, n, m, min(T, 8), c)
            z = rng.integers(-5, 6, size=(mod.T, m)).astype(float)
            u = rng.integers(-3, 4, size=(mod.T, c)).astype(float) if c and rng.random() < 0.6 else None
            if c and u is None and rng.random() < 0.5:
                mod = mod.replace(B=None)
            rn, rep = "int", as_int
            if kind == "mixed":         # some arrays integer, the others not
                ints = {k for k in ("A", "B", "H", "Q", "R", "xk", "Pk", "Z", "U") if rng.random() < .5}
                kw = {k: v * s for k, v, s in (("A", mod.A, .75), ("H", mod.H, 1.25), ("Q", mod.Q, .75), ("R", mod.R, 1.25))
                      if k not in ints}
                if mod.B is not None and "B" not in ints:
                    kw["B"] = mod.B + .5
                if "xk" not in ints:
                    kw["x0"] = mod.x0 + .5
                if "Pk" not in ints:
                    kw["P0"] = mod.P0 * 1.25
                mod = mod.replace(**kw)
                z = z if "Z" in ints else z + .25
                u = u if u is None or "U" in ints else u + .25
                rn = "ints " + "".join(sorted(ints))
                rep = lambda name, a, ints=ints: np.asarray(a).astype(np.int64) if name in ints else a
        else:
            mod = gen.kf(rng, n, m, T, c, dyadic, varying=False if kind == "longconst" else None, flavour=flav,
                         nice=(kind in ("long", "longconst", "verylong") and rng.random() < 0.5))
            if kind == "longconst" and rng.random() < .6:      # the covariances settle, the states keep turning
                mod = mod.replace(A=mod.A * rng.choice([-1.0, 1.0], size=T)[:, None, None])
            u = maybe_u(rng, mod, dyadic, 0.85 if kind == "verylong" else 0.75)
            z = gen.obs(rng, mod, dyadic, u)
            rn, rep = rep_of(rng)
        if kind == "biggerscaled":
            mod, z, u = gen.scale_units(mod, z, u, np.ones(mod.n), 2.0 ** rng.permutation(np.arange(mod.m) * 9 // (mod.m - 1)))
        if kind == "scaled":
            ds = 2.0 ** rng.integers(-16, 17, size=mod.n)
            dz = 2.0 ** rng.integers(-12, 13, size=mod.m)
            if rng.random() < 0.5:
                ds, dz = np.full(mod.n, 2.0 ** rng.integers(-40, 30)), np.full(mod.m, 2.0 ** rng.integers(-40, 30))
                if rng.random() < .4:
                    ds, dz = ds * 2.0 ** (7 * rng.integers(-30, 30)), dz * 2.0 ** (7 * rng.integers(-30, 30))
            mod, z, u = gen.scale_units(mod, z, u, ds, dz)
        if kind == "f32":
            mod, z, u = f32(mod, z, u)
            eps, rn, rep = F32, "float32", to_f32
        cs = Case("%s-%s" % (tag, kind if kind != "quirk" else name), **({} if eps is None else dict(eps=eps, psd=1e-4)))
        if kind not in ("int", "mixed", "f32"):
            units(rng, cs)
        cs.log.append("n=%d m=%d T=%d c=%d B=%s U=%s rep=%s" % (mod.n, mod.m, mod.T, mod.c, mod.B is not None,
                                                                  u is not None, rn))
        call_style(rng, cs)
        zarg, uarg = rep("Z", z), None if u is None else rep("U", u)
        if kind == "f32" and u is not None:
            uarg = np.asarray(u, dtype=np.float32)
        args = rep
        if kind == "scalar":
            form = str(rng.choice(["z1d", "scalarR", "11"]))
            cs.log.append(form)
            if form in ("z1d", "scalarR"):
                zarg = z[:, 0].copy()
            if form == "scalarR":
                def args(name, a, rep=rep):
                    if name == "R" or (name == "Q" and mod.n == 1):
                        return a[:, 0, 0].copy()
                    return rep(name, a)
            if form == "11" and mod.n == 1:
                args = lambda name, a, rep=rep: rep(name, a)
        if kind == "statesize":
            extra = {"state_size": mod.n}
        h = cs.new(mod, rep=args, **extra)
        if kind == "second":
            cs.run(h, str(rng.choice(["filter", "smooth"])), gen.obs(rng, mod), gen.ctl(rng, mod.T, mod.c) if mod.c else None)
        e = cs.run(h, op, z, u, want=want, zarg=zarg, uarg=uarg)
        if after is not None:
            after(cs, e, mod, z, u, kind)
        yield cs


def exported(rng, tier, export, count):
    """(model, observations, controls) of behaviours explored by TLC: a sample, or all of them."""
    from enc import dec, unrat
    arr = lambda v: np.array(dec(v), dtype=float)
    cases = export["cases"]
    if tier == "quick" and len(cases) > count:
        cases = [cases[j] for j in np.sort(rng.choice(len(cases), size=count, replace=False))]
    for c in cases:
        m = c["m"]
        z, u = arr(c["z"]), arr(c["u"])
        if m["kind"] == "kf":
            yield KF(*(arr(m[k]) for k in ("A", "B", "H", "Q", "R", "x0", "P0"))), z, u
        else:
            f, h = (Poly([[(unrat(t["c"]), t["e"]) for t in comp] for comp in m[k]]) for k in ("f", "h"))
            yield EKF(f, h, arr(m["Q"]), arr(m["R"]), arr(m["x0"]), arr(m["P0"]), len(m["h"]), u.shape[1]), z, u


def replay(rng, tier, export, count, op, want, tag, after=None):
    """Runs the exported behaviours."""
    for mod, z, u in exported(rng, tier, export, count):
        cs = Case(tag + "-spec")
        units(rng, cs)
        e = cs.run(cs.new(mod), op, z, u, want=want)
        if after is not None:
            after(cs, e, mod, z, u, "spec")
        yield cs


# ------------------------------------------------------------------ K01, K02
def K01(rng, tier, export):
    def after(cs, e, mod, z, u, kind):
        if kind in ("dyadic", "int", "spec") and mod.T * mod.m <= 10:
            sc = 1 + max(np.abs(cs.raw[e - 1][0]).max(), np.abs(cs.raw[e - 1][1]).max()) if cs.raw[e - 1] is not None else 1
            if mod.P0.max() > 1e4 or mod.R.max() < 1e-3:
                return
            cs.batch(e, sorted({1, (mod.T + 1) // 2, mod.T}), 1e-7 * min(sc, 1e6))
    yield from replay(rng, tier, export, 150, "filter", ["raise", "x", "P", "shape"], "K01", after)
    yield from mixture(rng, tier, 195, "filter", ["raise", "x", "P", "shape"], "K01", after=after)


def K02(rng, tier, export):
    def after(cs, e, mod, z, u, kind):
        if kind in ("dyadic", "int") and mod.T * mod.m <= 10 and mod.P0.max() < 1e4 and mod.R.max() > 1e-3:
            sc = 1 + max(np.abs(mod.P0).max(), np.abs(z).max(), np.abs(mod.x0).max())
            r = cs.raw[e - 1]
            if np.isfinite(r[3]).all() if r[3] is not None else False:
                sc += np.abs(r[3]).max() + np.abs(r[4]).max()
            cs.batch(e, sorted({1, (mod.T + 1) // 2, mod.T}), 1e-6 * sc)
            if mod.T <= 6:
                cs.e2e(e, 1e-6 * sc)
    for mod, z, u in exported(rng, tier, export, 150):
        cs = Case("K02-spec")
        units(rng, cs)
        e = cs.run(cs.new(mod), "smooth", z, u, want=["x", "P", "sx", "sP", "slast"])
        if cs.events[e - 1]["ok"]:      # predicted covariances may be singular in these
            cs.events[e - 1]["want"].append("shape")
        yield cs
    yield from mixture(rng, tier, 130, "smooth", ["raise", "x", "P", "sx", "sP", "slast", "shape"], "K02", pdq=True, after=after)


# ------------------------------------------------------------------ K03, K04
def one_step(rng, n, m, c, dyadic=False, scaled=False):
    mod = gen.kf(rng, n, m, 1, c, dyadic)
    if rng.random() < 0.3:
        mod = mod.replace(P0=gen.psd(rng, n, int(rng.integers(0, n + 1)), dyadic))
    if scaled:
        mod, _, _ = gen.scale_units(mod, np.zeros((1, m)), None, 2.0 ** rng.integers(-20, 21, size=n),
                                    2.0 ** rng.integers(-10, 11, size=m))
    return mod


QUIRK1 = [k for k in gen.QUIRKS if k not in ("latechange", "almostconst", "almostequal")]


def typed(rng, mod, *more):
    """A model of small numbers, with the form in which each of its arrays is passed: integers, or halves, in single or
    double precision, so that no sum or product of them is rounded."""
    forms = {k: rng.choice(["int64", "int32", "float32", "float64"]) for k in "AxBuPQHzR"}
    half = lambda k, a, s=.5: a if a is None or forms[k].startswith("int") or rng.random() < .3 else a + s
    d = lambda k, a: a * (1 if forms[k].startswith("int") else 1.5)
    mod = mod.replace(x0=half("x", mod.x0), B=half("B", mod.B), Q=d("Q", mod.Q), R=d("R", mod.R), P0=d("P", mod.P0))
    return (mod, [half(k, a) for k, a in more], forms, lambda k, a: np.asarray(a, dtype=forms[k]))


def K03(rng, tier, export):
    for mod, z, u in exported(rng, tier, export, 60):
        cs = Case("K03-spec")
        h = cs.new(mod)
        e = cs.run(h, "filter", z, u)
        xs, Ps = [mod.x0] + list(cs.raw[e - 1][0]), [mod.P0] + list(cs.raw[e - 1][1])
        for k in range(mod.T):
            if np.isfinite(xs[k]).all() and np.isfinite(Ps[k]).all():
                cs.predict(h, poke_model(mod, k, xs[k], Ps[k]), u=u[k], want=["raise", "x", "P", "gcount"], pure="pure")
        yield cs
    for i in range(reps(252, tier)):
        n, m, c = gen.dims(rng, 6, 2, 4)
        if i in (70, 84):
            n, c = (int(rng.integers(17, 21)), 2) if i == 70 else (2, int(rng.integers(17, 21)))
        kind = ["plain", "scaled", "dyadic", "int", "f32", "list", "fortran", "scalar", "quirk", "quirk", "world", "world", "world",
                "typed"][i % 14]
        if kind == "scalar":
            n, c = 1, 1
        base = gen.kf(rng, n, m, 3, c)
        cs = Case("K03-" + kind, **(dict(eps=F32) if kind == "f32" else {}))
        h = cs.new(base)
        for _ in range(3):
            mod = integer_model(rng, n, m, 1, c) if kind in ("int", "typed") else \
                one_step(rng, n, m, c, kind == "dyadic", kind == "scaled")
            u = rng.integers(-3, 4, size=c).astype(float) if kind in ("int", "typed") else rng.normal(size=c) * 3
            if kind == "quirk":
                name, mod, _, uu = gen.quirk(rng, n, 1, 1, c, QUIRK1[(i + int(rng.integers(2))) % len(QUIRK1)], ctl_absent=False)
                u = uu[0]
                cs.log.append(name)
            if kind == "dyadic":
                u = gen.q(rng, c)
            if kind == "world":
                uu = None
                while uu is None or not np.isfinite(uu).all():
                    mod, _, uu, text = world.pieces(rng, n, 1, 1, c)
                u = uu[0]
                cs.log.append(text)
            if rng.random() < 0.2:
                u = u * (rng.random(size=c) < 0.5)
            if kind in ("plain", "scaled", "list") and rng.random() < .4:
                e = float(rng.choice([-50, -30, -22, 22, 30, 50]))
                mod, u = mod.replace(B=mod.B * 2.0 ** e), u * 2.0 ** -e
            if kind == "f32":
                mod, _, u = f32(mod, np.zeros(1), u)
            rp = {"int": as_int, "f32": to_f32, "fortran": lambda _n, a: np.asfortranarray(a)}.get(kind, lambda _n, a: a)
            if kind == "typed":
                mod, (u,), forms, rp = typed(rng, mod, ("u", u))
                cs.log.append(" ".join("%s:%s" % (k, forms[k]) for k in "AxBuPQ"))
            form = str(rng.choice(["both", "Bnone", "unone", "Bnan", "unan", "neither", "bothnan"], p=[.4, .1, .1, .1, .1, .1, .1]))
            Bk, uk = rp("B", mod.B[0]), rp("u", u)
            if form in ("Bnone", "neither"):
                Bk = None
            if form in ("unone", "neither"):
                uk = None
            if form in ("Bnan", "bothnan"):
                Bk = np.full(rng.choice([1, 2]) * np.array([n, 1]) if rng.random() < .3 else (n, c), np.nan)
            if form in ("unan", "bothnan"):
                uk = np.full(c if rng.random() < .6 else m, np.nan)
            judged = mod if form == "both" else mod.replace(B=None)
            if form == "both" and kind not in ("int", "typed") and rng.random() < .12:
                # a control, or a control matrix, with some entries missing is a control all the same
                if u.size > 1 and rng.random() < .6:
                    u = np.where(np.arange(u.size) == rng.integers(u.size), np.nan, u)
                    uk = rp("u", u)
                elif mod.B[0].size > 1:
                    Bp = mod.B[0].copy()
                    Bp[tuple(rng.integers(s) for s in Bp.shape)] = np.nan
                    mod = judged = mod.replace(B=Bp[None])
                    Bk = rp("B", Bp)
                form = "partial"
            args = dict(Ak=rp("A", mod.A[0]), xk=rp("x", mod.x0), Bk=Bk, uk=uk, Pk=rp("P", mod.P0), Qk=rp("Q", mod.Q[0]))
            if rng.random() < 0.25:
                args = {k: (None if v is None else np.array(v)) for k, v in args.items()}
                for v in args.values():
                    if v is not None:
                        v.flags.writeable = False
            cs.log.append(form)
            pos = rng.random() < 0.3
            call = (lambda: h.obj.predict(*args.values())) if pos else (lambda: h.obj.predict(**args))
            cs.predict(h, judged, u=u if form in ("both", "partial") else None, call=call, watched=list(args.values()),
                       want=["raise", "x", "P", "gcount"], pure="pure")
        yield cs


def K04(rng, tier, export):
    for mod, z, u in exported(rng, tier, export, 60):
        cs = Case("K04-spec")
        h = cs.new(mod)
        for k in range(mod.T):
            P = mod.A[k] @ mod.P0 @ mod.A[k].T + mod.Q[k]
            cs.update(h, poke_model(mod, k, mod.A[k] @ mod.x0, P), z[k], want=["raise", "x", "P", "K", "gcount"], pure="pure")
        yield cs
    for i in range(reps(228, tier)):
        kind = ["plain", "scaled", "dyadic", "int", "f32", "wide", "scalarz", "cert", "multi", "fortran", "quirk", "ekf",
                "quirk", "ekf", "world", "world", "world", "world", "typed"][i % 19]
        n, m, _ = gen.dims(rng, 5, 4)
        if i in (57, 76):
            n, m = (int(rng.integers(17, 21)), 3) if i == 57 else (3, int(rng.integers(17, 21)))
        if kind == "ekf":
            n = int(rng.integers(1, 5))
            deg = int(rng.choice([1, 2, 3]))
            base = gen.ekf(rng, n, m, 3, 0, deg)
            cs = Case("K04-ekf")
            h = cs.new(base)
            for k in range(3):
                x = gen.q(rng, n, 4, 4)
                P = gen.psd(rng, n, int(rng.integers(0, n + 1)), True, .5) if rng.random() < .4 else gen.pd(rng, n, True, .5)
                one = poke_model(base, k, x, P)
                if rng.random() < .3:
                    one = one.replace(R=one.R * 2.0 ** -24)
                z = np.atleast_1d(base.hv(x)) + np.round(rng.normal(size=m) * 16) / 16 * rng.choice([0, 1, 64])
                zk = z
                if m == 1 and rng.random() < .4:
                    zk = float(z[0])
                args = dict(xk=one.x0, Pk=one.P0, zk=zk, Rk=one.R[0])
                cs.update(h, one, z, call=lambda: h.obj.update(**args), watched=list(args.values()),
                          want=["raise", "x", "P", "K", "gcount"], pure="pure")
            yield cs
            continue
        if kind == "wide":
            n, m = int(rng.integers(1, 3)), int(rng.integers(3, 7))
        if kind == "scalarz":
            m = 1
        base = gen.kf(rng, n, m, 3, 1)
        cs = Case("K04-" + kind, **(dict(eps=F32) if kind in ("f32", "typed") else {}))
        h = cs.new(base)
        for _ in range(4 if kind == "multi" else 3):
            mod = integer_model(rng, n, m, 1, 0) if kind in ("int", "typed") else \
                one_step(rng, n, m, 0, kind == "dyadic", kind == "scaled")
            z = (mod.H[0] @ mod.x0 + rng.normal(size=m) * rng.choice([0.0, 1.0, 30.0, 1e4])) if kind not in ("int", "typed", "dyadic") \
                else rng.integers(-6, 7, size=m).astype(float)
            if kind == "quirk":
                name, mod, zz, _ = gen.quirk(rng, n, m, 1, 0, QUIRK1[(i + int(rng.integers(2))) % len(QUIRK1)])
                z = zz[0]
                cs.log.append(name)
                h = cs.new(mod)
            if kind == "world":
                mod, zz, _, text = world.pieces(rng, n, m, 1, 0)
                z = zz[0] if rng.random() < .7 else mod.H[0] @ mod.x0
                cs.log.append(text)
                if np.linalg.cond(mod.H[0] @ mod.P0 @ mod.H[0].T + mod.R[0]) > 1e9 and not np.diag(mod.R[0]).all():
                    mod = mod.replace(R=mod.R + np.eye(m))
            if kind == "scaled":
                z = mod.H[0] @ mod.x0 + np.sqrt(np.diag(mod.R[0])) * rng.normal(size=m)
            if kind == "cert":            # perfectly known components, perfectly measured components
                P = mod.P0 * 0
                k = int(rng.integers(0, n))
                P[:k, :k] = gen.pd(rng, k) if k else 0
                mod = mod.replace(P0=P)
                if m == 1 and n > 1 and k and rng.random() < 0.5:
                    mod = mod.replace(R=mod.R * 0, H=np.ones((1, 1, n)))
            if kind == "f32":
                mod, z, _ = f32(mod, z, None)
            rp = {"int": as_int, "f32": to_f32, "fortran": lambda _n, a: np.asfortranarray(a)}.get(kind, lambda _n, a: a)
            if kind == "typed":
                mod, (z,), forms, rp = typed(rng, mod, ("z", z))
                cs.log.append(" ".join("%s:%s" % (k, forms[k]) for k in "HxPzR"))
            args = dict(Hk=rp("H", mod.H[0]), xk=rp("x", mod.x0), Pk=rp("P", mod.P0), zk=rp("z", z), Rk=rp("R", mod.R[0]))
            if kind == "scalarz":
                if rng.random() < 0.6:
                    args["zk"] = float(z[0]) if rng.random() < .5 else np.float64(z[0])
                if rng.random() < 0.5:
                    args["Rk"] = float(mod.R[0, 0, 0])
            if rng.random() < 0.25:
                args = {k: np.array(v) for k, v in args.items()}
                for v in args.values():
                    v.flags.writeable = False
            pos = rng.random() < 0.3
            call = (lambda: h.obj.update(*args.values())) if pos else (lambda: h.obj.update(**args))
            cs.update(h, mod, z, call=call, watched=list(args.values()), want=["raise", "x", "P", "K", "gcount"], pure="pure")
        yield cs


def nonlinear(rng, n, m, T, c, op="filter", p=.5, **kw):
    """(extended model, observations, controls): polynomial, or with a bounded nonlinearity."""
    s = world.nets(rng, n, m, T, c, op) if rng.random() < p else None
    if s:
        return s[:3]
    mod = gen.ekf(rng, n, m, T, c, **kw)
    u = gen.ctl(rng, T, c, True) if c and rng.random() < .7 else None
    mod, z = gen.ekf_run(rng, mod, u)
    return mod, z, u


def styled(rng, mod, p=.5):
    """The model with callbacks that return their values in some admissible form."""
    if rng.random() < p:
        mod.style = {k: str(rng.choice(EKF.STYLES)) for k in ("f", "JA", "h", "JH") if rng.random() < .7}
        if rng.random() < .4:
            mod.style["f"] = "same"
    return mod


def gated(rng, n, m, T, nice=True):
    """(extended model, controls): f(x,u) = u0 A x + u1 b, so that a zero control forgets the state."""
    def comp(i):
        e = lambda j, k: [int(a == j) + int(a == n + k) for a in range(n + 2)]
        return [(float(gen.q(rng, (), 4, 4)) + (1.0 if i == j else 0.0), e(j, 0)) for j in range(n)] + [(float(gen.q(rng, (), 4, 4)), e(-1, 1))]
    f, h = Poly([comp(i) for i in range(n)]), gen.poly(rng, m, n, 0, 1)
    mod = EKF(f, h, np.array([gen.pd(rng, n, True, .5) for _ in range(T)]), np.array([gen.pd(rng, m, True, .5) for _ in range(T)]),
              gen.q(rng, n, 4, 4), gen.pd(rng, n, True, .5), m, 2)
    u = np.stack([rng.choice([.5, .75, 1.0, -.5], size=T), gen.q(rng, T, 2, 4)], axis=1)
    return mod, u


def stuck(rng, n, m, T, k, where="forward"):
    """(extended model, observations, controls): the correction of step k, or the backward step before it, is undefined."""
    mod, u = gated(rng, n, m, T)
    Q, R = mod.Q.copy(), mod.R.copy()
    u[k] = 0, gen.q(rng, (), 2, 4)
    Q[k] = 0
    if where == "forward":
        R[k] = 0
    mod = mod.replace(Q=Q, R=R)
    return mod, gen.ekf_obs(rng, mod, u), u


# ------------------------------------------------------------------ K05
def K05(rng, tier, export):
    for i, (mod, z, u) in enumerate(exported(rng, tier, export, 40)):
        # absent controls and control matrices of the pool, replaced by zeros
        cs = Case("K05-spec")
        units(rng, cs)
        op = ["filter", "smooth"][i % 2]
        a = cs.run(cs.new(mod), op, z, u)
        b = cs.run(cs.new(mod.replace(B=np.nan_to_num(mod.B))), op, z, np.nan_to_num(u))
        cs.rel("absent", side(b), side(a), cmp=["x", "P", "K", "fail"], tol=1e-10)
        yield cs
    for i in range(reps(78, tier)):
        kind = (["omit", "noB", "nanstep", "shift", "cov", "int", "nonlin", "f32", "intmix"] * 8 + ["nanstep", "noB"] * 3)[i % 78]
        n, m, c = gen.dims(rng, 3, 3, 3)
        T = int(rng.choice([1, 2, 3, 5, 8, 14]))
        op = "filter" if rng.random() < 0.5 else "smooth"
        if i == 57:                         # a shift, late in a long run
            n, m, T = 1, 1, 1100
        if kind not in ("nonlin", "f32", "int", "intmix", "shift"):
            n, m, T = stretch(rng, i, n, m, T, 11)
            if i % 78 >= 72:
                n, m, T = int(rng.integers(1, 3)), 1, int(rng.choice([70, 90, 130, 200, 270, 320]))
        cs = Case("K05-" + kind, **(dict(eps=F32) if kind == "f32" else {}))
        if kind not in ("int", "f32", "intmix"):
            units(rng, cs)
        if kind == "shift" and rng.random() < .5:       # states tiny or huge as numbers, and so the effect of a control
            cs.zoom = tuple(2.0 ** float(rng.choice([-1, 1]) * rng.integers(28, 50)) for _ in range(3))
        cs.log.append("%s n=%d m=%d c=%d T=%d" % (op, n, m, c, T))
        if kind == "nonlin":
            # extended filter: an all-NaN control at a step means zero control
            mod, z, u = nonlinear(rng, n, m, T, c, op)
            u = gen.ctl(rng, T, c, True, absent=False) if u is None or mod.kind == "ekf" else np.nan_to_num(u)
            if mod.kind == "ekf":
                mod, z = gen.ekf_run(rng, mod, u)
            mask = rng.random(T) < 0.5
            u0, un = u.copy(), u.copy()
            u0[mask], un[mask] = 0.0, np.nan
            a = cs.run(cs.new(mod), op, z, u0)
            b = cs.run(cs.new(mod), op, z, un)
            cs.rel("absent", side(a), side(b), cmp=["x", "P", "K", "fail"], tol=1e-9)
            d = cs.run(cs.new(mod), op, z, u * 0)
            e = cs.run(cs.new(mod), op, z)
            cs.rel("absent", side(d), side(e), cmp=["x", "P", "K", "fail"], tol=1e-9)
            yield cs
            continue
        mod = gen.kf(rng, n, m, T, c, nice=True)
        u = gen.ctl(rng, T, c, absent=False)
        z = gen.obs(rng, mod, u=u)
        at, step = int(rng.integers(T)), False
        if kind in ("omit", "noB", "nanstep", "shift", "cov"):
            def runs(mod, z, u):
                H = mod.H.copy()
                H[at] = 0
                if kind == "shift":
                    return [(mod.replace(H=H), z, u), (mod.replace(H=H), z, u * 0)]
                return [(mod, z, u), (mod, z, u * 0)]
            s = world.scene(rng, n, m, T, c, op if kind != "shift" else "filter", .6, True, runs)
            if s:
                mod, z, u, text = s
                step = True
                cs.log.append(text)
        rep = lambda _n, a: a
        tol = 1e-9
        zarg = z
        if kind == "int":
            mod = integer_model(rng, n, m, T, c)
            u = rng.integers(-3, 4, size=(T, c)).astype(float)
            z = rng.integers(-5, 6, size=(T, m)).astype(float)
            rep = lambda name, a: np.asarray(a).astype(int)
            zarg = z.astype(int)
        if kind == "f32":
            mod, z, u = f32(mod, z, u)
            rep, zarg, tol = to_f32, z.astype(np.float32), 2e-4
        if kind == "intmix":
            # an integer model whose control part is not: scaling B and u against each other changes nothing
            im = integer_model(rng, n, m, T, c)
            u = rng.integers(-3, 4, size=(T, c)).astype(float)
            z = rng.integers(-5, 6, size=(T, m)).astype(float)
            ints = {k for k in ("A", "H", "Q", "R", "xk", "Pk", "Z") if rng.random() < .7}
            rep = lambda name, a: np.asarray(a).astype(int) if name in ints else a
            zarg = rep("Z", z)
            ref = cs.run(cs.new(im), op, z, u)
            for fb, fu in ((.25, 4.0), (4.0, .25)):
                e = cs.run(cs.new(im.replace(B=im.B * fb), rep=rep), op, z, u * fu, zarg=zarg)
                cs.rel("own-scale", side(ref), side(e), tol=tol)
            e = cs.run(cs.new(im, rep=lambda name, a: np.asarray(a).astype(int) if name == "B" else a), op, z, u)
            cs.rel("own-scale", side(ref), side(e), tol=tol)
            un = u.copy()
            un[rng.integers(T)] = np.nan
            a = cs.run(cs.new(im), op, z, np.nan_to_num(un))
            b = cs.run(cs.new(im, rep=rep), op, z, un, zarg=zarg)
            cs.rel("absent", side(a), side(b), tol=tol, step=step)
        if kind in ("omit", "int", "f32"):
            ref = cs.run(cs.new(mod, rep=rep), op, z, u * 0, zarg=zarg, uarg=rep("U", u * 0))
            alts = [cs.run(cs.new(mod, rep=rep), op, z, None, zarg=zarg),
                    cs.run(cs.new(mod.replace(B=None), rep=rep), op, z, None, zarg=zarg),
                    cs.run(cs.new(mod.replace(B=None), rep=rep), op, z, u, zarg=zarg, uarg=rep("U", u)),
                    cs.run(cs.new(mod, rep=rep), op, z, u * np.nan, zarg=zarg, uarg=u * np.nan),
                    cs.run(cs.new(mod.replace(B=mod.B * 0), rep=rep), op, z, u, zarg=zarg, uarg=rep("U", u))]
            if T > 1:
                alts.append(cs.run(cs.new(mod, rep=rep), op, z, None, zarg=[r for r in zarg]))
            for e in alts:
                cs.rel("absent", side(ref), side(e), tol=tol, step=step)
        elif kind == "noB":
            Bn = mod.B.copy()
            mask = gen.absent(rng, T, i % 78 >= 72)
            Bn[mask] = np.nan
            B0 = mod.B.copy()
            B0[mask] = 0
            a = cs.run(cs.new(mod.replace(B=B0)), op, z, u)
            b = cs.run(cs.new(mod.replace(B=Bn)), op, z, u)
            cs.rel("absent", side(a), side(b), tol=tol, step=step)
        elif kind == "nanstep":
            mask = gen.absent(rng, T, i % 78 >= 72)
            u0, un = u.copy(), u.copy()
            u0[mask], un[mask] = 0.0, np.nan
            a = cs.run(cs.new(mod), op, z, u0)
            b = cs.run(cs.new(mod), op, z, un)
            cs.rel("absent", side(a), side(b), tol=tol, step=step)
        elif kind == "shift":
            # nothing is observed at step k, so the estimate there is the prediction
            k = at
            H = mod.H.copy()
            H[k] = 0
            mod = mod.replace(H=H)
            u0 = u.copy()
            u0[k] = 0 if rng.random() < 0.5 else np.nan
            v = u[k] if np.abs(u[k]).max() > 0 else rng.normal(size=c)
            if T > 1000:
                v = rng.normal(size=c) * 8
            u1 = u.copy()
            u1[k] = v
            a = cs.run(cs.new(mod), "filter", z, u0)
            b = cs.run(cs.new(mod), "filter", z, u1)
            cs.rel("own-step", side(a, idx=[k + 1], off=[mod.B[k] @ v]), side(b, idx=[k + 1]), cmp=["x"], tol=1e-9, step=step)
            if k:
                cs.rel("earlier", side(a, idx=range(1, k + 1)), side(b, idx=range(1, k + 1)), tol=1e-10, step=step)
            cs.rel("cov", side(a), side(b), cmp=["P", "K"], tol=1e-10, step=step)
            # later observations of the same kind: the effect at step j > k is linear in v
            u2 = u.copy()
            u2[k] = -2 * v
            d = cs.run(cs.new(mod), "filter", z, u2)
            u3 = u.copy()
            u3[k] = 0
            f = cs.run(cs.new(mod), "filter", z, u3)
            cs.rel("linear", side(f, b, w=[3.0, -2.0]), side(d), cmp=["x"], tol=1e-8, step=step)
            cs.rel("linear", side(f), side(a), cmp=["x"], tol=1e-9, step=step)
        elif kind == "cov":
            a = cs.run(cs.new(mod), op, z, u)
            b = cs.run(cs.new(mod), op, z, rng.normal(size=(T, c)) * 10.0 ** rng.integers(0, 9))
            d = cs.run(cs.new(mod), op, z, None)
            cs.rel("cov", side(a), side(b), cmp=["P", "K"], tol=1e-10, step=step)
            cs.rel("cov", side(a), side(d), cmp=["P", "K"], tol=1e-10, step=step)
        yield cs


# ------------------------------------------------------------------ histories (K06, K07)
def decode_history_models(exp):
    """Models, data and direct-call arguments exported by MCHist."""
    from enc import dec
    arr = lambda v: np.array(dec(v), dtype=float)
    mods = []
    for m in exp["models"]:
        if m["kind"] == "kf":
            mods.append(KF(arr(m["A"]), arr(m["B"]) if m["B"] else None, arr(m["H"]), arr(m["Q"]), arr(m["R"]), arr(m["x0"]),
                           arr(m["P0"])))
        else:
            from enc import unrat
            pol = lambda F: Poly([[(unrat(t["c"]), t["e"]) for t in comp] for comp in F])
            f, h = pol(m["f"]), pol(m["h"])
            n = len(m["x0"])
            mods.append(EKF(f, h, arr(m["Q"]), arr(m["R"]), arr(m["x0"]), arr(m["P0"]), len(m["h"]),
                            len(m["f"][0][0]["e"]) - n))
    data = [[(arr(d["z"]), arr(d["u"]) if d["u"] else None) for d in ds] for ds in exp["data"]]
    pokes = [[dict(k=p["k"] - 1, x=arr(p["x"]), P=arr(p["P"]), d=p["d"] - 1) for p in ps] for ps in exp["pokes"]]
    return mods, data, pokes


def poke_model(mod, k, x, P):
    """One-step model holding the arguments of a direct call at step k."""
    if mod.kind == "kf":
        return mod.cut(k, k + 1, x0=x, P0=P)
    return mod.replace(Q=mod.Q[k:k + 1], R=mod.R[k:k + 1], x0=x, P0=P)


STOPS = np.random.default_rng(0)


def play(cs, h, mods, data, pokes, call, want, pure=None, scribble=None):
    """Executes one step of a history; returns the event index."""
    m, d = call["m"] - 1, call["d"] - 1
    if "k" in call:                  # made to fail from outside
        k = call["k"] - 1 if call["k"] else None
        if call["op"] == "update":
            p = pokes[m][d]
            z, u = data[m][p["d"]]
            return outside(STOPS, cs, h, mods[m], "update", z, u, poke_model(mods[m], p["k"], p["x"], p["P"]), p["k"], want, pure=pure)
        return outside(STOPS, cs, h, mods[m], call["op"], *data[m][d], None, k, want, pure=pure)
    if call["op"] in ("filter", "smooth"):
        z, u = data[m][d]
        return cs.run(h, call["op"], z, u, want=want, pure=pure)
    p = pokes[m][d]
    z, u = data[m][p["d"]]
    one = poke_model(mods[m], p["k"], p["x"], p["P"])
    if call["op"] == "predict":
        return cs.predict(h, one, u=None if u is None else u[p["k"]], want=want, pure=pure)
    return cs.update(h, one, z[p["k"]], want=want, pure=pure)


def pick_scripts(rng, scripts, count):
    stops = [s for s in scripts if any("k" in c for c in s)]
    if stops and len(stops) < len(scripts):
        return pick_scripts(rng, [s for s in scripts if all("k" not in c for c in s)], count * 2 // 3) + pick_scripts(rng, stops, count // 3)
    if len(scripts) <= count:
        return scripts
    return [scripts[j] for j in rng.choice(len(scripts), size=count, replace=False)]


GW = ["gcount", "K", "empty"]


def instruments(rng, one, z):
    """The one-step model with fewer or more observed components."""
    m = one.m
    if m > 1 and rng.random() < .5:
        ix = np.sort(rng.permutation(m)[:int(rng.integers(1, m))])
        return one.replace(H=one.H[:, ix], R=one.R[:, ix][:, :, ix]), z[ix]
    R = np.zeros((1, m + 1, m + 1))
    R[0, :m, :m], R[0, m, m] = one.R[0], .5
    return one.replace(H=np.concatenate([one.H, rng.normal(size=(1, 1, one.n))], axis=1), R=R), np.append(z, rng.normal())


def outside(rng, cs, h, mod, op, z, u, one, k, want, how=None, pure=None):
    """A call that something outside makes fail at step k: an observation that does not fit, or a callback that raises."""
    how = how or ("data" if mod.kind == "kf" else str(rng.choice(["data", "f", "JA", "h", "h", "JH"])))
    if op != "update":
        if u is None and rng.random() < .5:
            u = np.full((len(z), max(mod.c, 1)), np.nan)
        if k is None and how in ("data", "h", "JH"):
            how = "f" if rng.random() < .5 else "JA"
        if mod.kind == "kf":
            k, how = len(z) - 1 if k is None else k, "data"
        cs.log.append("%s stopped by %s at %s" % (op, how, k))
        return cs.run(h, op, z, u, want=want, stop=(k, how), pure=pure)
    cs.log.append("update stopped by " + how)
    seen, zk = zoomed(one, h.zoom), times(z[k], h.zoom[1] if h.zoom else 1)
    args = dict(xk=seen.x0, Pk=seen.P0, zk=zk, Rk=seen.R[0])
    if mod.kind == "kf":
        args["Hk"] = seen.H[0]
    if how in ("data", "f", "JA"):
        args["zk"] = np.append(zk, 1.0)

    def hook(fn):
        raise Outside()

    def call():
        if how in ("h", "JH"):
            mod.hook = hook
        try:
            return h.obj.update(**args)
        finally:
            if how in ("h", "JH"):
                mod.hook = None
    call.fails = True
    return cs.update(h, one, z[k], call=call, want=want, pure=pure)


def K06(rng, tier, export=None):
    mods, data, pokes = decode_history_models(export)
    for s in pick_scripts(rng, export["scripts"], reps(150, tier)):
        cs = Case("K06-script")
        units(rng, cs)
        cs.log.append(" ".join("%s/%d/%d" % (c["op"], c["m"], c["d"]) for c in s))
        h = None
        for c in s:
            if c["op"] == "new":
                h = cs.new(mods[c["m"] - 1], want=["empty"])
            else:
                play(cs, h, mods, data, pokes, c, GW)
        yield cs
    for i in range(reps(54, tier)):       # longer random histories on richer models
        nonlin = i % 3 == 2
        n, m, c = gen.dims(rng, 3, 3, 2)
        T = int(rng.choice([1, 2, 4, 7, 12]))
        if i == 4:
            n, m, T = 8, 5, 2
        if nonlin:
            mod = nonlinear(rng, n, m, T, c)[0]
        else:
            mod = world.model(rng, n, m, T, c)[0] if rng.random() < .5 else gen.kf(rng, n, m, T, c, nice=rng.random() < .5)
        cs = Case("K06-random" + ("-ekf" if nonlin else ""))
        units(rng, cs)
        h = cs.new(mod, want=["empty"])
        for _ in range(int(rng.integers(2, 7))):
            op = str(rng.choice(["filter", "smooth", "predict", "update"]))
            t = int(rng.integers(1, T + 1))
            u = gen.ctl(rng, T, c) if rng.random() < .6 else None
            z = gen.ekf_obs(rng, mod, None if u is None else np.nan_to_num(u)) if nonlin else world.data(rng, mod, u)[0]
            k = int(rng.integers(T))
            one = poke_model(mod, k, mod.x0 * 0.5, mod.P0)
            if op in ("filter", "smooth"):
                cs.run(h, op, z[:t], None if u is None else u[:t], want=GW)
            elif op == "predict":
                cs.predict(h, one, u=None if u is None else u[k], want=GW)
            else:
                other, zk = one, z[k]
                if not nonlin and rng.random() < .5:      # by other instruments than the object's own
                    other, zk = instruments(rng, one, zk)
                cs.update(h, other, zk, want=GW)
            if rng.random() < .3:         # an undefined correction, directly or inside a run
                zero = one.replace(P0=one.P0 * 0, R=one.R * 0)
                cs.update(h, zero, z[k], want=GW)
            if mod.kind != "tab" and rng.random() < .3:
                op = str(rng.choice(["filter", "smooth", "update"]))
                outside(rng, cs, h, mod, op, z[:t], None if u is None else u[:t], one, int(rng.integers(t)) if rng.random() < .8 or
                        op != "smooth" else None, GW)
        yield cs
    for i in range(reps(18, tier)):       # runs that fail on their way
        n, m, c = gen.dims(rng, 3, 3, 2)
        T = int(rng.choice([2, 3, 5, 8]))
        k = int(rng.integers(0, T))
        cs = Case("K06-stuck" + ("-ekf" if i % 2 else ""))
        units(rng, cs)
        cs.log.append("T=%d step=%d" % (T, k))
        if i % 2:
            mod, z, u = stuck(rng, n, m, T, max(k, 1) if i % 3 == 2 else k, "backward" if i % 3 == 2 else "forward")
        else:
            mod = gen.kf(rng, n, m, T, c, nice=True)
            A, Q, R = mod.A.copy(), mod.Q.copy(), mod.R.copy()
            if k:
                A[k] = 0
            Q[k] = 0
            R[k] = 0
            mod, u = mod.replace(A=A, Q=Q, R=R, **({} if k else dict(P0=mod.P0 * 0))), None
            z = gen.obs(rng, mod)
        h = cs.new(mod, want=["empty"])
        for _ in range(int(rng.integers(2, 5))):
            op = str(rng.choice(["filter", "smooth"]))
            t = T if rng.random() < .6 else int(rng.integers(1, T + 1))
            cs.run(h, op, z[:t], None if u is None else u[:t], want=GW)
            if rng.random() < .4:
                cs.update(h, poke_model(mod, 0, mod.x0, mod.P0 + np.eye(n)).replace(R=np.eye(m)[None]), z[0], want=GW)
        yield cs
    for i in range(reps(2, tier)):        # long life
        mod = gen.kf(rng, 1, 1, 260, 0, nice=True)
        cs = Case("K06-long")
        h = cs.new(mod, want=["empty"])
        cs.run(h, "filter", gen.obs(rng, mod), want=GW)
        cs.run(h, "smooth", gen.obs(rng, mod), want=GW)
        yield cs
    for i in range(reps(3, tier)):        # longer ones: many calls, thousands of gains
        mod = [gen.kf(rng, 1, 1, 400, 0, nice=True), gen.kf(rng, 2, 1, 30, 1, nice=True), gen.tabmodel(rng, "exp", 300)][i % 3]
        cs = Case("K06-life")
        h = cs.new(mod, want=["empty"])
        z = gen.obs(rng, mod) if mod.kind == "kf" else gen.ekf_obs(rng, mod)
        for j in range([8, 40, 5][i % 3]):
            t = mod.T - int(rng.integers(0, 3))
            cs.run(h, ["filter", "smooth"][j % 4 == 3], z[:t], want=["gcount", "empty"])
        yield cs


def twin(rng, z, u):
    """Other data much like the ones given: (observations, controls, what differs)."""
    z, u = z.copy(), None if u is None else u.copy()
    T = len(z)
    k = str(rng.choice(["inner", "inner", "last", "first", "order", "sign", "small", "control", "shift", "prefix"]))
    if k == "control" and u is None:
        k = "inner"
    if k == "inner":
        z[int(rng.integers(T)) if T < 3 else int(rng.integers(1, T - 1)), int(rng.integers(z.shape[1]))] += float(rng.choice([1.0, -.5, 20]))
    elif k == "last":
        z[-1] += rng.normal(size=z.shape[1])
    elif k == "first":
        z[0] += rng.normal(size=z.shape[1])
    elif k == "order":
        z = z[rng.permutation(T)]
    elif k == "sign":
        z = -z
    elif k == "small":
        z = z * (1 + 2.0 ** -16)
    elif k == "control":
        u[int(rng.integers(T))] = rng.normal(size=u.shape[1])
    elif k == "shift":
        z = z + rng.normal()
    elif T > 1:
        t = int(rng.integers(1, T))
        z, u = z[:t], None if u is None else u[:t]
    return z, u, k


def K07(rng, tier, export=None):
    mods, data, pokes = decode_history_models(export)

    def fresh(cs, memo, mods, data, pokes, c, model):
        key = (c["op"], c["m"], c["d"])
        if key not in memo:
            memo[key] = play(cs, cs.new(model), mods, data, pokes, c, [], pure="pure")
        return memo[key]

    for s in pick_scripts(rng, export["scripts"], reps(160, tier)):
        cs = Case("K07-script")
        cs.log.append(" ".join("%s/%d/%d" % (c["op"], c["m"], c["d"]) for c in s))
        h, memo, earlier = None, {}, []
        for c in s:
            if c["op"] == "new":
                model = mods[c["m"] - 1]
                h = cs.new(model)
                continue
            if "k" in c:            # made to fail from outside: no result to compare
                play(cs, h, mods, data, pokes, c, [], pure="pure")
                continue
            ref = fresh(cs, memo, mods, data, pokes, c, model)
            e = play(cs, h, mods, data, pokes, c, [], pure="pure")
            cs.rel("fresh", side(ref), side(e), cmp=["x", "P", "K", "fail"] if c["op"] != "predict" else ["x", "P", "fail"], tol=1e-11)
            for out, dg in earlier:
                cs.same("earlier-results", dg, digest(*out))
            out = cs.raw[e - 1][2]
            if isinstance(out, tuple):
                earlier.append((out, digest(*out)))
        yield cs
    for i in range(reps(60, tier)):
        nonlin = i % 3 == 2
        n, m, c = gen.dims(rng, 3, 3, 2)
        T = int(rng.choice([1, 2, 3, 6, 10]))
        if not nonlin:
            n, m, T = stretch(rng, i // 3 * 2 + i % 3, n, m, T, 16)
        if nonlin:
            mod = nonlinear(rng, n, m, T, c)[0]
        else:
            mod = world.tamed(rng, n, m, T, c, "smooth")[0] if rng.random() < .5 else gen.kf(rng, n, m, T, c, nice=True)
        cs = Case("K07-random" + ("-ekf" if nonlin else ""))
        h = cs.new(mod)
        calls = []
        for _ in range(3):
            u = gen.ctl(rng, T, c) if rng.random() < .6 else None
            z = gen.ekf_obs(rng, mod, None if u is None else np.nan_to_num(u)) if nonlin else gen.obs(rng, mod)
            t = int(rng.integers(1, T + 1))
            calls.append((z[:t].copy(), None if u is None else u[:t].copy()))
            if rng.random() < .5:
                z, u, what = twin(rng, *calls[-1])
                calls.append((z, u))
                cs.log.append(what)
        scribble = i % 2 == 0
        earlier, memo = [], {}
        for step in range(int(rng.integers(3, 8))):
            op = str(rng.choice(["filter", "smooth", "predict", "update"]))
            j = int(rng.integers(len(calls)))
            z, u = calls[j]
            if step and rng.random() < .25:    # the caller's own arrays hold other numbers by now
                w = twin(rng, z, u)
                if w[0].shape == z.shape:
                    z[...] = w[0]
                    if u is not None:
                        u[...] = w[1]
                    memo = {key: v for key, v in memo.items() if key[1] != j}
                    cs.log.append("overwritten: " + w[2])
            k = int(rng.integers(len(z)))
            one = poke_model(mod, k, mod.x0 * 0.5, mod.P0)
            if rng.random() < .12 and op in ("filter", "smooth"):      # readings of single precision
                w, v = np.asarray(z, dtype=np.float32), None if u is None else np.asarray(u, dtype=np.float32)
                cs.log.append("single")
                e1, e2 = (cs.run(hh, op, w.astype(float), None if v is None else v.astype(float), zarg=w, uarg=v, pure="pure")
                          for hh in (cs.new(mod), h))
                cs.rel("fresh", side(e1), side(e2), cmp=["x", "P", "K", "fail"], tol=1e-11)
                continue
            if rng.random() < .12 and op in ("filter", "smooth"):      # an unusable reading
                w = z.copy()
                w[int(rng.integers(len(w))), int(rng.integers(m))] = rng.choice([np.inf, -np.inf, np.nan])
                cs.log.append("unusable")
                e1, e2 = (cs.run(hh, op, w, u, pure="pure") for hh in (cs.new(mod), h))
                cs.rel("fresh", side(e1), side(e2), cmp=["x", "P", "K", "fail"], tol=1e-11)
                continue
            aslist = rng.random() < 0.25 and op in ("filter", "smooth")

            def go(hh, pure):
                if op in ("filter", "smooth"):
                    return cs.run(hh, op, z, u, pure=pure, zarg=[r for r in z] if aslist else z)
                if op == "predict":
                    return cs.predict(hh, one, u=None if u is None else u[k], pure=pure)
                return cs.update(hh, one, z[k], pure=pure)
            if mod.kind != "tab" and op != "predict" and rng.random() < .15:
                outside(rng, cs, h, mod, op, z, u, one, k if op == "update" or rng.random() < .8 else None, [], pure="pure")
                continue
            if (op, j, k if op in ("predict", "update") else -1) not in memo:
                memo[op, j, k if op in ("predict", "update") else -1] = go(cs.new(mod), "pure")
            ref = memo[op, j, k if op in ("predict", "update") else -1]
            e = go(h, "pure")
            cs.rel("fresh", side(ref), side(e), cmp=["x", "P", "K", "fail"] if op != "predict" else ["x", "P", "fail"], tol=1e-11)
            for out, dg in earlier:
                cs.same("earlier-results", dg, digest(*out))
            out = cs.raw[e - 1][2]
            if isinstance(out, tuple) and len(out) == 2:
                if scribble:
                    for a in out:
                        if isinstance(a, np.ndarray) and a.flags.writeable:
                            a[...] = 1e6
                else:
                    earlier.append((out, digest(*out)))
        # a failing call in between: an observation of the wrong shape
        bad = np.zeros((2, m + 1))
        good = [np.array(r) for r in calls[0][0]]
        k = int(rng.integers(len(good)))
        for f in (h.obj.filter, h.obj.smooth)[::int(rng.choice([-1, 1]))]:
            Case._guard(lambda: f(bad if rng.random() < .5 else good[:k] + [bad[0]] + good[k + 1:]))
        cs._gains(h)
        z, u = calls[0]
        for op in ("smooth", "filter")[::int(rng.choice([-1, 1]))]:
            cs.rel("fresh", side(cs.run(cs.new(mod), op, z, u)), side(cs.run(h, op, z, u, pure="pure")),
                   cmp=["x", "P", "K", "fail"], tol=1e-11)
        yield cs


# ------------------------------------------------------------------ K15
def K15(rng, tier, export=None):
    mods, data, pokes = decode_history_models(export)
    W = ["x", "P", "K", "sx", "sP", "gcount", "slast", "raise", "fabricated"]

    own = lambda name, a: np.array(a)            # arrays of the object's owner, which it may overwrite

    def vary(mod, alt, rng):
        """Some parts of mod replaced by those of alt."""
        parts = [p for p in (["A", "B", "H", "Q", "R", "x0", "P0"] if mod.kind == "kf" else ["f", "h", "Q", "R", "x0", "P0"])
                 if getattr(alt, p) is not None]
        r = rng.random()
        if r < .3:
            pick = ["x0", "P0"]
        elif r < .6:
            pick = [str(rng.choice(parts))]
        else:
            pick = [p for p in parts if rng.random() < .6] or parts
        kw = {p: getattr(alt, p) for p in pick}
        return mod.replace(**kw), [{"x0": "xk", "P0": "Pk"}.get(p, p) for p in pick]

    for s in pick_scripts(rng, export["scripts"], reps(130, tier)):
        cs = Case("K15-script")
        units(rng, cs)
        cs.log.append(" ".join("%s/%d/%d" % (c["op"], c["m"], c["d"]) for c in s))
        h, how = None, str(rng.choice(["replace", "inplace"]))
        for c in s:
            if c["op"] == "new":
                h = cs.new(mods[c["m"] - 1], rep=own)
            elif c["op"] == "set":
                cs.set(h, mods[c["m"] - 1], how)
            elif c["op"] == "clear":
                cs.clear(h)
            else:
                play(cs, h, mods, data, pokes, c, W)
        yield cs
    for i in range(reps(84, tier)):
        nonlin = i % 3 == 2
        n, m, c = gen.dims(rng, 3, 3, 2)
        T = int(rng.choice([1, 2, 3, 6, 9]))

        def model(flavour=None):
            if not nonlin:
                if rng.random() < .3:
                    return world.tamed(rng, n, m, T, c)[0]
                if rng.random() < .5:
                    r = gen.relmod(rng, n, m, T, c)
                    if (r.n, r.m, r.c, r.T) == (n, m, c, T):
                        return r
                return gen.kf(rng, n, m, T, c, nice=True)
            return gen.ekf_run(rng, gen.ekf(rng, n, m, T, c), gen.ctl(rng, T, c))[0]
        mod = model()
        if not nonlin and rng.random() < .5:      # begins as something that invites a shortcut
            eye = lambda d: np.array([np.eye(d)] * T)
            kw = {k: v for k, v in dict(A=eye(n), Q=eye(n) * float(rng.choice([0, .5, 1])), R=eye(m), P0=np.eye(n) * float(rng.integers(2)),
                                        x0=np.zeros(n), H=np.array([np.eye(m, n)] * T), B=None if mod.B is None else mod.B * 0).items()
                  if rng.random() < .5}
            mod = mod.replace(**kw)
        if not nonlin and rng.random() < .3:      # or constant in time
            mod = mod.replace(**{k: np.array([getattr(mod, k)[0]] * T) for k in "AHQR"})
        if not nonlin and c and rng.random() < .3:      # or without control so far, with room for it
            mod = mod.replace(B=np.full((T, n, c), np.nan)) if n != c or rng.random() < .3 else mod.replace(B=None)
        cs = Case("K15-random" + ("-ekf" if nonlin else ""))
        units(rng, cs)
        aslist = rng.random() < .2
        h = cs.new(mod, rep=(lambda name, a: [np.array(v) for v in a] if name in "AHQR" else np.array(a)) if aslist else own)
        calls, alone = [], []
        for step in range(int(rng.integers(3, 7))):
            t = int(rng.integers(1, T + 1))
            op = str(rng.choice(["filter", "smooth", "filter", "smooth", "predict", "update"]))
            u = gen.ctl(rng, T, c) if rng.random() < .6 else None
            if nonlin:
                z = gen.ekf_obs(rng, mod, None if u is None else np.nan_to_num(u))
            else:
                z = gen.obs(rng, mod)
            if calls and rng.random() < .5:
                z, u = calls[int(rng.integers(len(calls)))]
            calls.append((z, u))
            cut = lambda a: None if a is None else a[:t]
            k = int(rng.integers(T))
            if op in ("filter", "smooth"):
                e = cs.run(h, op, z[:t], cut(u), want=W)
                alone.append((mod, op, z[:t], cut(u), e))
                if op == "filter" and rng.random() < .5 and np.isfinite(cs.raw[e - 1][0]).all():
                    # going on from where the run ended
                    x, P = cs.raw[e - 1][:2]
                    mod = mod.replace(x0=np.array(x[-1]), P0=np.array(P[-1]))
                    cs.set(h, mod, str(rng.choice(["replace", "inplace"])), ["xk", "Pk"])
            elif op == "predict":
                cs.predict(h, poke_model(mod, k, mod.x0 * .5, mod.P0), u=None if u is None else u[k], want=W)
            else:
                cs.update(h, poke_model(mod, k, mod.x0 * .5, mod.P0), z[k], want=W)
            if rng.random() < .75:
                mod, names = vary(mod, model(), rng)
                cs.set(h, mod, str(rng.choice(["replace", "inplace"])), names)
            if not aslist and rng.random() < .4:          # one of the series holds more steps than the others
                a = str(rng.choice([a for a in "ABBHQR" if isinstance(h.args.get(a), np.ndarray)]))
                v = getattr(zoomed(mod, h.zoom), a)
                h.args[a] = np.concatenate([v, v[:int(rng.integers(1, T + 1))] * 2])
                setattr(h.obj, a, h.args[a])
                cs.log.append("longer " + a)
            if rng.random() < .2:
                cs.clear(h)
        if nonlin:
            alone = alone[:1]
        for mod1, op, z, u, e in alone:
            if not nonlin and not world.fits(rng, op, (mod1, z, u)):
                continue
            f = cs.run(cs.new(mod1), op, z, u)
            cs.rel("fresh", side(f), side(e), cmp=["x", "P", "K", "fail"], tol=1e-10)
        yield cs


# ------------------------------------------------------------------ K08
def K08(rng, tier):
    for i in range(reps(120, tier)):
        kind = ["prefix", "prefix", "later-data", "later-params", "later-nan", "ekf-prefix", "ekf-later", "later-control", "ekf-later-nan",
                "later-extreme"][i % 10]
        n, m, c = gen.dims(rng, 4, 3, 2)
        T = int(rng.choice([2, 3, 5, 9, 16, 40, 64, 110]))
        nonlin = kind.startswith("ekf")
        if nonlin:
            T = min(T, 9)
        else:
            if T > 40:
                n, m = min(n, 2), min(m, 2)
            n, m, T = stretch(rng, i, n, m, T, 22)
        s = None if nonlin else world.scene(rng, n, m, T, c)
        cs = Case("K08-" + kind)
        if kind != "later-extreme":
            units(rng, cs)
        if s:
            mod, z, u, text = s
            cs.log.append(text)
        else:
            if nonlin:
                mod, z, u = nonlinear(rng, n, m, T, c)
            else:
                mod = gen.relmod(rng, n, m, T, c)
                n, m, T = mod.n, mod.m, mod.T
                u = gen.ctl(rng, T, c) if rng.random() < 0.7 else None
                z = gen.wild(rng, gen.obs(rng, mod))
        step = bool(s)
        full = cs.run(cs.new(mod), "filter", z, u)
        t = int(rng.integers(1, T))
        if kind in ("prefix", "ekf-prefix"):
            ts = sorted({1, t, T - 1})
            for t in ts:
                e = cs.run(cs.new(mod), "filter", z[:t], None if u is None else u[:t])
                cs.rel("prefix", side(full, idx=range(1, t + 1)), side(e), tol=1e-10, step=step)
            yield cs
            continue
        z2, u2, mod2 = z.copy(), None if u is None else u.copy(), mod
        big = 10.0 ** rng.integers(0, 9)
        if kind in ("later-data", "ekf-later"):
            z2[t:] = rng.normal(size=z2[t:].shape) * (big if not nonlin else 2)
            if u2 is not None:
                u2[t:] = rng.normal(size=u2[t:].shape) * (big if not nonlin else 1)
            if nonlin:
                Q = mod.Q.copy()
                Q[t:] *= 4
                mod2 = mod.replace(Q=Q)
        elif kind == "later-control":
            if u2 is None:
                u = u2 = gen.ctl(rng, T, c)
                full = cs.run(cs.new(mod), "filter", z, u)
                u2 = u.copy()
            u2[t:] = rng.normal(size=u2[t:].shape) * big
        elif kind in ("later-nan", "ekf-later-nan"):
            v = rng.choice([np.nan, np.inf, -np.inf, 1e308])
            z2[t:] = v
            if u2 is not None and rng.random() < .5:
                u2[t:, 0] = v
        elif kind == "later-extreme":
            # one family of later parameters (or data) so large that nothing else is visible next to it
            nm = str(rng.choice(["A", "H", "Q", "R", "B", "z", "u"]))
            f = float(rng.choice([1e18, 1e40, 1e150, np.inf, np.nan, 1e-40, 0.0]))
            if nm == "z":
                z2[t:] *= f
            elif nm == "u" and u2 is not None:
                u2[t:] *= f
            elif nm in "AHQRB":
                v = getattr(mod, nm).copy()
                v[t:] = v[t:] * f
                mod2 = mod.replace(**{nm: v})
        else:
            A, H, Q, R, B = (a.copy() for a in (mod.A, mod.H, mod.Q, mod.R, mod.B))
            s = rng.normal()
            A[t:] = A[t:] * s + rng.normal(size=A[t:].shape)
            H[t:] = rng.normal(size=H[t:].shape) * big
            Q[t:] = Q[t:] * big
            R[t:] = R[t:] * (1 + s * s)
            B[t:] = rng.normal(size=B[t:].shape)
            if rng.random() < 0.2:
                A[t:] = np.nan
            mod2 = mod.replace(A=A, H=H, Q=Q, R=R, B=B)
        with np.errstate(all="ignore"):
            h2 = cs.new(mod2)
            e = cs.run(h2, "filter", z2, u2)
        ix = range(1, t + 1)
        if kind in ("later-nan", "ekf-later-nan") or cs.events[e - 1]["ok"] or cs.events[e - 1]["err"] != "LinAlgError":
            cs.rel("causal", side(full, idx=ix), side(e, idx=ix), tol=1e-10, step=step)
        yield cs


# ------------------------------------------------------------------ K09
def K09(rng, tier):
    for i in range(reps(110, tier)):
        nonlin = i % 3 == 2
        kind = ["split", "hand"][i % 2]
        n, m, c = gen.dims(rng, 4, 3, 2)
        T = int(rng.choice([2, 3, 5, 9, 16, 24, 40])) if not nonlin else int(rng.choice([2, 3, 5, 8]))
        if not nonlin:
            n, m, T = stretch(rng, i, n, m, T, 17)
            if i % 12 == 6:
                n, m, T = min(n, 3), min(m, 2), int(rng.integers(51, 120))
        cs = Case("K09-%s%s" % (kind, "-ekf" if nonlin else ""))
        units(rng, cs)
        s = None if nonlin else world.scene(rng, n, m, T, c)
        if s:
            mod, z, u, text = s
            cs.log.append(text)
        else:
            if nonlin:
                mod, z, u = nonlinear(rng, n, m, T, c)
                if rng.random() < .15:
                    mod = mod.replace(P0=np.zeros((n, n)))
            else:
                mod = gen.relmod(rng, n, m, T, c)
                n, m, T = mod.n, mod.m, mod.T
                u = gen.ctl(rng, T, c) if rng.random() < 0.7 else None
                z = gen.wild(rng, gen.obs(rng, mod))
        step = bool(s)
        full = cs.run(cs.new(mod), "filter", z, u)
        if kind == "split":
            cuts = sorted({0, T} | {int(rng.integers(1, T)) for _ in range(int(rng.integers(1, 4)))})
            es, x, P = [], mod.x0, mod.P0
            for a, b in zip(cuts, cuts[1:]):
                piece = mod.cut(a, b, x0=x, P0=P) if not nonlin else mod.replace(Q=mod.Q[a:b], R=mod.R[a:b], x0=x, P0=P)
                e = cs.run(cs.new(piece), "filter", z[a:b], None if u is None else u[a:b])
                es.append(e)
                out = cs.raw[e - 1][2]
                if not cs.events[e - 1]["ok"]:
                    break
                x, P = np.array(out[0][-1]), np.array(out[1][-1])
            cs.rel("split", side(full), side(*es), tol=1e-9, step=step)
        else:
            h = cs.new(mod)
            x, P, es = mod.x0, mod.P0, []
            reuse = rng.random() < 0.3 and not nonlin
            for k in range(T):
                uk = None if u is None else u[k]
                one = poke_model(mod, k, np.array(x, dtype=float), np.array(P, dtype=float))
                ep = cs.predict(h, one, u=uk)
                if not cs.events[ep - 1]["ok"]:
                    es.append(ep)
                    break
                x, P = cs.raw[ep - 1][2]
                one = poke_model(mod, k, np.asarray(x, dtype=float), np.asarray(P, dtype=float))
                eu = cs.update(h, one, z[k])
                es.append(eu)
                if not cs.events[eu - 1]["ok"]:
                    break
                x, P = cs.raw[eu - 1][2]
            cs.rel("hand", side(full), side(*es), tol=1e-9, step=step)
        yield cs


# ------------------------------------------------------------------ K10
def K10(rng, tier, export):
    yield from replay(rng, tier, export, 40, "filter", ["raise", "cov"], "K10")
    for i in range(reps(130, tier)):
        kind = ["update", "filter", "smooth", "ekf", "filter-long", "smooth", "diffuse1", "world-filter", "world-smooth", "world-smooth"][i % 10]
        n, m, c = gen.dims(rng, 4, 3, 1)
        T = int(rng.choice([1, 2, 4, 8, 15]))
        cs = Case("K10-" + kind, psd=1e-9)
        units(rng, cs)
        if kind == "ekf":
            T = min(T, 6)
            mod, z, u = nonlinear(rng, n, m, T, c, "smooth", nice=True)
            h = cs.new(mod)
            cs.run(h, "filter", z, u, want=["raise", "cov"])
            cs.run(h, "smooth", z, u, want=["raise", "cov", "slast"])
            one = poke_model(mod, 0, mod.x0, mod.P0)
            cs.update(h, one, z[0], want=["raise", "cov", "ord"])
        elif kind == "update":
            h = cs.new(gen.kf(rng, n, m, 1, 0))
            for _ in range(4):
                fl = str(rng.choice(["plain", "knownstart", "sparseH"]))
                mod = gen.kf(rng, n, m, 1, 0, flavour=fl)
                if rng.random() < .3:
                    mod, _, _ = gen.scale_units(mod, np.zeros((1, m)), None, 2.0 ** rng.integers(-10, 11, size=n), np.ones(m))
                cs.update(h, mod, rng.normal(size=m) * 5, want=["raise", "cov", "ord"])
        elif kind == "smooth":
            mod = gen.kf(rng, n, m, T, c, flavour=str(rng.choice(["plain", "sparseH"])), nice=rng.random() < .6)
            cs.run(cs.new(mod), "smooth", gen.obs(rng, mod), want=["raise", "cov", "sord", "slast"])
        elif kind.startswith("world"):
            op = kind[6:]
            mod, z, u, text = world.tamed(rng, n, m, T, c, op, limit=1e-10)
            if op == "smooth" and rng.random() < .5:      # poor knowledge first, precise one later, or the reverse
                s = int(rng.integers(T + 1))
                f = 10.0 ** rng.uniform(2, 6)
                R = mod.R.copy()
                R[s:] = R[s:] / f
                late = mod.replace(R=R, Q=mod.Q / f if rng.random() < .5 else mod.Q, P0=mod.P0 * f)
                if world.fits(rng, op, (late, z, u), limit=1e-10):
                    mod = late
            if rng.random() < .4:                            # unequal units of the state
                mod, z, u = world.rescaled(rng, mod, z, u, op)
            if not world.symmetric(mod, z, u, op):
                mod, u, text = gen.kf(rng, n, m, T, c, nice=True), None, "plain"
                z = gen.obs(rng, mod)
            cs.log.append(text)
            cs.run(cs.new(mod), op, z, u, want=["raise", "cov"] + (["sord", "slast"] if op == "smooth" else []))
        elif kind == "diffuse1":
            mod = gen.kf(rng, n, 1, T, c, flavour="diffuse")
            cs.run(cs.new(mod), "filter", gen.obs(rng, mod), want=["raise", "cov"])
        else:
            if kind == "filter-long":
                n, m, T = min(n, 2), 1, 150
            mod = gen.kf(rng, n, m, T, c, flavour=str(rng.choice(["plain", "lowq", "knownstart", "sparseH", "static"])))
            cs.run(cs.new(mod), "filter", gen.obs(rng, mod), want=["raise", "cov"])
        yield cs


# ------------------------------------------------------------------ K11
def K11(rng, tier):
    for i in range(reps(100, tier)):
        n, m, c = gen.dims(rng, 4, 3, 2)
        T = int(rng.choice([1, 2, 3, 6, 12, 30]))
        op = "filter" if i % 2 else "smooth"
        n, m, T = stretch(rng, i, n, m, T, 17)
        s = world.scene(rng, n, m, T, c, op)
        mod = s[0] if s else gen.relmod(rng, n, m, T, c)
        n, m, T, c = mod.n, mod.m, mod.T, mod.c
        cs = Case("K11-" + op)
        units(rng, cs)
        if s:
            cs.log.append(s[3])
        withu = rng.random() < 0.75
        if i % 5 == 0:
            # data independence under wild data, including repeated and exact observations
            ref = cs.run(cs.new(mod), op, gen.obs(rng, mod), gen.ctl(rng, T, c) if withu else None)
            for z in (np.zeros((T, m)), np.repeat(rng.normal(size=(1, m)), T, axis=0), rng.normal(size=(T, m)) * 1e6,
                      np.sign(rng.normal(size=(T, m))) * 1e-9, rng.normal(size=(T, m)) * 1e-30, np.arange(T * m).reshape(T, m) * 1e9, rng.normal(size=(T, m)) * 1e14):
                e = cs.run(cs.new(mod), op, z, rng.normal(size=(T, c)) * 1e3 if rng.random() < .5 else None)
                cs.rel("cov-free", side(ref), side(e), cmp=["P", "K"], tol=1e-10)
            yield cs
            continue
        k = int(rng.integers(2, 4))
        w = rng.integers(-6, 7, size=k - 1) / 4
        w = np.append(w, 1 - w.sum())
        scale = 10.0 ** rng.integers(-3, 4) if rng.random() < .4 else 1.0
        xs = [rng.normal(size=n) * scale for _ in range(k)]
        zs = [rng.normal(size=(T, m)) * scale for _ in range(k)]
        if rng.random() < 0.3:
            zs[0] = zs[0] * 0
        if rng.random() < 0.5:
            zs[-1] = gen.wild(rng, zs[-1])
        if rng.random() < 0.2:            # one data set far away altogether
            zs[0] = zs[0] * 10.0 ** rng.integers(3, 9)
        us = [rng.normal(size=(T, c)) * scale for _ in range(k)] if withu else None
        if withu and rng.random() < 0.3:
            us[0] = us[0] * 0
        step = False
        if s:
            zs = [world.data(rng, mod.replace(x0=xs[j]), us[j] if withu else None)[0] for j in range(k)]
            if withu and rng.random() < .4:
                j = int(rng.integers(k))
                us[j] = us[j] * 10.0 ** rng.integers(1, 9)
            if rng.random() < .3:
                j = int(rng.integers(k))
                xs[j] = xs[j] * 10.0 ** rng.integers(1, 9)
            step = world.fits(rng, op, *[(mod.replace(x0=xs[j]), zs[j], us[j] if withu else None) for j in range(k)])
            if not step:
                mod = gen.kf(rng, n, m, T, c, nice=True)
        es = [cs.run(cs.new(mod.replace(x0=xs[j])), op, zs[j], us[j] if withu else None) for j in range(k)]
        xc = sum(w[j] * xs[j] for j in range(k))
        zc = sum(w[j] * zs[j] for j in range(k))
        uc = sum(w[j] * us[j] for j in range(k)) if withu else None
        e = cs.run(cs.new(mod.replace(x0=xc)), op, zc, uc)
        cs.rel("affine", side(*es, w=w), side(e), cmp=["x"], tol=1e-8 if step else 1e-9, step=step)
        for j in es:
            cs.rel("cov-free", side(j), side(e), cmp=["P", "K"], tol=1e-10, step=step)
        yield cs


# ------------------------------------------------------------------ K12
def K12(rng, tier):
    for i in range(reps(126, tier)):
        kind = ["basis", "units", "units-uniform", "permute", "recombine", "control", "all"][i % 7]
        n, m, c = gen.dims(rng, 4, 3, 3)
        T = int(rng.choice([1, 2, 3, 6, 12]))
        op = "filter" if rng.random() < .5 else "smooth"
        n, m, T = stretch(rng, i, n, m, T, 18)
        if n > 8 or m > 8:
            kind = "units-uniform" if i % 36 > 18 else "units"
        s = world.scene(rng, n, m, T, c, op)
        if s:
            mod, z, u, text = s
        else:
            mod = gen.relmod(rng, n, m, T, c) if op == "filter" else gen.kf(rng, n, m, T, c, nice=True)
            n, m, c, T = mod.n, mod.m, mod.c, mod.T
            u = gen.ctl(rng, T, c) if rng.random() < .8 else None
            z = gen.wild(rng, gen.obs(rng, mod, u=u))
        M, W, C = np.eye(n), np.eye(m), np.eye(c)
        if kind in ("basis", "all"):
            M = np.eye(n)
            for _ in range(3):             # unimodular with small entries: exactly invertible in floating point
                a, b = rng.integers(n), rng.integers(n)
                if a != b:
                    E = np.eye(n)
                    E[a, b] = rng.choice([-1, 1, .5])
                    M = E @ M
            M = M[rng.permutation(n)]
        if kind == "units":
            M = np.diag(2.0 ** rng.integers(-9, 10, size=n))
            W = np.diag(2.0 ** rng.integers(-9, 10, size=m))
        if kind == "units-uniform":
            a, b = (rng.integers(-36, 37, size=2) if rng.random() < .5 else rng.integers(-190, 191, size=2)).tolist()
            M = np.eye(n) * 2.0 ** a
            W = np.eye(m) * 2.0 ** b
        if kind in ("permute", "all"):
            W = W[rng.permutation(m)]
        if kind == "recombine" and m > 1:
            for _ in range(3):
                a, b = rng.integers(m), rng.integers(m)
                if a != b:
                    E = np.eye(m)
                    E[a, b] = rng.choice([-1, 1, .5])
                    W = E @ W
        if kind in ("control", "all"):
            C = np.diag(2.0 ** rng.integers(-8, 9, size=c))[rng.permutation(c)]
        Mi, Wi, Ci = np.linalg.inv(M), np.linalg.inv(W), np.linalg.inv(C)
        sym = lambda a: (a + np.swapaxes(a, -1, -2)) / 2
        mod2 = KF(M @ mod.A @ Mi, M @ mod.B @ Ci, W @ mod.H @ Mi, sym(M @ mod.Q @ M.T), sym(W @ mod.R @ W.T), M @ mod.x0,
                  sym(M @ mod.P0 @ M.T))
        cs = Case("K12-" + kind)
        if s:
            cs.log.append(text)
            back = lambda: KF(Mi @ mod2.A @ M, Mi @ mod2.B @ C, Wi @ mod2.H @ M, sym(Mi @ mod2.Q @ Mi.T), sym(Wi @ mod2.R @ Wi.T),
                              Mi @ mod2.x0, sym(Mi @ mod2.P0 @ Mi.T))
            if not kind.startswith("units") and not world.fits(rng, op, (mod2, z @ W.T, None if u is None else u @ C.T),
                                                               (back(), z @ W.T @ Wi.T, u)):
                continue
        a = cs.run(cs.new(mod), op, z, u)
        b = cs.run(cs.new(mod2), op, z @ W.T, None if u is None else u @ C.T)
        cs.rel("transform", side(a), side(b, M=Mi, W=W), tol=1e-7, step=bool(s))
        yield cs


# ------------------------------------------------------------------ K13
def blkdiag(a, b):
    out = np.zeros((a.shape[0], a.shape[1] + b.shape[1], a.shape[2] + b.shape[2]))
    out[:, :a.shape[1], :a.shape[2]] = a
    out[:, a.shape[1]:, a.shape[2]:] = b
    return out


def K13(rng, tier):
    for i in range(reps(108, tier)):
        kind = ["sequential", "noinfo", "average", "blocks", "sequential3", "blocks-same"][i % 6]
        n, m, c = gen.dims(rng, 3, 3, 2)
        T = int(rng.choice([1, 2, 4, 8]))
        n, m, T = stretch(rng, i, n, m, T, 17)
        cs = Case("K13-" + kind)
        units(rng, cs)
        use, step = rng.random() < .55, False

        def base(op, runs=lambda mod, z, u: [(mod, z, u)], n=n, m=m, shape=lambda mod: mod):
            """(model, observations, controls, world?)"""
            if use:
                s = world.scene(rng, n, m, T, c, op, 1, True, lambda mod, z, u: runs(shape(mod), z, u))
                if s:
                    cs.log.append(s[3])
                    return shape(s[0]), s[1], s[2], True
            mod = shape(gen.kf(rng, n, m, T, c, nice=True))
            return mod, gen.wild(rng, gen.obs(rng, mod)), gen.ctl(rng, T, c), False
        if kind.startswith("sequential"):
            m = 3 if kind == "sequential3" else max(2, m)
            parts = [[0], list(range(1, m))] if kind == "sequential" else [[j] for j in range(m)]
            if kind == "sequential" and m == 2 and rng.random() < .5:
                parts = [[1], [0]]
            w = max(len(p) for p in parts)

            def apart(mod):
                R = mod.R.copy()
                for a in range(len(parts)):      # uncorrelated noise between the parts
                    for b in range(len(parts)):
                        if a != b:
                            for x, y in itertools.product(parts[a], parts[b]):
                                R[:, x, y] = 0
                return mod.replace(R=R)
            mod, z, u, step = base("filter", m=m, shape=apart)
            full = cs.run(cs.new(mod), "filter", z, u)
            # parts of equal width can share one run; otherwise go by direct updates
            if all(len(p) == w for p in parts):
                s = len(parts)
                A = np.repeat(np.eye(n)[None], T * s, axis=0)
                B = np.zeros((T * s, n, c))
                H, Q, Rs = np.zeros((T * s, w, n)), np.zeros((T * s, n, n)), np.zeros((T * s, w, w))
                zz, uu = np.zeros((T * s, w)), np.zeros((T * s, c))
                for k in range(T):
                    for j, p in enumerate(parts):
                        r = k * s + j
                        if j == 0:
                            A[r], B[r], Q[r], uu[r] = mod.A[k], mod.B[k], mod.Q[k], u[k]
                        H[r], Rs[r], zz[r] = mod.H[k][p], mod.R[k][np.ix_(p, p)], z[k][p]
                e = cs.run(cs.new(KF(A, B, H, Q, Rs, mod.x0, mod.P0)), "filter", zz, uu)
                cs.rel("sequential", side(full), side(e, idx=range(s, T * s + 1, s)), cmp=["x", "P"], tol=1e-8, step=step)
            else:
                h1 = cs.new(mod.replace(H=mod.H[:, parts[0]], R=mod.R[:, parts[0]][:, :, parts[0]]))
                x, P, es = mod.x0, mod.P0, []
                for k in range(T):
                    ep = cs.predict(h1, poke_model(h1.model, k, x, P), u=u[k])
                    x, P = cs.raw[ep - 1][0], cs.raw[ep - 1][1]
                    for p in parts:
                        one = KF(mod.A[k:k + 1], None, mod.H[k:k + 1, p], mod.Q[k:k + 1], mod.R[k:k + 1][:, p][:, :, p], x, P)
                        eu = cs.update(h1, one, z[k][p])
                        x, P = cs.raw[eu - 1][0], cs.raw[eu - 1][1]
                    es.append(eu)
                cs.rel("sequential", side(full), side(*es), cmp=["x", "P"], tol=1e-8, step=step)
        elif kind == "noinfo":
            op = "filter" if rng.random() < .6 else "smooth"
            mod, z, u, step = base(op)
            full = cs.run(cs.new(mod), op, z, u)
            pos = int(rng.integers(0, m + 1))
            keep = [j for j in range(m + 1) if j != pos]
            H, R, zz = np.zeros((T, m + 1, n)), np.zeros((T, m + 1, m + 1)), np.zeros((T, m + 1))
            for k in range(T):
                H[k][keep], zz[k, keep] = mod.H[k], z[k]
                R[k][np.ix_(keep, keep)] = mod.R[k]
                R[k, pos, pos] = rng.uniform(.2, 3)
                zz[k, pos] = rng.normal() * rng.choice([1, 1e4])
            e = cs.run(cs.new(mod.replace(H=H, R=R)), op, zz, u)
            cs.rel("noinfo", side(full), side(e, cols=[j + 1 for j in keep]), tol=1e-8, step=step)
            cs.zero("noinfo-gain", e, rows=range(1, n + 1), rows2=[], cols=[pos + 1], tol=1e-10)
        elif kind == "average":
            op = "filter" if rng.random() < .6 else "smooth"

            def both(mod, z, u):
                two = mod.replace(H=np.concatenate([mod.H, mod.H], axis=1), R=blkdiag(mod.R, mod.R))
                return [(two, np.concatenate([z, z], axis=1), u), (mod.replace(R=mod.R / 2), z, u)]
            mod, z1, u, step = base(op, both)
            z2 = (z1 + rng.normal(size=z1.shape) * 3) if step else gen.wild(rng, gen.obs(rng, mod))
            if rng.random() < .3:
                z2 = z1 + rng.normal(size=z1.shape)
            if rng.random() < .3:
                mod = mod.replace(R=mod.R * 0 + np.eye(m) * rng.uniform(.1, 2))
            two = mod.replace(H=np.concatenate([mod.H, mod.H], axis=1), R=blkdiag(mod.R, mod.R))
            e = cs.run(cs.new(two), op, np.concatenate([z1, z2], axis=1), u)
            f = cs.run(cs.new(mod.replace(R=mod.R / 2)), op, (z1 + z2) / 2, u)
            cs.rel("average", side(f), side(e), cmp=["x", "P"], tol=1e-8, step=step)
        else:
            n2, m2, _ = gen.dims(rng, 2, 2)
            op = "filter" if rng.random() < .5 else "smooth"
            a, za, u, sa = base(op)
            b, zb, ub, sb = base(op, n=n2, m=m2, runs=lambda mod, z, v: [(mod, z, u)])
            if kind == "blocks-same":
                b, sb = a, sa
                n2, m2 = n, m
            step = sa and sb
            # scales of its own: one block may be far larger than the other
            if not step:
                za, zb = gen.wild(rng, gen.obs(rng, a)), gen.wild(rng, gen.obs(rng, b))
            elif kind == "blocks-same":
                zb = za + rng.normal(size=za.shape)
            if rng.random() < .5:       # the second block in other units than the first
                fx, fz = (2.0 ** float(rng.integers(-25, 26)) for _ in range(2))
                b, zb, _ = gen.scale_units(b, zb, None, np.full(n2, fx), np.full(m2, fz))
            both = KF(blkdiag(a.A, b.A), np.concatenate([a.B, b.B], axis=1), blkdiag(a.H, b.H), blkdiag(a.Q, b.Q), blkdiag(a.R, b.R),
                      np.concatenate([a.x0, b.x0]), blkdiag(a.P0[None], b.P0[None])[0])
            ea, eb = cs.run(cs.new(a), op, za, u), cs.run(cs.new(b), op, zb, u)
            e = cs.run(cs.new(both), op, np.concatenate([za, zb], axis=1), u)
            ra, rb = range(1, n + 1), range(n + 1, n + n2 + 1)
            ca, cb = range(1, m + 1), range(m + 1, m + m2 + 1)
            cs.rel("block", side(ea), side(e, rows=ra, cols=ca), tol=1e-8, step=step)
            cs.rel("block", side(eb), side(e, rows=rb, cols=cb), tol=1e-8, step=step)
            cs.zero("cross", e, rows=ra, rows2=rb, cols=cb, tol=1e-9)
            cs.zero("cross", e, rows=rb, rows2=ra, cols=ca, tol=1e-9)
        yield cs


# ------------------------------------------------------------------ K14
def rowwise(v):
    """A list of the entries, each in the simplest type that holds its numbers."""
    v = np.asarray(v)
    if v.ndim == 1:
        return [int(x) if x == np.round(x) and abs(x) < 2 ** 31 else float(x) for x in v]
    return [r.astype(np.int64) if (np.isfinite(r) & (abs(r) < 2 ** 31)).all() and (r == np.round(r)).all() else r for r in v]


def K14(rng, tier, export):
    fs = gen.representations(rng)
    for i, (mod, z, u) in enumerate(exported(rng, tier, export, 40)):
        cs = Case("K14-spec")
        op = ["filter", "smooth"][i % 2]
        nm = str(rng.choice(list(fs)))
        f = lambda _n, v: fs[nm](np.asarray(v))
        a = cs.run(cs.new(mod), op, z, u)
        b = cs.run(cs.new(mod, rep=f), op, z, u, zarg=f("Z", z), uarg=f("U", u))
        cs.log.append(nm)
        if cs.events[a - 1]["ok"]:
            cs.events[b - 1]["want"] += ["raise", "shape"]
        cs.rel("same-numbers", side(a), side(b), cmp=["x", "P", "K", "fail"], tol=1e-9)
        yield cs
    for i in range(reps(153, tier)):
        kind = ["layout", "int", "f32", "lists", "scalar", "one", "combo", "layout", "ekf-layout", "ekf-int", "mixed", "ekf-scalar",
                "statesize", "ekf-combo", "scalar", "shared", "ekf-shared"][i % 17]
        n, m, c = gen.dims(rng, 4, 3, 2)
        T = int(rng.choice([1, 2, 3, 6, 10]))
        op = "filter" if rng.random() < .55 else "smooth"
        cs = Case("K14-" + kind, **(dict(eps=F32) if kind == "f32" else {}))
        nonlin, step = kind.startswith("ekf"), False
        if kind == "one":
            T = 1
        if kind in ("layout", "lists", "combo", "mixed", "statesize", "int"):
            n, m, T = stretch(rng, i, n, m, T, 16)
        if kind == "scalar":
            n, m = int(rng.choice([1, 2, 3])), 1
        if kind == "ekf-scalar":
            m = 1
        if nonlin:
            T = min(T, 6)
            mod, z, u = nonlinear(rng, n, m, T, c, op, p=.5 if kind == "ekf-layout" else 0, nice=True)
        else:
            sc = world.scene(rng, n, m, T, c, op) if kind in ("layout", "lists", "combo", "mixed", "statesize", "one") else None
            if sc and kind == "combo":      # parts of it will be replaced
                sc = None
            if sc:
                mod, z, u, text = sc
                step = True
                cs.log.append(text)
            else:
                mod = gen.kf(rng, n, m, T, c, nice=True)
                u = gen.ctl(rng, T, c) if rng.random() < .6 else None
                z = gen.obs(rng, mod)
        if kind == "lists":                 # some entries integers, others not, in whatever order
            r = rng.random(T) < .5
            if T > 1 and rng.random() < .6:
                r[0], r[-1] = True, False
            if not step:
                z[r] = np.round(z[r])
                if u is not None:
                    r = r | np.isnan(u).any(axis=1)
                    u[r & ~np.isnan(u).any(axis=1)] = np.round(u[r & ~np.isnan(u).any(axis=1)])
        if kind in ("int", "ekf-int"):
            if nonlin:
                mod = mod.replace(Q=np.array([np.eye(n) * rng.integers(1, 3) for _ in range(T)]),
                                  R=np.array([np.eye(m) * rng.integers(1, 4) for _ in range(T)]),
                                  x0=rng.integers(-1, 2, size=n).astype(float), P0=np.eye(n))
                z = np.round(z)
            else:
                mod = integer_model(rng, n, m, T, c)
                z = rng.integers(-5, 6, size=(T, m)).astype(float)
            if u is not None:
                u = rng.integers(-2, 3, size=(T, c)).astype(float)
        if kind in ("combo", "ekf-combo"):
            z = np.round(z) if rng.random() < .7 else z
            if rng.random() < .5:
                mod = mod.replace(x0=np.round(mod.x0))
            if u is not None:
                u = u if rng.random() < .6 else np.round(u)
            ok = ("A", "B", "H", "Q", "R") if not nonlin else ()
            for nm in ok:
                if getattr(mod, nm) is not None and rng.random() < .3:
                    I = integer_model(rng, n, m, T, c)
                    mod = mod.replace(**{nm: getattr(I, nm)})
            if op == "smooth" and not nonlin:
                mod = mod.replace(Q=mod.Q + .25 * np.eye(n) if rng.random() < .5 else np.round(mod.Q) + np.eye(n) * 3)
        if kind in ("shared", "ekf-shared"):    # the same numbers in several places
            if u is not None and c == m and rng.random() < .5:
                u = z.copy()
            if n == m and rng.random() < .7:
                mod = mod.replace(R=mod.Q.copy()) if rng.random() < .5 else mod.replace(Q=mod.R.copy())
            if not nonlin:
                if n == m and rng.random() < .4:
                    mod = mod.replace(H=mod.A.copy()) if rng.random() < .5 else mod.replace(A=mod.H.copy())
                if n == c and rng.random() < .4:
                    mod = mod.replace(B=mod.A.copy())
                if m == n and rng.random() < .2:
                    mod = mod.replace(H=mod.R.copy())
            if rng.random() < .4:
                mod = mod.replace(P0=mod.Q[int(rng.integers(T))].copy())
            if n == m and rng.random() < .3 and not nonlin:
                mod = mod.replace(x0=z[int(rng.integers(T))].copy())
        norm = {}
        if kind == "scalar" and rng.random() < .75:
            ds, dz = np.full(n, 2.0 ** rng.integers(-50, 40)), np.full(m, 2.0 ** rng.integers(-50, -25 if rng.random() < .5 else 40))
            mod, z, u = gen.scale_units(mod, z, u, ds, dz)
            norm = dict(M=np.diag(1 / ds), W=np.diag(dz))       # compare in the units of the data
        W = ["raise", "shape"]
        a = cs.run(cs.new(mod), op, z, u, want=W)
        ints = [np.int64, np.int32, np.int16, np.int8]
        variants = []
        if kind in ("layout", "mixed", "ekf-layout", "one"):
            fs = gen.representations(rng)
            names = list(fs)
            for _ in range(3):
                if kind == "mixed":
                    mp = {k: str(rng.choice(names)) for k in ("A", "xk", "B", "Pk", "H", "Q", "R", "Z", "U")}
                    variants.append((str(mp), lambda nm, v, mp=mp: fs[mp[nm]](np.asarray(v))))
                else:
                    f = str(rng.choice(names))
                    variants.append((f, lambda nm, v, f=f: fs[f](np.asarray(v))))
        elif kind in ("int", "ekf-int"):
            for _ in range(3):
                fit = [t for t in ints if nonlin or np.iinfo(t).max > reach(mod, z, u)]     # no sum of products wraps around
                t = fit[int(rng.integers(len(fit)))]
                only = {k for k in ("A", "xk", "B", "Pk", "H", "Q", "R", "Z", "U") if rng.random() < .6}
                variants.append(("%s %s" % (t.__name__, sorted(only)), lambda nm, v, t=t, only=only: np.asarray(v).astype(t)
                                 if nm in only and (nm != "U") else v))
        elif kind in ("shared", "ekf-shared"):
            # equal arrays are one object; a vector or matrix equal to a step of another is a view of it
            pool = [np.array(v) for v in (z, u, *(getattr(mod, a, None) for a in "QRABH"), mod.P0, mod.x0) if v is not None]

            def one(nm, v, views=True):
                v = np.asarray(v)
                for w in pool:
                    if w.shape == v.shape and np.array_equal(w, v, equal_nan=True):
                        return w
                return np.array(v)

            def view(nm, v):
                v = np.asarray(v)
                for w in pool:
                    if w.ndim == v.ndim + 1 and w.shape[1:] == v.shape:
                        for r in w:
                            if np.array_equal(r, v, equal_nan=True):
                                return r
                return one(nm, v)
            variants += [("one object", one), ("views", view)]
        elif kind in ("combo", "ekf-combo"):
            # every array its own representation: integers where the numbers allow, any layout, lists
            fs = gen.representations(rng)
            names = list(fs) + ["plain"] * 3
            for _ in range(4):
                def f(nm, v, mp={}, rng=np.random.default_rng(rng.integers(2 ** 60))):
                    v = np.asarray(v)
                    if nm != "U" and (v == np.round(v)).all() and rng.random() < .7:
                        v = v.astype(ints[int(rng.integers(2))])
                    k = str(rng.choice(names))
                    v = fs[k](v) if k != "plain" else v
                    r = rng.random()
                    if nm in ("Z", "U") and r < .7:
                        return [w for w in v] if nm == "Z" or r < .4 else v.tolist()
                    return v
                variants.append(("combo", f))
        elif kind == "f32":
            mod32, z32, u32 = f32(mod, z, u)
            a = cs.run(cs.new(mod32), op, z32, u32, want=W)
            variants.append(("float32", to_f32))
            only = {k for k in ("A", "xk", "B", "Pk", "H", "Q", "R", "Z", "U") if rng.random() < .5}
            variants.append(("float32 " + str(sorted(only)), lambda nm, v: to_f32(nm, v) if nm in only else v))
            mod, z, u = mod32, z32, u32
        elif kind == "lists":
            for f in (lambda nm, v: [r for r in v] if nm in ("Z", "U") else v,
                      lambda nm, v: v.tolist() if nm in ("Z", "U") else v,
                      lambda nm, v: [r.tolist() for r in v] if nm == "U" else v,
                      lambda nm, v: rowwise(v) if nm in ("Z", "U") else v,
                      lambda nm, v: [rowwise(r) for r in v] if nm in ("Z", "U") else v):
                variants.append(("list", f))
        elif kind in ("scalar", "ekf-scalar"):
            variants.append(("z1d", lambda nm, v: v[:, 0].copy() if nm == "Z" else v))
            variants.append(("R1d", lambda nm, v: v[:, 0].copy() if nm == "Z" else (v[:, 0, 0].copy() if nm == "R" else v)))
            variants.append(("zlist", lambda nm, v: [float(r) for r in v[:, 0]] if nm == "Z" else v))
            if mod.n == 1:
                variants.append(("QR1d", lambda nm, v: v[:, 0].copy() if nm == "Z" else
                                 (v[:, 0, 0].copy() if nm in ("Q", "R") else v)))
                variants.append(("lists", lambda nm, v: [float(r) for r in v[:, 0]] if nm == "Z" else
                                 ([float(r) for r in v[:, 0, 0]] if nm in ("Q", "R") else v)))
        for name, f in variants:
            m2 = mod.replace(scalar_h=True) if kind == "ekf-scalar" and rng.random() < .6 else mod
            cs.log.append(name)
            h = cs.new(m2, rep=f)
            e = cs.run(h, op, z, u, want=W, zarg=f("Z", z), uarg=None if u is None else f("U", u))
            cs.rel("same-numbers", side(a, **norm), side(e, **norm), tol=1e-9 if kind != "f32" else 2e-3, step=step)
        if kind == "statesize":
            e = cs.run(cs.new(mod, state_size=mod.n), op, z, u, want=W)
            cs.rel("same-numbers", side(a), side(e), tol=1e-10)
            e = cs.run(cs.new(mod, state_size=None), op, z, u, want=W)
            cs.rel("same-numbers", side(a), side(e), tol=1e-10)
        yield cs


# ------------------------------------------------------------------ K16
class Hooked(np.ndarray):
    """Observations that let another call run between two steps of a loop."""

    def __array_finalize__(self, obj):
        self.hook = getattr(obj, "hook", None)

    def __iter__(self):
        base = np.asarray(self)
        for k in range(len(base)):
            if self.hook is not None:
                self.hook(k)
            yield base[k]

    def __getitem__(self, k):
        if self.hook is not None and isinstance(k, (int, np.integer)):
            self.hook(int(k))
        return np.asarray(self)[k]


def hooked(z, hook):
    v = np.array(z).view(Hooked)
    v.hook = hook
    return v


class Turns:
    """Runs calls of several threads in a prescribed order of loop steps."""

    def __init__(self, order, nthreads):
        self.order, self.pos, self.alive = list(order), 0, set(range(nthreads))
        self.cv = threading.Condition()

    def step(self, me):
        with self.cv:
            self.cv.wait_for(lambda: self._turn(me), timeout=5)
            self.pos += 1
            self.cv.notify_all()

    def _turn(self, me):
        while self.pos < len(self.order) and self.order[self.pos] not in self.alive:
            self.pos += 1
        return self.pos >= len(self.order) or self.order[self.pos] == me

    def done(self, me):
        with self.cv:
            self.alive.discard(me)
            self.cv.notify_all()


def tracing(turns, me):
    """settrace function: every executed line of the library is a turn."""
    root = os.path.dirname(os.path.abspath(kalmankit.__file__))

    def local(frame, event, arg):
        if event == "line":
            turns.step(me)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    return glob


def K16(rng, tier, export=None):
    import sys
    mods, data, pokes = decode_history_models(export)
    # API-level interleavings on two objects, generated by TLC
    for s in pick_scripts(rng, export["scripts"], reps(60, tier)):
        cs = Case("K16-script")
        units(rng, cs)
        hs, memo, model = {}, {}, {}
        cs.log.append(" ".join("%d:%s/%d/%d" % (c["o"], c["op"], c["m"], c["d"]) for c in s))
        refs = []
        for c in s:
            if c["op"] == "new":
                hs[c["o"]], model[c["o"]] = cs.new(mods[c["m"] - 1], want=["empty"]), c["m"] - 1
                continue
            e = play(cs, hs[c["o"]], mods, data, pokes, c, ["gcount"])
            refs.append((c, e))
        for c, e in refs:
            key = (c["op"], c["m"], c["d"])
            if key not in memo:
                memo[key] = play(cs, cs.new(mods[c["m"] - 1]), mods, data, pokes, c, [])
            ref = memo[key]
            if cs.events[ref - 1]["ok"] and cs.events[e - 1]["ok"]:
                cs.rel("alone", side(ref), side(e), cmp=["x", "P", "K"] if c["op"] != "predict" else ["x", "P"], tol=1e-11)
            else:
                cs.same("alone", cs.events[ref - 1]["err"], cs.events[e - 1]["err"])
        yield cs
    # single calls of several objects in turn, with and without control
    for i in range(reps(24, tier)):
        n, m, c = gen.dims(rng, 3, 2, 2)
        T = int(rng.choice([1, 2, 4]))
        cs = Case("K16-turns")
        units(rng, cs)
        cs.bare = i % 3 > 0
        mods = []
        for j in range(int(rng.integers(2, 5))):
            if (i + j) % 2:
                mods.append(nonlinear(rng, n, m, T, c, "smooth", nice=True)[0])
            else:
                mods.append(world.tamed(rng, n, m, T, c, "smooth")[0] if rng.random() < .4 else gen.kf(rng, n, m, T, c, nice=True))
        hs = [cs.new(mod) for mod in mods]
        for _ in range(int(rng.integers(4, 9))):
            j, k = int(rng.integers(len(mods))), int(rng.integers(T))
            op = str(rng.choice(["filter", "smooth", "predict", "predict", "update"]))
            mod = mods[j]
            u = gen.ctl(rng, T, mod.c) if mod.c and rng.random() < .5 else None
            z = gen.ekf_obs(rng, mod, None if u is None else np.nan_to_num(u)) if mod.kind != "kf" else gen.obs(rng, mod)
            one = poke_model(mod, k, mod.x0 * .5, mod.P0)
            es = []
            for h in (hs[j], cs.new(mod)):
                es.append(cs.run(h, op, z, u) if op in ("filter", "smooth") else cs.predict(h, one, u=None if u is None else u[k],
                          want=["raise", "x", "P"]) if op == "predict" else cs.update(h, one, z[k]))
            cs.rel("alone", side(es[1]), side(es[0]), cmp=["x", "P", "K", "fail"] if op != "predict" else ["x", "P", "fail"], tol=1e-11)
        yield cs
    # objects equal in all but one thing
    for i in range(reps(24, tier)):
        n, m, c = gen.dims(rng, 2, 2, 2)
        T = int(rng.choice([1, 2, 4]))
        cs = Case("K16-kin")
        base = gen.kf(rng, n, m, T, c, nice=True, varying=bool(i % 2))
        if i % 3 == 0:
            base = base.replace(P0=np.eye(n), Q=base.Q * 0 + np.eye(n))
        z, u = gen.obs(rng, base), gen.ctl(rng, T, c)
        es, order = [], []
        for nm in [None] + [str(v) for v in rng.permutation(["A", "H", "B", "Q", "R", "x0", "P0"])]:
            mod = base
            if nm is not None:
                v = getattr(base, nm)
                mod = base.replace(**{nm: -v if nm in ("A", "H", "B", "x0") else v * float(rng.choice([.5, 2.0]))})
            cs.log.append(str(nm))
            cs.run(cs.new(mod), ["filter", "smooth"][i % 2], z, u, want=["raise", "x", "P", "sx", "sP"])
        yield cs
    # copies of an object, given another model or not
    for i in range(reps(24, tier)):
        nonlin = i % 3 == 2
        n, m, c = gen.dims(rng, 3, 2, 2)
        T = int(rng.choice([1, 2, 4, 7]))

        def model():
            return nonlinear(rng, n, m, T, c, "smooth", nice=True) if nonlin else (gen.kf(rng, n, m, T, c, nice=True), None, None)
        how = ["copy", "deepcopy", "pickle"][i % 3 if not nonlin else int(rng.integers(2))]
        cs = Case("K16-" + how)
        units(rng, cs)
        mod, z, u = model()
        while mod.kind == "tab":
            mod, z, u = model()
        hs = [cs.new(mod)]
        for step in range(int(rng.integers(3, 7))):
            if step == 1 or rng.random() < .2:
                hs.append(cs.copy(hs[int(rng.integers(len(hs)))], how))
            h = hs[int(rng.integers(len(hs)))] if rng.random() < .5 else hs[-1]
            if rng.random() < .35 and not nonlin:
                names = [a for a in ("A", "H", "Q", "R", "xk", "Pk") if rng.random() < .4] or ["R"]
                new = model()[0]
                cs.set(h, h.model.replace(**{k: getattr(new, k) for k in ({"xk": "x0", "Pk": "P0"}.get(a, a) for a in names)}), "replace",
                       names)
            if not nonlin:
                z, u = gen.obs(rng, mod), gen.ctl(rng, T, c) if rng.random() < .5 else None
            op = str(rng.choice(["filter", "smooth"]))
            ref = cs.run(cs.new(h.model), op, z, u)
            e = cs.run(h, op, z, u, want=["gcount"])
            cs.rel("alone", side(ref), side(e), cmp=["x", "P", "K", "fail"], tol=1e-11)
        for h in hs:                  # what the others did has not reached this one
            cs.set(h, h.model, "replace", [])
        yield cs
    # loop-level interleavings: two or three calls in threads, stepping in a drawn order
    for i in range(reps(48, tier)):
        kind = ["loop", "line", "nested", "free"][i % 4]
        k = 2 if rng.random() < .7 else 3
        shared = rng.random() < 0.5
        n, m, c = gen.dims(rng, 3, 2, 2)
        T = int(rng.choice([2, 3, 5]))
        items = []
        base = world.tamed(rng, n, m, T, c, "smooth")[0] if rng.random() < .4 else gen.kf(rng, n, m, T, c, nice=True)
        for j in range(k):
            if j == 1 and rng.random() < .4:
                mod, z, u = nonlinear(rng, n, m, T, c, "smooth", nice=True)
            else:
                mod = base if shared else gen.kf(rng, n, m, T, c, nice=True)
                if shared and j:
                    mod = base.replace(x0=base.x0 + j)
                z, u = gen.obs(rng, mod), (gen.ctl(rng, T, c) if rng.random() < .5 else None)
            op = "filter" if rng.random() < .5 else "smooth"
            items.append((mod, z, u, op))
        cs = Case("K16-" + kind)
        refs = [cs.run(cs.new(mod), op, z, u) for mod, z, u, op in items]
        handles = [cs.new(mod) for mod, z, u, op in items]
        results = [None] * k

        def call(j, zz):
            mod, z, u, op = items[j]
            f = getattr(handles[j].obj, op)
            return Case._guard_plain(lambda: f(zz, u) if u is not None else f(zz))
        if kind == "nested":
            depth = {"n": 0}

            def hook0(step):
                j = depth["n"] + 1
                if j < k and results[j] is None:
                    depth["n"] = j
                    results[j] = call(j, items[j][1])
            results[0] = call(0, hooked(items[0][1], hook0))
            for j in range(1, k):
                if results[j] is None:
                    results[j] = call(j, items[j][1])
        else:
            order = rng.integers(0, k, size=4000 if kind == "line" else 60)
            if kind == "line" and rng.random() < .5:   # coarse bursts as well as fine ones
                order = np.repeat(order[:400], rng.integers(1, 12, size=400))
            turns = Turns(order, k)

            def body(j):
                if kind == "line":
                    sys.settrace(tracing(turns, j))
                try:
                    zz = items[j][1]
                    if kind == "loop":
                        zz = hooked(zz, lambda step: turns.step(j))
                    reps_ = 1 if kind != "free" else 25
                    for _ in range(reps_):
                        r = call(j, zz)
                        if results[j] is None or kind != "free":
                            results[j] = r
                        elif not (isinstance(r, tuple) and isinstance(results[j], tuple)
                                  and np.array_equal(r[0], results[j][0]) and np.array_equal(r[1], results[j][1])):
                            results[j] = r      # a deviating repetition is the one that is judged
                            break
                finally:
                    sys.settrace(None)
                    turns.done(j)
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            ths = [threading.Thread(target=body, args=(j,)) for j in range(k)]
            [t.start() for t in ths]
            [t.join(120) for t in ths]
            sys.setswitchinterval(old)
        for j in range(k):
            mod, z, u, op = items[j]
            e = cs.adopt(handles[j], op, z, u, results[j], last=T)
            cs.rel("alone", side(refs[j]), side(e), tol=1e-11)
        yield cs


# ------------------------------------------------------------------ K17
def undefined(cs, rng, h, one, z, want):
    """An undefined correction, of a scalar quantity given in one of its admissible forms."""
    if one.m > 1 or rng.random() < .3:
        return cs.update(h, one, z, want=want)
    form = str(rng.choice(["float", "0d", "1d", "scalar-R"]))
    cs.log.append(form)
    args = dict(xk=one.x0, Pk=one.P0, zk={"float": float(z[0]), "0d": np.array(float(z[0]))}.get(form, z),
                Rk=one.R[0] if form != "scalar-R" else one.R[0, 0, 0])
    if one.kind == "kf":
        args["Hk"] = one.H[0]
    return cs.update(h, one, z, call=lambda: h.obj.update(**args), watched=list(args.values()), want=want)


def K17(rng, tier):
    for i in range(reps(99, tier)):
        kind = ["filter", "update", "smooth-fwd", "smooth-back", "ekf-filter", "ekf-update", "first", "smooth-back-mid", "ekf-gated",
                "ekf-back", "ekf-update"][i % 11]
        n, m, c = gen.dims(rng, 3, 3, 1)
        if kind.endswith("update") and rng.random() < .5:
            m = 1
        T = int(rng.choice([2, 3, 5, 8]))
        n, m, T = (min(n, 2), 1, 70) if i % 13 == 4 and not kind.startswith("ekf") else (7, 5, 2) if i % 13 == 10 else (n, m, T)
        k = 0 if kind == "first" else int(rng.integers(0, T))
        W = ["raise", "gcount", "fabricated", "K"]
        cs = Case("K17-" + kind)
        cs.log.append("n=%d m=%d T=%d step=%d" % (n, m, T, k))
        if kind.startswith("ekf"):
            f = gen.poly(rng, n, n, 0, 2)
            h = gen.poly(rng, m, n, 0, 2)
            Q = np.array([np.eye(n) * .5 for _ in range(T)])
            R = np.array([np.eye(m) for _ in range(T)])
            if kind in ("ekf-gated", "ekf-back"):
                T = max(T, 2)
                k = min(max(k, 1), T - 1)
                mod, z, u = stuck(rng, n, m, T, k, "backward" if kind == "ekf-back" else "forward")
                f, h = mod.f, mod.h
                h1 = cs.new(styled(rng, mod))
                cs.run(h1, "smooth" if kind == "ekf-back" or rng.random() < .5 else "filter", z, u, want=W)
                t = T if kind == "ekf-back" else k
                a = cs.run(cs.new(mod), "filter", z[:t], u[:t])
                b = cs.run(h1, "filter", z[:t], u[:t], want=["gcount"])
                cs.rel("usable", side(a), side(b), tol=1e-11)
                yield cs
                continue
            if kind == "ekf-filter":
                # h of step k cannot vary, so the certainty comes from zero covariances from the start
                R[k] = 0
                Q[:k + 1] = 0
                mod = EKF(f, h, Q, R, gen.q(rng, n, 4, 4), np.zeros((n, n)), m)
                z = gen.ekf_obs(rng, mod)
                if rng.random() < .5:
                    x = mod.x0
                    for j in range(k + 1):      # a known path, observed as it is
                        x = mod.fv(x, np.full(1, np.nan))
                        z[j] = np.atleast_1d(mod.hv(x))
                h1 = cs.new(mod)
                cs.run(h1, "filter", z, want=W)
                if rng.random() < .5:
                    cs.run(h1, "smooth", z, want=W)
            else:
                mod = EKF(f, h, Q, R, gen.q(rng, n, 4, 4), np.eye(n), m)
                z = gen.ekf_obs(rng, mod)
                h1 = cs.new(mod)
                one = mod.replace(Q=Q[:1], R=R[:1] * 0, P0=np.zeros((n, n)))
                v = z[0] if rng.random() < .5 else np.atleast_1d(one.hv(one.x0))
                undefined(cs, rng, h1, one, v, W)
            good = EKF(f, h, np.array([np.eye(n)] * T), np.array([np.eye(m)] * T), mod.x0, np.eye(n), m)
            one = poke_model(good, 0, good.x0, good.P0)
            a = cs.update(cs.new(good), one, z[0])
            b = cs.update(h1, one, z[0], want=["gcount"])
            cs.rel("usable", side(a), side(b), tol=1e-11)
            yield cs
            continue
        mod = gen.kf(rng, n, m, T, 0, nice=True)
        H, Q, R, A, P0 = (a.copy() for a in (mod.H, mod.Q, mod.R, mod.A, mod.P0))
        if kind in ("filter", "first", "smooth-fwd"):
            R[k] = 0
            why = str(rng.choice(["H0", "P0"]))
            agree = rng.random() < .5
            if why == "H0":
                H[k] = 0
            elif k == 0:
                P0[:] = 0
                Q[0] = 0
            else:
                A[k] = 0
                Q[k] = 0
            bad = mod.replace(H=H, Q=Q, R=R, A=A, P0=P0)
            h = cs.new(bad)
            z = gen.obs(rng, mod)
            if agree:                     # the observation is exactly what is known already
                z[k] = 0
                if why == "P0" and k == 0:
                    z[0] = H[0] @ (A[0] @ mod.x0)
            cs.run(h, "smooth" if kind == "smooth-fwd" else "filter", z, want=W)
        elif kind == "update":
            h = cs.new(mod)
            one = poke_model(mod, k, mod.x0, mod.P0)
            why = str(rng.choice(["H0", "P0"]))
            one = one.replace(R=one.R * 0, **({"H": one.H * 0} if why == "H0" else {"P0": one.P0 * 0}))
            undefined(cs, rng, h, one, rng.normal(size=m) if rng.random() < .5 else one.H[0] @ one.x0, W)
            z = gen.obs(rng, mod)
        else:
            # predicted covariance of step k+1 exactly zero, forward pass well defined
            k = max(1, k)
            A[k] = 0
            Q[k] = 0
            bad = mod.replace(Q=Q, A=A)
            h = cs.new(bad)
            z = gen.obs(rng, mod)
            cs.run(h, "smooth", z, want=W)
            if kind == "smooth-back-mid":
                cs.run(h, "filter", z, want=["gcount", "K"])
        # still usable
        t = min(k, T - 1) if kind in ("filter", "first", "smooth-fwd") else T
        if kind in ("filter", "first", "smooth-fwd"):
            if t >= 1:
                ok = cs.run(cs.new(bad), "filter", z[:t])
                e = cs.run(h, "filter", z[:t], want=["gcount"])
                cs.rel("usable", side(ok), side(e), tol=1e-11)
        elif kind == "update":
            ok = cs.run(cs.new(mod), "smooth", z)
            e = cs.run(h, "smooth", z, want=["gcount"])
            cs.rel("usable", side(ok), side(e), tol=1e-11)
        one = poke_model(mod, 0, mod.x0, mod.P0)
        a, b = cs.update(cs.new(mod), one, z[0]), cs.update(h, one, z[0], want=["gcount"])
        cs.rel("usable", side(a), side(b), tol=1e-11)
        yield cs


# ------------------------------------------------------------------ E01 - E04
TABS = ["pendulum", "pendulum-u", "range", "exp"]


def ekf_case(rng, i, op, want, tag):
    kind = ["poly", "net", "tab", "scalarh", "net", "poly-int", "wide", "net", "tab", "deg1", "net", "poly"][i % 12]
    T = int(rng.choice([1, 2, 3, 5, 8, 12]))
    n, m, c = gen.dims(rng, 3, 3, 2)
    if kind == "tab":
        T = 1040 if i == 8 else T
        mod = gen.tabmodel(rng, "exp" if i == 8 else TABS[int(rng.integers(4))], T)
        n, m, c = mod.n, mod.m, mod.c
    elif kind == "net":
        T = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 36]))
        n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        if i % 24 == 4 and n == m:
            n = m % 4 + 1
        if i in (7, 10):
            n, m, T = (int(rng.integers(9, 13)), 3, 2) if i == 7 else (3, int(rng.integers(9, 13)), 2)
        mod, z, u, text = world.net(rng, n, m, T, c, op, kH="zero" if i % 24 == 4 else None)
    else:
        if kind == "wide":
            n, m = int(rng.integers(1, 3)), int(rng.integers(3, 5))
        if kind == "scalarh":
            m = 1
        mod = gen.ekf(rng, n, m, T, c if rng.random() < .7 else 0, deg=1 if kind == "deg1" else 3, nice=(op == "smooth"),
                      scalar_h=kind == "scalarh")
        c = mod.c
    if kind != "net":
        u = None
    if kind != "net" and c and rng.random() < .7:
        u = gen.ctl(rng, T, c, True)
        if kind == "tab":
            u = u * 0.3
    if kind != "net":
        mod, z = gen.ekf_run(rng, mod, u)
    rep, zarg = (lambda _n, a: a), z
    if kind == "poly-int":
        z = np.round(z)
        zarg = z.astype(int)
    if kind == "scalarh" and rng.random() < .6:
        zarg = z[:, 0].copy()
        if rng.random() < .5:
            rep = lambda nm, a: a[:, 0, 0].copy() if nm == "R" else a
    cs = Case("%s-%s" % (tag, kind))
    if kind != "poly-int":
        units(rng, cs)
    cs.log.append("n=%d m=%d c=%d T=%d u=%s" % (n, m, c, T, u is not None))
    call_style(rng, cs)
    if kind == "net":
        cs.log.append(text)
    if kind in ("poly", "tab", "net") and rng.random() < 0.35:
        rn, rep = longer(rng) if rng.random() < 0.6 else rep_of(rng, 1)
        cs.log.append(rn)
    styled(rng, mod)
    if i % 4 == 1:
        mod.style = {k: "buffer" for k in ("f", "JA", "h", "JH") if rng.random() < .8}
        cs.log.append("buffers of " + " ".join(mod.style))
    h = cs.new(mod, rep=rep)
    if i % 5 == 4:
        cs.run(h, "filter", z[::-1].copy(), u)
    e = cs.run(h, op, z, u, want=want, zarg=zarg)
    return cs, mod, z, u, h


def resting(rng, tier, op, want, tag):
    """Models whose estimate does not move while their Jacobians, through the control, do."""
    for i in range(reps(4, tier)):
        n, m, _ = gen.dims(rng, 2, 2)
        T = int(rng.choice([4, 6, 9]))
        f, h = gen.bilinear(rng, n, 1), gen.bilinear(rng, m, 0, n)
        rep = lambda g: np.repeat(g[None], T, axis=0)
        mod = EKF(f, h, rep(gen.pd(rng, n, True, .25)), rep(gen.pd(rng, m, True)), np.zeros(n), gen.pd(rng, n, True, .5), m, 1)
        z = np.zeros((T, m))
        k = int(rng.integers(1, T + 1))
        z[k:] = rng.normal(size=(T - k, m))
        u = gen.q(rng, (T, 1), 4, 4)
        u[rng.random(T) < .2] = np.nan
        cs = Case(tag + "-resting")
        units(rng, cs)
        cs.run(cs.new(mod), op, z, u, want=want)
        yield cs


def E01(rng, tier, export):
    yield from replay(rng, tier, export, 100, "filter", ["raise", "x", "P", "K", "gcount", "shape"], "E01")
    for i in range(reps(150, tier)):
        cs, mod, z, u, h = ekf_case(rng, i, "filter", ["raise", "x", "P", "K", "gcount", "shape"], "E01")
        k = int(rng.integers(mod.T))
        one = poke_model(mod, k, mod.x0 + 0.25, mod.P0)
        cs.predict(h, one, u=None if u is None else u[k], want=["raise", "x", "P", "gcount"])
        cs.update(h, one, z[k], want=["raise", "x", "P", "K", "gcount"])
        yield cs
    yield from resting(rng, tier, "filter", ["raise", "x", "P", "K", "gcount", "shape"], "E01")
    for i in range(reps(4, tier)):
        mod = gen.tabmodel(rng, "exp", [120, 330][i % 2]) if i % 4 < 3 else \
            gen.ekf_run(rng, gen.ekf(rng, int(rng.integers(7, 10)), int(rng.integers(1, 9)), 2, 2, 2, nice=True))[0]
        cs = Case("E01-size")
        u = gen.ctl(rng, mod.T, mod.c, True) * 0.3 if i % 2 else None
        cs.run(cs.new(mod), "filter", gen.ekf_obs(rng, mod, u), u, want=["raise", "x", "P", "K", "gcount", "shape"])
        yield cs


def E02(rng, tier, export):
    yield from replay(rng, tier, export, 100, "smooth", ["sx", "sP", "slast"], "E02")
    for i in range(reps(150, tier)):
        yield ekf_case(rng, i, "smooth", ["raise", "sx", "sP", "slast", "shape"], "E02")[0]
    yield from resting(rng, tier, "smooth", ["raise", "sx", "sP", "slast", "shape"], "E02")
    for i in range(reps(4, tier)):
        mod = gen.tabmodel(rng, "exp", [90, 330][i % 2]) if i % 4 < 3 else \
            gen.ekf_run(rng, gen.ekf(rng, int(rng.integers(7, 10)), int(rng.integers(1, 9)), 2, 2, 2, nice=True))[0]
        cs = Case("E02-size")
        u = gen.ctl(rng, mod.T, mod.c, True) * 0.3 if i % 2 else None
        cs.run(cs.new(mod), "smooth", gen.ekf_obs(rng, mod, u), u, want=["raise", "sx", "sP", "slast", "shape"])
        yield cs


class Affine:
    """f(x,u) = A x + B u + a, h(x) = H x + b as Python callbacks."""

    def __init__(self, mod, a, b):
        self.A, self.B, self.H, self.a, self.b = mod.A[0], None if mod.B is None else mod.B[0], mod.H[0], a, b

    def f(self, x, u):
        r = self.A @ x + self.a
        if self.B is not None and not np.isnan(u).all():
            r = r + self.B @ u
        return r

    def JA(self, x, u):
        return self.A

    def h(self, x):
        return self.H @ x + self.b

    def JH(self, x):
        return self.H


def E03(rng, tier):
    for i in range(reps(126, tier)):
        kind = ["const", "affine", "ctl", "sched", "zeros", "long", "zeros"][i % 7]
        n, m, c = gen.dims(rng, 4, 3, 2)
        T = int(rng.choice([1, 2, 3, 6, 12])) if kind != "long" else 60
        if kind == "long":
            n, m = min(n, 2), 1
        elif kind != "zeros":
            n, m, T = stretch(rng, i, n, m, T, 16)
        op = "filter" if rng.random() < .5 else "smooth"
        one = lambda a: np.repeat(a[:1], T, axis=0)
        fixed = lambda mod: mod.replace(A=one(mod.A), B=one(mod.B), H=one(mod.H))      # f, h do not change; Q and R may
        s = None
        if kind in ("const", "affine", "ctl"):
            s = world.scene(rng, n, m, T, c, op, .6, runs=lambda mod, z, u: [(fixed(mod), z, u)])
        mod = fixed(s[0]) if s else gen.relmod(rng, n, m, T, c)
        n, m, c, T = mod.n, mod.m, mod.c, mod.T
        mod = fixed(mod)
        if not s and kind in ("affine", "zeros") and rng.random() < .6:     # plain maps: every component by itself, some left as they are
            some = lambda d: np.where(rng.random(d) < .6, 1.0, rng.choice([.5, -.75, .9], size=d))
            if rng.random() < .6:
                m = n if rng.random() < .7 else m
                R = np.array([gen.pd(rng, m) for _ in range(T)])
                Hd = np.zeros((m, n))
                np.fill_diagonal(Hd, 1.0 if rng.random() < .4 else some(min(n, m)))
                mod = mod.replace(H=np.array([Hd] * T), R=R)
            if rng.random() < .5:
                mod = mod.replace(A=np.array([np.diag(some(n))] * T))
        if not s and 1 < m <= n and rng.random() < .35:     # noises of a special form
            r = float(rng.choice([.5, 1, 2]))
            W = [np.ones((m, m)), np.eye(m), np.diag(np.arange(m) + 1.0), .5 * np.ones((m, m)) + .5 * np.eye(m),
                 np.ones((m, m)) - np.eye(m) + np.eye(m) * (m - 1)]
            R = np.array([r * W[int(rng.integers(len(W)))]] * T)
            new = mod.replace(R=R) if rng.random() < .7 else mod.replace(R=np.concatenate([mod.R[:1], R[1:]]))
            if world.fits(rng, op, (new, gen.obs(rng, new), None)):
                mod = new
        cs = Case("E03-" + kind)
        units(rng, cs)
        a, b = np.zeros(n), np.zeros(m)
        u = gen.ctl(rng, T, c) if kind in ("ctl", "affine", "long") and rng.random() < .8 else None
        z = gen.wild(rng, gen.obs(rng, mod))
        if s:
            z, u = s[1:3]
            cs.log.append(s[3])
        if kind == "zeros":             # estimates that are exactly zero, or have exact zero components, before and after others
            mod = mod.replace(x0=mod.x0 * (rng.random(size=n) < 0.3) * (rng.random() < 0.4))
            k = int(rng.integers(0, T + 1))
            z[:k] = 0
            if rng.random() < 0.3:
                z[k:] = 0
            u = gen.ctl(rng, T, c, absent=False) if rng.random() < 0.85 else None
            if u is not None and rng.random() < 0.8:
                u[:k] = 0
        if kind == "sched":
            # Jacobians selected by the control: u picks the regime
            As = [mod.A[0], gen.kf(rng, n, m, 1, 0, nice=True).A[0]]
            sel = rng.integers(0, 2, size=T)
            us = sel.astype(float).reshape(T, 1)
            f = lambda x, v: As[int(v[0])] @ x
            J = lambda x, v: As[int(v[0])]
            aff = Affine(mod, a, b)
            ek = EKF(f, aff.h, mod.Q, mod.R, mod.x0, mod.P0, m, 1, JA=J, JH=aff.JH)
            lin = mod.replace(A=np.array([As[s] for s in sel]), B=None)
            e1 = cs.run(cs.new(lin), op, z)
            e2 = cs.run(cs.new(ek), op, z, us)
        else:
            if kind == "affine":
                a, b = rng.normal(size=n), rng.normal(size=m)
            if kind == "zeros" and rng.random() < 0.5:
                mod, a = mod.replace(x0=np.zeros(n)), rng.normal(size=n)
                kind = "affine"
                if rng.random() < 0.6:  # every filtered mean of the first steps stays zero only without an offset
                    a = a * 0
            aff = Affine(mod, a, b)
            ek = EKF(aff.f, aff.h, mod.Q, mod.R, mod.x0, mod.P0, m, c, JA=aff.JA, JH=aff.JH,
                     scalar_h=(m == 1 and rng.random() < .5))
            styled(rng, ek)
            if kind == "affine":
                B2 = np.concatenate([mod.B, np.repeat(a.reshape(1, n, 1), T, axis=0)], axis=2)
                v = np.zeros((T, c)) if u is None else np.nan_to_num(u)
                u2 = np.concatenate([v, np.ones((T, 1))], axis=1)
                e1 = cs.run(cs.new(mod.replace(B=B2)), op, z - b, u2)
            else:
                e1 = cs.run(cs.new(mod), op, z, u)
            e2 = cs.run(cs.new(ek, rep=rep_of(rng)[1]), op, z, u)
        cs.rel("same-as-linear", side(e1), side(e2), tol=1e-8, step=bool(s))
        yield cs


def E04(rng, tier, export):
    from enc import enc
    spec = list(exported(rng, tier, export, 40))
    for i in range(reps(120, tier) + len(spec)):
        kind = ["poly", "tab", "int", "f32z", "poly", "scalar", "list", "again", "net", "net"][i % 10]
        given = spec[i - reps(120, tier)] if i >= reps(120, tier) else None
        if given:
            kind = "spec"
        op = "filter" if i % 2 else "smooth"
        T = int(rng.choice([1, 2, 3, 5, 9]))
        n, m, c = gen.dims(rng, 3, 3, 2)
        if kind == "tab":
            mod = gen.tabmodel(rng, TABS[int(rng.integers(4))], T)
            n, m, c = mod.n, mod.m, mod.c
        elif kind == "net":
            mod, z, u, _ = world.net(rng, n, m, int(rng.choice([2, 6, 12, 20, 40])), c, op)
            T = mod.T
        elif not given:
            if kind == "scalar":
                m = 1
            mod = gen.ekf(rng, n, m, T, c if rng.random() < .6 else 0, nice=True)
            c = mod.c
        if given:
            mod, z, u = given
            n, m, T = mod.n, mod.m, mod.T
        elif kind != "net":
            u = gen.ctl(rng, T, c, True) if c and rng.random() < .6 else None
            mod, z = gen.ekf_run(rng, mod, u)
        zarg = z
        if kind == "int":
            z = np.round(z)
            zarg = z.astype([np.int64, np.int32, np.int8][i % 3])
        if kind == "f32z":
            zarg = z.astype(np.float32)
            z = zarg.astype(float)
        if kind == "scalar":
            zarg = z[:, 0].copy()
            if rng.random() < .5:
                zarg = np.round(zarg).astype(int)
                z = zarg.astype(float).reshape(-1, 1)
        if kind == "list":
            zarg = [r for r in z]
        cs = Case("E04-" + kind)
        h = cs.new(mod)
        if kind == "again":
            cs.run(h, "filter", z[:1], None if u is None else u[:1])
        mod.log = []
        e = cs.run(h, op, z, u, want=[] if given else ["raise"], zarg=zarg)
        if not cs.events[e - 1]["ok"]:
            mod.log = None
            yield cs
            continue
        log, mod.log = mod.log, None
        x = cs.raw[e - 1][0] if op == "filter" else cs.raw[e - 1][3]
        if x is None or not np.isfinite(x).all():
            x = np.zeros((T, n))
        pts = [mod.x0.astype(float)] + list(x[:-1])
        shape = list(np.shape(zarg))[1:]
        us, xps, entries = [], [], []
        for k in range(T):
            uk = np.full(shape, np.nan) if u is None else u[k]
            us.append(enc(np.ravel(uk)))
            xps.append(enc(np.asarray(mod.fv(pts[k], np.atleast_1d(uk)), dtype=float)))
        for fn, xx, uu in log[:400]:
            entries.append({"fn": fn, "x": enc(np.ravel(xx)), "u": [] if uu is None else enc(np.ravel(np.asarray(uu, dtype=float)))})
        cs._ev(op="calls", log=entries, pts=[enc(p) for p in pts], xps=xps, us=us)
        if u is None:
            for fn, xx, uu in log[:400]:
                if fn in ("f", "JA"):
                    cs._ev(op="bcast", given=False, ok=True, kind=np.asarray(uu).dtype.kind, shape=list(np.shape(uu)), ref=shape,
                           cells=[bool(b) for b in np.isnan(np.asarray(uu, dtype=float)).ravel()], same=False)
        yield cs


# ------------------------------------------------------------------ U01
def U01(rng, tier, export=None):
    from kalmankit.utils import check_none_and_broadcast, is_nan_all
    dtypes = ["float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint64", "bool", ">f8", ">i4",
              "longdouble", "complex128", "complex64"]
    shapes = [(1,), (2,), (5,), (1, 1), (3, 1), (1, 4), (2, 3), (4, 2, 3), (1, 1, 1), (2, 1, 2, 2), (), (130,), (40, 5)]
    if tier != "quick":
        shapes += [(a, b, c) for a in (1, 2, 7) for b in (1, 3) for c in (2, 5)] + [(1000,), (2, 2, 2, 2, 2)]
    cs = None

    def isnan(cs, arr):
        res, err = Case._guard(lambda: is_nan_all(arr))
        cells = [bool(b) for b in np.isnan(np.asarray(arr, dtype=complex)).ravel()]
        ok = err is None and isinstance(res, (bool, np.bool_))
        cs._ev(op="isnan", ok=bool(ok), res=bool(res) if ok else False, cells=cells)

    # every array of the specification
    dts = {"f": ["float64", "float32", "float16"], "i": ["int64", "int8"], "u": ["uint16"], "b": ["bool"]}
    cs = Case("U01-spec")
    for a in export["cases"]:
        for t in dts[a["kind"]]:
            v = {"nan": np.nan, "inf": -np.inf, "num": float(rng.integers(0, 2))}
            ref = np.array([v[x] for x in a["cells"]]).astype(t).reshape(a["shape"])
            isnan(cs, ref)
            res, err = Case._guard(lambda: check_none_and_broadcast(None, ref))
            try:
                b = np.asarray(res, dtype=float)
                cells, kind, shape = [bool(x) for x in np.isnan(b).ravel()], np.asarray(res).dtype.kind, list(np.shape(res))
            except Exception:
                cells, kind, shape = [], "?", [-1]
            cs._ev(op="bcast", given=False, ok=err is None, kind=kind, shape=shape, ref=a["shape"], cells=cells, same=False)
            d4 = digest(ref)
            r2, e2 = Case._guard(lambda: check_none_and_broadcast(ref, ref))
            cs._ev(op="bcast", given=True, ok=e2 is None, same=bool(r2 is ref and digest(ref) == d4), kind="", shape=[], ref=[], cells=[])
        if len(cs.events) > 300:
            yield cs
            cs = Case("U01-spec")
    yield cs
    for t, s in itertools.product(dtypes, shapes):
        cs = Case("U01-%s-%s" % (t, "x".join(map(str, s))))
        ref = np.ones(s, dtype=t)
        forms = [ref]
        if ref.ndim >= 1:
            forms.append(ref[..., ::-1])
            if t in ("float64", "int64"):
                forms.append(ref.tolist())
                forms.append([r for r in ref])
            if ref.ndim >= 2:
                forms.append(np.asfortranarray(ref))
        for f in forms:
            b4 = digest(f)
            res, err = Case._guard(lambda: check_none_and_broadcast(None, f))
            try:
                a = np.asarray(res, dtype=float)
                cells, kind, shape = [bool(b) for b in np.isnan(a).ravel()], np.asarray(res).dtype.kind, list(np.shape(res))
            except Exception:
                cells, kind, shape = [], "?", [-1]
            cs._ev(op="bcast", given=False, ok=err is None, kind=kind, shape=shape, ref=list(np.shape(f)), cells=cells, same=False)
            cs.same("reference-untouched", b4, digest(f))
            if err is None:
                isnan(cs, res)
                if isinstance(res, np.ndarray) and res.flags.writeable:      # what becomes of one is nothing to the next
                    res[...] = 0
                    r3, e3 = Case._guard(lambda: check_none_and_broadcast(None, f))
                    if e3 is None:
                        isnan(cs, r3)
                    cs.same("placeholder-anew", digest(np.full(np.shape(f), np.nan)), digest(np.asarray(r3)) if e3 is None else e3)
            for given in (np.zeros(3), ref, np.full((2, 2), np.nan), [1.0, 2.0], np.array(0.0), np.zeros((0,)), 0.0, False):
                d4 = digest(given)
                r2, e2 = Case._guard(lambda: check_none_and_broadcast(given, f))
                cs._ev(op="bcast", given=True, ok=e2 is None, same=bool(r2 is given and digest(given) == d4), kind="", shape=[],
                       ref=[], cells=[])
        yield cs
    cs = Case("U01-isnan")
    for k in range(1, 5):
        for pat in itertools.product([True, False], repeat=k):
            a = np.where(pat, np.nan, rng.choice([0.0, 1.0, -2.5, np.inf, -np.inf, 1e300, 5e-324]))
            isnan(cs, a)
            isnan(cs, a.astype(np.float32) if np.isfinite(a[~np.array(pat)]).all() and not (np.abs(a) > 1e30).any() else a)
            if k == 4:
                isnan(cs, a.reshape(2, 2))
                isnan(cs, a.reshape(2, 2).T)
                isnan(cs, a.reshape(1, 2, 2)[:, ::-1])
            isnan(cs, a.tolist())
    for v in (0.0, 1, -1, float("nan"), np.nan, np.float64("nan"), np.float32(2), np.inf, -np.inf, np.array(np.nan), np.array(3), True):
        isnan(cs, v)
    for t in dtypes:
        isnan(cs, np.zeros((3, 2), dtype=t))
        isnan(cs, np.ones((1,), dtype=t))
    for _ in range(reps(60, tier)):
        s = tuple(rng.integers(1, 7, size=int(rng.integers(1, 4))))
        a = np.full(s, np.nan)
        isnan(cs, a)
        b = a.copy()
        b.flat[rng.integers(b.size)] = rng.choice([0.0, 1.0, np.inf])
        isnan(cs, b)
        d = rng.normal(size=s)
        d.flat[rng.integers(d.size)] = np.nan
        isnan(cs, d)
    for nn in (63, 64, 65, 255, 256, 1000, 4097):
        a = np.full(nn, np.nan)
        isnan(cs, a)
        for pos in (0, nn // 2, nn - 1):
            b = a.copy()
            b[pos] = 0
            isnan(cs, b)
    yield cs
