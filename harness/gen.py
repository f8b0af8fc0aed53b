"""Random models and data.  Everything is drawn from the numpy Generator given."""
import numpy as np

from rec import EKF, KF, Poly


def q(rng, shape, den=4, lim=8):
    """Small dyadic numbers: exact in every float format, cheap in exact arithmetic."""
    return rng.integers(-lim, lim + 1, size=shape) / den


def psd(rng, n, rank=None, dyadic=False, scale=1.0):
    rank = n if rank is None else rank
    if rank == 0:
        return np.zeros((n, n))
    L = q(rng, (n, rank), 2, 2) if dyadic else rng.normal(size=(n, rank))
    return (L @ L.T) * scale


def pd(rng, n, dyadic=False, scale=1.0):
    e = rng.choice([0.25, 0.5, 1.0]) if dyadic else rng.uniform(0.2, 1.0)
    return psd(rng, n, rng.integers(0, n + 1), dyadic, scale) + e * scale * np.eye(n)


def trans(rng, n, dyadic=False):
    kind = rng.choice(["rand", "rand", "ident", "companion", "rank1", "zero", "orth"], p=[.35, .2, .12, .13, .08, .04, .08])
    if kind == "ident":
        return np.eye(n)
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "companion":
        A = np.eye(n)
        for i in range(n - 1):
            A[i, i + 1] = 0.5 if dyadic else rng.uniform(0.05, 0.8)
        return A
    if kind == "rank1":
        a = q(rng, (n, 1), 2, 2) if dyadic else rng.normal(size=(n, 1)) / np.sqrt(n)
        b = q(rng, (1, n), 2, 2) if dyadic else rng.normal(size=(1, n)) / np.sqrt(n)
        return a @ b
    if kind == "orth" and not dyadic:
        return np.linalg.qr(rng.normal(size=(n, n)))[0]
    if dyadic:
        return q(rng, (n, n), 4, 4 if n <= 2 else 2)
    A = rng.normal(size=(n, n))
    r = max(abs(np.linalg.eigvals(A)))
    return A * (rng.uniform(0.3, 1.05) / r) if r > 0 else A


def dims(rng, nmax=4, mmax=3, cmax=3):
    n = int(rng.choice(np.arange(1, nmax + 1)))
    m = int(rng.integers(1, mmax + 1))
    c = int(rng.integers(1, cmax + 1))
    return n, m, c


def length(rng, long=False):
    if long:
        return int(rng.choice([65, 100, 130, 200, 300]))
    return int(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 17, 33]))


def kf(rng, n, m, T, c=0, dyadic=False, varying=None, nice=False, flavour=None, q0=False):
    """A well-posed linear model.  nice: full-rank noises, contracting transitions."""
    if varying is None:
        varying = rng.random() < 0.65
    if flavour is None:
        flavour = "nice" if nice else str(rng.choice(["plain", "lowq", "diffuse", "knownstart", "precise", "sparseH", "static"],
                                                     p=[.4, .13, .1, .1, .09, .1, .08]))
    k = T if varying else 1

    def H1():
        H = q(rng, (m, n), 2, 4) if dyadic else rng.normal(size=(m, n))
        if flavour == "sparseH" or rng.random() < 0.15:
            H = H * (rng.random(size=(m, n)) < 0.5)
        return H

    def Q1():
        if nice:
            return pd(rng, n, dyadic)
        if flavour == "static" and not q0:
            return np.zeros((n, n))
        r = rng.integers(0, n) if flavour == "lowq" else n
        Q = psd(rng, n, r, dyadic, 0.5)
        return Q if flavour == "lowq" else Q + (0.25 if dyadic else rng.uniform(0.02, 0.5)) * np.eye(n)

    def R1():
        s = 2.0 ** -14 if flavour == "precise" else 1.0
        return pd(rng, m, dyadic, s)

    def A1():
        if flavour == "static":
            return np.eye(n)
        if nice:
            A = rng.normal(size=(n, n)) if not dyadic else q(rng, (n, n), 4, 4)
            if dyadic:
                return A / 2 if n > 1 else A
            return A * (rng.uniform(0.4, 0.95) / max(abs(np.linalg.eigvals(A)).max(), 1e-3))
        return trans(rng, n, dyadic)

    def rep(f):
        return np.array([f() for _ in range(T)]) if varying else np.repeat(f()[None], T, axis=0)

    A, H, Q, R = rep(A1), rep(H1), rep(Q1), rep(R1)
    B = rep(lambda: q(rng, (n, c), 2, 4) if dyadic else rng.normal(size=(n, c))) if c else None
    x0 = q(rng, n) if dyadic else rng.normal(size=n) * rng.choice([0.0, 1.0, 5.0], p=[.1, .7, .2])
    if flavour == "knownstart" and not nice:
        P0 = np.zeros((n, n)) if rng.random() < 0.6 else psd(rng, n, n - 1, dyadic)
    elif flavour == "diffuse":
        P0 = np.eye(n) * 2.0 ** 18
    else:
        P0 = pd(rng, n, dyadic, 1.0 if nice else float(rng.choice([0.25, 1.0, 8.0])))
    return KF(A, B, H, Q, R, x0, P0)


def scale_units(mod, z, u, ds, dz):
    """The same model with state components in units ds and observed ones in dz."""
    S, Si, W = np.diag(ds), np.diag(1.0 / ds), np.diag(dz)
    return KF(S @ mod.A @ Si, None if mod.B is None else S @ mod.B, W @ mod.H @ Si, S @ mod.Q @ S, W @ mod.R @ W,
              S @ mod.x0, S @ mod.P0 @ S), z @ W, u

QUIRKS = ["nearid", "smallcorr", "tiny", "huge", "smallctl", "almostconst", "almostequal", "smallgain", "square", "special",
          "latechange", "unequal", "threes"]


def quirk(rng, n, m, T, c, kind=None, ctl_absent=True):
    """A well-posed model of a special form, close to one that invites a
    shortcut: (name, model, observations, controls)."""
    kind = kind or str(rng.choice(QUIRKS))
    if kind == "square":
        m = n = int(rng.integers(2, 5))
    if kind == "threes":
        n, m, c = int(rng.integers(3, 6)), int(rng.integers(2, 6)), max(c, 1)
    if kind in ("nearid", "smallcorr", "unequal"):
        n, m = max(n, 2), max(m, 2) if kind == "smallcorr" else m
    if kind == "latechange":
        T = int(rng.choice([25, 45, 70]))
        n, m = min(n, 2), min(m, 2)
    mod = kf(rng, n, m, T, c, nice=True, varying=False if kind in ("latechange", "almostconst") else None)
    rep = lambda f: np.array([f() for _ in range(T)])
    if kind == "nearid":
        e = 2.0 ** -rng.integers(27, 32)
        mod = mod.replace(A=rep(lambda: np.eye(n) + e * rng.integers(-4, 5, size=(n, n)) + np.diag(rng.integers(-2, 3, size=n)) * 2.0 ** -19))
    elif kind == "smallcorr":
        e = 2.0 ** -rng.integers(26, 31)
        off = lambda d: (lambda g: np.diag(rng.uniform(.3, 1, size=d)) + e * np.triu(g, 1) + e * np.triu(g, 1).T)(rng.integers(1, 5, size=(d, d)))
        mod = mod.replace(R=rep(lambda: off(m)), Q=rep(lambda: off(n)), P0=off(n))
    elif kind == "almostconst":
        f = lambda a: a * (1 + 2.0 ** -20 * rng.integers(-4, 5, size=(T, 1, 1)))
        mod = mod.replace(A=f(mod.A), H=f(mod.H), Q=f(mod.Q), R=f(mod.R), B=None if mod.B is None else f(mod.B))
    elif kind == "smallgain":
        mod = mod.replace(R=mod.R * 2.0 ** 40)
    elif kind == "square":
        t = str(rng.choice(["perm", "tri", "rand", "nearsym", "nearid"]))
        H = {"perm": lambda: np.eye(n)[rng.permutation(n)], "tri": lambda: np.triu(q(rng, (n, n), 2, 4)) + np.eye(n),
             "rand": lambda: rng.normal(size=(n, n)), "nearsym": lambda: np.eye(n) + .5 + 2.0 ** -20 * rng.integers(0, 9, size=(n, n)),
             "nearid": lambda: np.eye(n) + 2.0 ** -28 * rng.integers(-9, 9, size=(n, n))}[t]
        mod = mod.replace(H=rep(H))
    elif kind == "special":
        t = str(rng.choice(["nil", "perm", "neg", "scalar", "lower", "skew"]))
        A = {"nil": lambda: np.triu(q(rng, (n, n), 2, 4), 1), "perm": lambda: np.eye(n)[rng.permutation(n)], "neg": lambda: -np.eye(n),
             "scalar": lambda: np.eye(n) * .5, "lower": lambda: np.tril(q(rng, (n, n), 4, 4)),
             "skew": lambda: (lambda g: (g - g.T) / 2)(rng.normal(size=(n, n)))}[t]
        mod = mod.replace(A=rep(A))
    elif kind == "latechange":
        a = {k: getattr(mod, k).copy() for k in "AHQR"}
        k = int(rng.integers(T * 3 // 4, T))
        for nm in [str(rng.choice(list("AHQR")))] if rng.random() < .6 else list("AHQR"):
            a[nm][k:] = a[nm][k:] * (2.0 if nm in "QRH" else -.5)
        mod = mod.replace(**a)
    u = None
    if c:
        u = ctl(rng, T, mod.c, absent=ctl_absent)
        if kind == "smallctl":
            if rng.random() < .5:
                mod, u = mod.replace(B=mod.B * 2.0 ** -30), u * 2.0 ** float(rng.choice([0, 30, 45]))
            else:                         # the sizes of B and of u say nothing by themselves
                e = float(rng.choice([-40, -30, -25, 25, 40]))
                mod, u = mod.replace(B=mod.B * 2.0 ** e), u * 2.0 ** -e
    z = obs(rng, mod, u=u)
    if kind == "smallgain":
        z = rng.normal(size=z.shape) * 2.0 ** 40
    if kind == "almostequal":
        z = np.repeat(z[:1], T, axis=0) * (1 + 2.0 ** -28 * rng.integers(-4, 5, size=z.shape))
    if kind in ("tiny", "huge"):
        e = -1 if kind == "tiny" else 1
        mod, z, u = scale_units(mod, z, u, np.full(n, 2.0 ** (e * rng.integers(16, 45))), np.full(m, 2.0 ** (e * rng.integers(16, 45))))
    if kind == "unequal":
        mod, z, u = scale_units(mod, z, u, 2.0 ** (14.0 * np.arange(n))[rng.permutation(n)], 2.0 ** (14.0 * np.arange(m))[rng.permutation(m)])
    return kind, mod, z, u


UNIT = ["nearid", "smallcorr", "smallctl", "almostconst", "square", "special", "latechange", "threes"]


def relmod(rng, n, m, T, c):
    """A well-conditioned model of unit scale, of a special form now and then."""
    if rng.random() < 0.35:
        k = str(rng.choice(UNIT if T >= 20 else [u for u in UNIT if u != "latechange"]))
        mod = quirk(rng, n, m, T, c, k)[1]
    else:
        mod = kf(rng, n, m, T, c, nice=True)
    r = rng.random()
    if r < 0.08:
        mod = mod.replace(P0=np.zeros((mod.n, mod.n)))
    elif r < 0.12:
        mod = mod.replace(x0=np.zeros(mod.n))
    elif r < 0.16:
        mod = mod.replace(P0=psd(rng, mod.n, int(rng.integers(0, mod.n + 1))))
    return mod


def wild(rng, z):
    """The observations, with outliers, repetitions, offsets or constant rows now and then."""
    r, z = rng.random(), z.copy()
    T = len(z)
    if r < 0.15:
        z[rng.integers(T)] += rng.choice([-1, 1], size=z.shape[1]) * 10.0 ** rng.integers(2, 9)
    elif r < 0.25:
        z[rng.integers(T), rng.integers(z.shape[1])] += 10.0 ** rng.integers(2, 9)
    elif r < 0.35:
        a = int(rng.integers(T))
        z[a:a + int(rng.integers(1, 8))] = z[a]
    elif r < 0.4:
        z[:] = z[0]
    elif r < 0.45:
        z[:, rng.integers(z.shape[1])] = 0
    elif r < 0.5:
        z += 10.0 ** rng.integers(1, 6)
    return z


def obs(rng, mod, dyadic=False, u=None):
    """Observations: drawn from the model, or adversarial."""
    T, m = mod.T, mod.m
    kind = str(rng.choice(["model", "noise", "const", "zero", "outlier", "exact"], p=[.45, .2, .1, .05, .12, .08]))
    if dyadic:
        return q(rng, (T, m), 2, 8) if kind != "const" else np.repeat(q(rng, (1, m), 2, 8), T, axis=0)
    if kind == "noise":
        return rng.normal(size=(T, m)) * 3
    if kind == "const":
        return np.repeat(rng.normal(size=(1, m)), T, axis=0)
    if kind == "zero":
        return np.zeros((T, m))
    z = np.zeros((T, m))
    x = mod.x0.copy()
    for k in range(T):
        x = mod.A[k] @ x
        if u is not None and mod.B is not None and not np.isnan(u[k]).all():
            x = x + mod.B[k] @ np.nan_to_num(u[k])
        if kind != "exact":
            x = x + rng.multivariate_normal(np.zeros(mod.n), mod.Q[k], method="svd")
        z[k] = mod.H[k] @ x
        if kind != "exact":
            z[k] += rng.multivariate_normal(np.zeros(m), mod.R[k], method="svd")
    if kind == "outlier":
        z[rng.integers(T)] += rng.choice([-1, 1]) * 10.0 ** rng.integers(2, 6)
    return z


def absent(rng, T, runs=False):
    """The steps, at least one, at which something is missing; runs: up to, or from, some step on."""
    mask = rng.random(T) < rng.choice([0.2, 0.5, 0.8])
    if runs:
        k = int(rng.integers(1, T))
        mask = (np.arange(T) < k) if rng.random() < .5 else (np.arange(T) >= k)
        if rng.random() < .25:
            mask = ~mask & (rng.random(T) < .9)
    mask[rng.integers(T)] = True
    return mask


def ctl(rng, T, c, dyadic=False, absent=True):
    """Controls, some steps zero, partly zero, or absent (all NaN)."""
    u = q(rng, (T, c), 2, 6) if dyadic else rng.normal(size=(T, c)) * 2
    kind = str(rng.choice(["full", "sparse", "zero", "const", "onezero"], p=[.45, .25, .05, .1, .15]))
    if kind == "sparse":
        u = u * (rng.random(size=(T, 1)) < 0.5)
    elif kind == "zero":
        u = u * 0
    elif kind == "const":
        u = np.repeat(u[:1], T, axis=0)
    elif kind == "onezero":
        u = u * (rng.random(size=(T, c)) < 0.5)
    if absent and rng.random() < 0.4:
        for k in range(T):
            if rng.random() < 0.35:
                u[k] = np.nan
    return u


# ---------------------------------------------------------------- nonlinear
def poly(rng, rows, n, c, deg, dyadic=True, strength=0.125):
    """Affine part of size about one plus small higher-order terms."""
    comps = []
    for i in range(rows):
        comp = []
        for j in range(n + c):
            if rng.random() < 0.75 or j == i % max(n, 1):
                e = [0] * (n + c)
                e[j] = 1
                v = float(q(rng, (), 4, 4)) if dyadic else float(rng.normal() * 0.6)
                comp.append((v, e))
        if rng.random() < 0.5:
            comp.append((float(q(rng, (), 4, 4)), [0] * (n + c)))
        for _ in range(rng.integers(1, 3) if deg > 1 else 0):
            e = [0] * (n + c)
            for _ in range(int(rng.integers(2, deg + 1))):
                e[int(rng.integers(n + c))] += 1
            v = strength * float(rng.choice([-2, -1, 1, 2]))
            comp.append((v, e))
        comps.append(comp)
    return Poly(comps)


def bilinear(rng, rows, c, n=None):
    """Every term has a state variable: the origin stays where it is, whatever the control."""
    n, comps = n or rows, []
    unit = lambda *js: [sum(j == k for j in js) for k in range(n + c)]
    for i in range(rows):
        comp = [(float(q(rng, (), 4, 3)) or .5, unit(j)) for j in range(n)]
        comp += [(float(q(rng, (), 8, 4)), unit(j, n)) for j in range(n)] if c else []
        comps.append(comp + [(0.0625, unit(i % n, i % n))])
    return Poly(comps)


def ekf(rng, n, m, T, c=0, deg=3, nice=False, scalar_h=False):
    f = poly(rng, n, n, c, deg, strength=0.03125)
    h = poly(rng, m, n, 0, deg, strength=0.0625)
    vary = rng.random() < 0.7
    rep = lambda g: np.array([g() for _ in range(T)]) if vary else np.repeat(g()[None], T, axis=0)
    Q = rep(lambda: pd(rng, n, True, 0.25) if nice or rng.random() < 0.7 else psd(rng, n, int(rng.integers(0, n + 1)), True, 0.25))
    R = rep(lambda: pd(rng, m, True))
    return EKF(f, h, Q, R, q(rng, n, 4, 4), pd(rng, n, True, 0.5), m, c, scalar_h=scalar_h)


def ekf_obs(rng, mod, u=None):
    """Observations near the model's own path, so that estimates stay moderate."""
    x = mod.x0.astype(float).copy()
    z = np.zeros((mod.T, mod.m))
    for k in range(mod.T):
        x = mod.fv(x, np.full(1, np.nan) if u is None else u[k]) + rng.normal(size=mod.n) * 0.1
        x = np.clip(x, -3, 3)
        z[k] = np.atleast_1d(mod.hv(x)) + rng.normal(size=mod.m) * 0.3
    return z


def _moderate(mod, z, u):
    """Whether estimates and covariances of this run stay moderate (a guard on
    the generator only: the specification decides about results)."""
    x, P = mod.x0.astype(float), mod.P0.astype(float)
    for k in range(mod.T):
        uk = np.full(1, np.nan) if u is None else u[k]
        J = mod.fj(x, uk)
        x, P = mod.fv(x, uk), J @ P @ J.T + mod.Q[k]
        H = mod.hj(x)
        S = H @ P @ H.T + mod.R[k]
        if not (np.abs(x).max() < 8 and np.abs(P).max() < 100 and np.abs(S).max() < 1e3
                and np.linalg.cond(P) < 1e7 and np.linalg.cond(S) < 1e7):
            return False
        K = P @ H.T @ np.linalg.inv(S)
        x, P = x + K @ (z[k] - np.atleast_1d(mod.hv(x))), P - K @ H @ P
        if not np.abs(x).max() < 8:
            return False
    return True


def ekf_run(rng, mod, u=None):
    """Observations for a polynomial model, which is calmed until its estimates stay moderate."""
    v = None if u is None else np.nan_to_num(u)
    for _ in range(12):
        z = ekf_obs(rng, mod, v)
        if mod.kind != "ekf" or _moderate(mod, np.round(z), u) and _moderate(mod, z, u):
            break
        calm = lambda p, a: Poly([[(c * (0.5 if sum(e) > 1 else a if sum(e) else 1.0), e) for c, e in comp] for comp in p.comps])
        Q = mod.Q + 0.0625 * np.eye(mod.n)
        mod = mod.replace(f=calm(mod.f, 0.75), h=calm(mod.h, 1.0), Q=Q)
        mod.log = mod.hook = None
    return mod, z


def tabmodel(rng, which, T):
    """Transcendental models."""
    if which == "pendulum":
        dt, g = 0.1, 9.8
        f = lambda x, u: np.array([x[0] + dt * x[1], x[1] - dt * g * np.sin(x[0])])
        JA = lambda x, u: np.array([[1.0, dt], [-dt * g * np.cos(x[0]), 1.0]])
        h = lambda x: np.array([np.sin(x[0])])
        JH = lambda x: np.array([[np.cos(x[0]), 0.0]])
        n, m, c = 2, 1, 0
    elif which == "pendulum-u":
        dt, g = 0.1, 9.8

        def f(x, u):
            a = 0.0 if np.isnan(u).all() else u[0]
            return np.array([x[0] + dt * x[1], x[1] - dt * g * np.sin(x[0] + 0.1 * a) + dt * a])

        def JA(x, u):
            a = 0.0 if np.isnan(u).all() else u[0]
            return np.array([[1.0, dt], [-dt * g * np.cos(x[0] + 0.1 * a), 1.0]])
        h = lambda x: np.array([np.sin(x[0]), x[1] + 0.1 * x[1] ** 3])
        JH = lambda x: np.array([[np.cos(x[0]), 0.0], [0.0, 1 + 0.3 * x[1] ** 2]])
        n, m, c = 2, 2, 1
    elif which == "range":
        f = lambda x, u: np.array([x[0] + 0.1 * x[2], x[1] + 0.1 * x[3], x[2], x[3]]) + (
            0.0 if np.isnan(u).all() else np.array([0.0, 0.0, u[0], u[1]]))
        JA = lambda x, u: np.array([[1, 0, .1, 0], [0, 1, 0, .1], [0, 0, 1, 0], [0, 0, 0, 1.0]])
        h = lambda x: np.array([np.hypot(x[0], x[1] + 4), np.arctan2(x[0], x[1] + 4)])

        def JH(x):
            y = x[1] + 4
            r2 = x[0] ** 2 + y ** 2
            r = np.sqrt(r2)
            return np.array([[x[0] / r, y / r, 0, 0], [y / r2, -x[0] / r2, 0, 0]])
        n, m, c = 4, 2, 2
    else:                              # scalar exponential growth, scalar observation
        f = lambda x, u: np.array([x[0] + 0.1 * np.exp(-x[0] ** 2) + (0.0 if np.isnan(u).all() else np.cos(x[0]) * u[0] * 0.2)])
        JA = lambda x, u: np.array([[1 - 0.2 * x[0] * np.exp(-x[0] ** 2)
                                     - (0.0 if np.isnan(u).all() else np.sin(x[0]) * u[0] * 0.2)]])
        h = lambda x: np.array([np.tanh(x[0]) + 0.5 * x[0]])
        JH = lambda x: np.array([[1 - np.tanh(x[0]) ** 2 + 0.5]])
        n, m, c = 1, 1, 1
    vary = rng.random() < 0.7
    rep = lambda g: np.array([g() for _ in range(T)]) if vary else np.repeat(g()[None], T, axis=0)
    Q = rep(lambda: pd(rng, n, False, 0.05))
    R = rep(lambda: pd(rng, m, False, 0.2))
    x0 = rng.normal(size=n) * 0.4
    return EKF(f, h, Q, R, x0, pd(rng, n, False, 0.3), m, c, JA=JA, JH=JH, scalar_h=(m == 1 and rng.random() < 0.5))


# ---------------------------------------------------------------- shapes
class Sub(np.ndarray):
    """An array of another class."""


def representations(rng):
    """Array representations that carry the same numbers (name, function)."""
    def strided(a):
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v

    def readonly(a):
        b = np.array(a, copy=True)
        b.flags.writeable = False
        return b

    def negstride(a):
        return np.ascontiguousarray(a[::-1])[::-1]

    def buffered(a):
        b = np.full(a.size + 5, 7, dtype=a.dtype)
        v = b[2:2 + a.size].reshape(a.shape)
        v[...] = a
        return v

    def broadcast(a):
        if len(a) > 1 and a.ndim > 1 and (np.array_equal(a, np.repeat(a[:1], len(a), axis=0), equal_nan=True)):
            return np.broadcast_to(a[0], a.shape)
        return readonly(a)

    return {"buffered": buffered, "broadcast": broadcast, "subclass": lambda a: np.array(a).view(Sub), "fortran": np.asfortranarray, "strided": strided, "readonly": readonly, "negstride": negstride,
            "bigendian": lambda a: a.astype(a.dtype.newbyteorder(">")), "copy": np.array}
