"""Linear models and data put together from independent features, so that unusual ones meet.

Everything random comes from the generator given.  `tame` guards relations between runs: it accepts a
scenario when the textbook recursions, in two algebraic forms and under a perturbation of their inputs,
agree far better than the relation demands.  It never looks at the code under test."""
import numpy as np

import gen
from rec import EKF, KF

EYE = np.eye


def pick(rng, **kw):
    """A key, with the weights given."""
    ks = list(kw)
    p = np.array([kw[k] for k in ks], float)
    return ks[int(rng.choice(len(ks), p=p / p.sum()))]


def mat_A(rng, n, kind):
    if kind == "identity":
        return EYE(n)
    if kind == "scalar":
        return EYE(n) * float(rng.choice([.5, -.75, 1.0, .9]))
    if kind == "diag":
        return np.diag(rng.uniform(-1, 1, size=n))
    if kind == "walk":
        return EYE(n) + np.triu(np.ones((n, n)), 1) * float(rng.choice([.1, .5, 1.0]))
    if kind == "nil":
        return np.triu(gen.q(rng, (n, n), 2, 4), 1)
    if kind == "perm":
        return EYE(n)[rng.permutation(n)]
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "small":
        return rng.normal(size=(n, n)) * float(rng.choice([1e-2, 1e-4, 1e-6]))
    if kind == "nearid":
        return EYE(n) + 2.0 ** -rng.integers(12, 30) * rng.integers(-4, 5, size=(n, n))
    if kind == "orth":
        return np.linalg.qr(rng.normal(size=(n, n)))[0]
    if kind == "sym":
        g = rng.normal(size=(n, n))
        g = g + g.T
        return g * (.9 / max(abs(np.linalg.eigvalsh(g)).max(), 1e-3))
    if kind == "int":
        return rng.integers(-1, 2, size=(n, n)).astype(float)
    A = rng.normal(size=(n, n))
    return A * (rng.uniform(.3, 1.0) / max(abs(np.linalg.eigvals(A)).max(), 1e-3))


def mat_H(rng, m, n, kind):
    if kind == "select":
        return EYE(n)[rng.integers(n, size=m)]
    if kind == "zerorow":
        H = rng.normal(size=(m, n))
        H[rng.integers(m)] = 0
        return H
    if kind == "zero":
        return np.zeros((m, n))
    if kind == "zerocol":
        H = rng.normal(size=(m, n))
        H[:, rng.integers(n)] = 0
        return H
    if kind == "equal":
        return np.repeat(rng.normal(size=(1, n)), m, axis=0)
    if kind == "proportional":
        return rng.normal(size=(m, 1)) @ rng.normal(size=(1, n))
    if kind == "ones":
        return np.ones((m, n))
    if kind == "int":
        return rng.integers(-2, 3, size=(m, n)).astype(float)
    if kind == "unequal":
        return rng.normal(size=(m, n)) * 10.0 ** rng.integers(-3, 4, size=(m, 1))
    if kind == "square":
        return (lambda g: np.pad(g, ((0, max(m - n, 0)), (0, max(n - m, 0)))))(EYE(min(m, n)) * rng.choice([1.0, -1.0, 2.0]))
    return rng.normal(size=(m, n))


def mat_C(rng, d, kind, low=False):
    """A covariance; low: singular ones too."""
    if kind == "unit":
        return EYE(d)
    if kind == "scalar":
        return EYE(d) * float(rng.uniform(.1, 3))
    if kind == "diag":
        return np.diag(rng.uniform(.1, 2, size=d))
    if kind == "unequal":
        s = 10.0 ** rng.uniform(-2, 2, size=d)
        return gen.pd(rng, d) * np.outer(s, s)
    if kind == "large":
        return gen.pd(rng, d) * float(rng.choice([1e3, 1e5]))
    if kind == "small":
        return gen.pd(rng, d) * float(rng.choice([1e-3, 1e-5, 1e-8]))
    if kind == "correlated":
        return np.full((d, d), .75) + EYE(d) * .25
    if kind == "negative":
        return EYE(d) - np.full((d, d), .5 / d)
    if kind == "blocks":
        C = gen.pd(rng, d)
        k = int(rng.integers(d))
        C[:k, k:] = 0
        C[k:, :k] = 0
        return C
    if kind == "int":
        v = rng.integers(-1, 2, size=(d, 1))
        return EYE(d) * rng.integers(1, 4) + v @ v.T
    if low and kind == "zero":
        return np.zeros((d, d))
    if low and kind == "low":
        return gen.psd(rng, d, int(rng.integers(0, d)))
    return gen.pd(rng, d)


PATTERNS = dict(const=6, vary=6, late=1.5, first=1, periodic=.7, almost=.5, spike=.7)


def series(rng, T, g, special=None):
    """One entry per step, with a pattern in time."""
    p = pick(rng, **PATTERNS)
    if p == "vary":
        return np.array([g() for _ in range(T)])
    a = np.repeat(g()[None], T, axis=0)
    if p == "late" and T > 1:
        a[int(rng.integers(1, T)):] = g()
    if p == "first":
        a[0] = g() if special is None else special
    if p == "periodic":
        a[::2] = g()
    if p == "almost":
        a = a * (1 + 2.0 ** -20 * rng.integers(-4, 5, size=(T,) + (1,) * (a.ndim - 1)))
    if p == "spike":
        a[int(rng.integers(T))] = g() if special is None else special
    return a


def model(rng, n, m, T, c, pd_only=False):
    kA = pick(rng, generic=5, identity=2, scalar=.5, diag=1, walk=1, nil=.5, perm=.6, zero=.3, small=.8, nearid=.5, orth=1, sym=.5, int=.7)
    kH = pick(rng, generic=5, select=1.5, zero=.25, zerorow=1, zerocol=.7, equal=1, proportional=.5, ones=.7, int=.7, unequal=.7, square=1)
    noise = dict(generic=5, unit=1, scalar=.7, diag=1.5, unequal=1.8, large=.6, small=.8, correlated=.7, negative=.6, blocks=.8, int=.6)
    kR = pick(rng, **noise)
    kQ = pick(rng, **(noise if pd_only else dict(noise, zero=1, low=1)))
    kP = pick(rng, **(noise if pd_only else dict(noise, zero=.7, low=.7)))
    low = not pd_only
    A = series(rng, T, lambda: mat_A(rng, n, kA), EYE(n))
    H = series(rng, T, lambda: mat_H(rng, m, n, kH), np.zeros((m, n)))
    Q = series(rng, T, lambda: mat_C(rng, n, kQ, low), np.zeros((n, n)) if low else None)
    R = series(rng, T, lambda: mat_C(rng, m, kR))
    kB = pick(rng, generic=5, int=1, unit=1, sparse=1)
    gB = {"generic": lambda: rng.normal(size=(n, c)), "int": lambda: rng.integers(-2, 3, size=(n, c)).astype(float),
          "unit": lambda: np.eye(n, c), "sparse": lambda: rng.normal(size=(n, c)) * (rng.random(size=(n, c)) < .5)}[kB]
    B = series(rng, T, gB, np.zeros((n, c))) if c else None
    kx = pick(rng, generic=5, zero=1.5, int=1, far=.7, sparse=.7)
    x0 = {"generic": lambda: rng.normal(size=n), "zero": lambda: np.zeros(n), "int": lambda: rng.integers(-3, 4, size=n).astype(float),
          "far": lambda: rng.normal(size=n) * 10.0 ** rng.integers(2, 6), "sparse": lambda: rng.normal(size=n) * (rng.random(n) < .5)}[kx]()
    P0 = mat_C(rng, n, kP, low)
    return KF(A, B, H, Q, R, x0, P0), "A=%s H=%s R=%s Q=%s P0=%s B=%s x0=%s" % (kA, kH, kR, kQ, kP, kB if c else "-", kx)


def controls(rng, mod):
    """(model, controls, text): absent, in runs or here and there, constant, partly zero, large against small B."""
    T, c = mod.T, mod.c
    if not c or rng.random() < .25:
        return mod, None, "no u"
    u = rng.normal(size=(T, c)) * 2
    k = pick(rng, generic=5, const=1, zero=.4, sparse=1, onezero=1, int=1, step=.8, impulse=.8)
    if k == "const":
        u[:] = u[0]
    elif k == "zero":
        u[:] = 0
    elif k == "sparse":
        u *= rng.random(size=(T, 1)) < .5
    elif k == "onezero":
        u *= rng.random(size=(T, c)) < .5
    elif k == "int":
        u = rng.integers(-3, 4, size=(T, c)).astype(float)
    elif k == "step":
        u[:int(rng.integers(T))] = 0
    elif k == "impulse":
        j = int(rng.integers(T))
        u[:j] = 0
        u[j + 1:] = 0
    s = int(rng.choice([0, 0, 0, 0, 0, 7, 12, 20, 30, 40])) * int(rng.choice([-1, 1]))
    if s:
        mod, u = mod.replace(B=mod.B * 2.0 ** -s), u * 2.0 ** s
    elif rng.random() < .1:
        u = u * 10.0 ** rng.integers(1, 7)
    a = rng.random()
    if a < .15:
        u[gen.absent(rng, T)] = np.nan
    elif a < .3 and T > 1:
        u[gen.absent(rng, T, True)] = np.nan
    return mod, u, "u=%s 2^%d" % (k, s)


def data(rng, mod, u):
    T, m = mod.T, mod.m
    k = pick(rng, model=4, noise=2, zero=.8, const=.8, agree=1.2, agreethen=1, int=1, wild=2, big=1, innov=1, runs=.8)
    path = np.zeros((T, m))
    x = mod.x0
    for j in range(T):
        x = mod.A[j] @ x
        if u is not None and mod.B is not None and not np.isnan(u[j]).all():
            x = x + mod.B[j] @ u[j]
        path[j] = mod.H[j] @ x
    if k == "agree":
        z = path
    elif k == "agreethen":
        z = path.copy()
        z[int(rng.integers(T)):] += rng.normal()
    elif k == "noise":
        z = rng.normal(size=(T, m)) * 3
    elif k == "zero":
        z = np.zeros((T, m))
    elif k == "const":
        z = np.repeat(rng.normal(size=(1, m)), T, axis=0)
    elif k == "int":
        z = rng.integers(-5, 6, size=(T, m)).astype(float)
    elif k == "wild":
        z = gen.wild(rng, gen.obs(rng, mod, u=u))
    elif k == "big":
        z = rng.normal(size=(T, m)) * 10.0 ** rng.integers(1, 13)
    elif k == "innov":
        z = path + rng.choice([-1, 1], size=(T, m)) * 10.0 ** rng.uniform(.5, 3, size=(T, 1))
    elif k == "runs":
        z = np.repeat(rng.normal(size=(T, m)), int(rng.integers(2, 5)), axis=0)[:T]
    else:
        z = gen.obs(rng, mod, u=u)
    return z, "z=" + k


def pieces(rng, n, m, T, c, pd_only=False):
    mod, a = model(rng, n, m, T, c, pd_only)
    mod, u, b = controls(rng, mod)
    z, d = data(rng, mod, u)
    if rng.random() < .15:              # some components measured without noise, at some steps or at all
        R = mod.R.copy()
        k = rng.permutation(m)[:int(rng.integers(1, min(n, m) + 1))]
        for j in np.flatnonzero(rng.random(T) < .5) if rng.random() < .5 else range(T):
            R[j][k] = 0
            R[j][:, k] = 0
        exact = mod.replace(R=R)
        if tame(rng, exact, z, u, "smooth" if pd_only else "filter", 1e-6):
            mod, d = exact, d + " exact"
    return mod, z, u, "n=%d m=%d T=%d c=%d %s %s %s" % (n, m, T, c, a, b, d)


# ------------------------------------------------------------------ reference recursions (guards only)
def forward(mod, z, u, form):
    x, P, out = mod.x0.astype(float), mod.P0.astype(float), []
    I = np.eye(mod.n)
    for k in range(len(z)):
        A, H = mod.A[k], mod.H[k]
        x = A @ x
        if u is not None and mod.B is not None and not np.isnan(u[k]).all() and not np.isnan(mod.B[k]).all():
            x = x + mod.B[k] @ u[k]
        P = A @ P @ A.T + mod.Q[k]
        S = H @ P @ H.T + mod.R[k]
        K = np.linalg.solve(S.T, H @ P.T).T if form == "solve" else P @ H.T @ np.linalg.inv(S)
        x = x + K @ (z[k] - H @ x)
        if form == "solve":
            P = (I - K @ H) @ P
        else:
            P = (I - K @ H) @ P @ (I - K @ H).T + K @ mod.R[k] @ K.T
        out.append((x, P, K))
    return out


def backward(mod, u, run, form):
    xs, Ps = run[-1][:2]
    out = [(xs, Ps)]
    for k in range(len(run) - 2, -1, -1):
        x, P, _ = run[k]
        A = mod.A[k + 1]
        xa = A @ x
        if u is not None and mod.B is not None and not np.isnan(u[k + 1]).all() and not np.isnan(mod.B[k + 1]).all():
            xa = xa + mod.B[k + 1] @ u[k + 1]
        Pa = A @ P @ A.T + mod.Q[k + 1]
        G = np.linalg.solve(Pa.T, A @ P.T).T if form == "solve" else P @ A.T @ np.linalg.inv(Pa)
        xs, Ps = x + G @ (xs - xa), P + G @ (Ps - Pa) @ G.T
        out.append((xs, Ps))
    return out[::-1]


def whole(mod, z, u, op, form="solve"):
    r = forward(mod, z, u, form)
    K = [a[2] for a in r]
    b = backward(mod, u, r, form) if op == "smooth" else r
    return [a[0] for a in b], [a[1] for a in b], K


def shaken(rng, mod, z, u, d):
    f = lambda a: None if a is None else a * (1 + d * rng.normal(size=a.shape))
    s = lambda a: a * (lambda g: 1 + d * (g + np.swapaxes(g, -1, -2)) / 2)(rng.normal(size=a.shape))
    return KF(f(mod.A), f(mod.B), f(mod.H), s(mod.Q), s(mod.R), f(mod.x0), s(mod.P0)), f(z), f(u)


def spread(a, b):
    """The largest difference, relative to one plus the size of the step's entries."""
    w = 0.0
    for u, v in zip(a, b):
        for p, q in zip(u, v):
            with np.errstate(all="ignore"):
                r = np.abs(p - q).max() / (1 + np.abs(p).max())
            w = max(w, r if np.isfinite(r) else np.inf)
    return w


def tame(rng, mod, z, u, op, limit=1e-9):
    """Whether relative input errors of 1e-13 move no result by more than limit, and equivalent forms agree."""
    try:
        with np.errstate(all="ignore"):
            a = whole(mod, z, u, op)
            if not all(np.isfinite(v).all() for f in a for v in f):
                return False
            if spread(a, whole(mod, z, u, op, "inv")) > limit * 1e-2:
                return False
            return all(spread(a, whole(*shaken(rng, mod, z, u, 1e-13), op)) < limit for _ in range(2))
    except np.linalg.LinAlgError:
        return False


def tamed(rng, n, m, T, c, op="filter", tries=8, limit=1e-9, check=None):
    """A scenario fit for relations: (model, observations, controls, text)."""
    for _ in range(tries):
        s = pieces(rng, n, m, T, c, pd_only=(op == "smooth" and rng.random() < .7))
        if tame(rng, *s[:3], op, limit) and (check is None or check(*s[:3])):
            return s
    mod = gen.kf(rng, n, m, T, c, nice=True)
    u = gen.ctl(rng, T, c) if c and rng.random() < .7 else None
    return mod, gen.obs(rng, mod, u=u), u, "n=%d m=%d T=%d c=%d plain" % (n, m, T, c)


def fits(rng, op, *runs, limit=1e-9):
    """Whether every one of the runs (model, observations, controls) is tame."""
    return all(tame(rng, *r, op, limit) for r in runs)


def scene(rng, n, m, T, c, op="filter", p=.5, present=False, runs=lambda mod, z, u: [(mod, z, u)], tries=6):
    """(model, observations, controls, text), or None: half of the time one whose runs are tame.
    present: the controls are all there."""
    if rng.random() >= p:
        return None
    for _ in range(tries):
        mod, z, u, text = pieces(rng, n, m, T, c, pd_only=(op == "smooth" and rng.random() < .7))
        if present:
            u = rng.normal(size=(T, c)) if u is None else np.nan_to_num(u)
        if fits(rng, op, *runs(mod, z, u)):
            return mod, z, u, text
    return None


def rescaled(rng, mod, z, u, op):
    """The scenario with state components in unequal units, if the recursions stand them."""
    ds = 2.0 ** rng.integers(-14, 15, size=mod.n)
    m2, z2, _ = gen.scale_units(mod, z, u, ds, np.ones(mod.m))
    try:
        with np.errstate(all="ignore"):
            a, b = whole(mod, z, u, op), whole(m2, z2, u, op)
            back = ([x / ds for x in b[0]], [P / np.outer(ds, ds) for P in b[1]], [K / ds[:, None] for K in b[2]])
            inv = whole(m2, z2, u, op, "inv")
            binv = ([x / ds for x in inv[0]], [P / np.outer(ds, ds) for P in inv[1]], [K / ds[:, None] for K in inv[2]])
            if spread(a, back) < 1e-11 and spread(a, binv) < 1e-11:
                return m2, z2, u
    except np.linalg.LinAlgError:
        pass
    return mod, z, u


def symmetric(mod, z, u, op, limit=3e-11):
    """Whether both forms of the recursions give covariances that are symmetric and definite far
    within their scales: those of the filtered ones for the smoothed ones."""
    try:
        with np.errstate(all="ignore"):
            for form in ("solve", "inv"):
                r = forward(mod, z, u, form)
                b = backward(mod, u, r, form) if op == "smooth" else r
                before = [mod.P0] + [P for _, P, _ in r]
                for k, ((_, P, _), (_, S, *_)) in enumerate(zip(r, b)):
                    # what a correction cancels altogether leaves nothing but the rounding of its prior
                    prior = np.abs(np.diag(mod.A[k] @ before[k] @ mod.A[k].T + mod.Q[k]))
                    if op == "smooth" and (np.abs(np.diag(P)) < 1e-6 * prior).any():
                        return False
                    d = np.sqrt(np.abs(np.diag(P)))
                    d[d == 0] = 1
                    N = S / np.outer(d, d)
                    if not np.isfinite(N).all() or np.abs(N - N.T).max() > limit or np.linalg.eigvalsh((N + N.T) / 2)[0] < -limit:
                        return False
        return True
    except np.linalg.LinAlgError:
        return False


# ------------------------------------------------------------------ nonlinear models with bounded nonlinearity
class Net:
    """f(x,u) = A x + B u + a + C tanh(D x + E u) + u0 M x,  h(x) = H x + b + G tanh(F x)."""

    def __init__(self, rng, n, m, c, kH=None):
        nrm = lambda *s: rng.normal(size=s)
        kA = pick(rng, generic=4, identity=2, zero=1, small=1.2, scalar=1, orth=1, nil=.7, nearid=.5, walk=.7)
        kH = kH or pick(rng, generic=4, select=2, square=1, equal=.7, zero=.4, zerorow=.7, zerocol=.5, int=.5)
        kf = pick(rng, some=4, weak=2, strong=1.5, none=1.5)
        kh = pick(rng, some=4, weak=2, strong=1.5, none=1.5)
        self.A, self.H = mat_A(rng, n, kA), mat_H(rng, m, n, kH)
        if kA == "identity" and rng.random() < .3:
            self.A = self.A * .97
        s, t = ({"some": .4, "weak": .02, "strong": 1.5, "none": 0.0}[k] for k in (kf, kh))
        r = int(rng.integers(1, 4))
        self.C, self.D = nrm(n, r) * s, nrm(r, n)
        self.G, self.F = nrm(m, r) * (0 if kH == "zero" and rng.random() < .7 else t), nrm(r, n)
        self.a = nrm(n) * float(rng.choice([0, 0, .3, 1]))
        self.b = nrm(m) * float(rng.choice([0, 0, .5, 3]))
        self.B = nrm(n, c) * float(rng.choice([0, 1, 1, 1]))
        self.E = nrm(r, c) * float(rng.choice([0, 0, 1]))
        self.M = (nrm(n, n) * .05) if c and rng.random() < .3 else None
        self.text = "A=%s H=%s f=%s h=%s" % (kA, kH, kf, kh)

    @staticmethod
    def given(u):
        return u is not None and not np.isnan(np.atleast_1d(np.asarray(u, dtype=float))).all()

    def f(self, x, u):
        g = self.given(u) and self.B.shape[1] > 0
        w = self.D @ x + (self.E @ u if g else 0.0)
        y = self.A @ x + self.a + self.C @ np.tanh(w)
        if g:
            y = y + self.B @ u
            if self.M is not None:
                y = y + np.tanh(u[0]) * (self.M @ x)
        return y

    def JA(self, x, u):
        g = self.given(u) and self.B.shape[1] > 0
        w = self.D @ x + (self.E @ u if g else 0.0)
        J = self.A + (self.C * (1 - np.tanh(w) ** 2)) @ self.D
        if g and self.M is not None:
            J = J + np.tanh(u[0]) * self.M
        return J

    def h(self, x):
        return self.H @ x + self.b + self.G @ np.tanh(self.F @ x)

    def JH(self, x):
        return self.H + (self.G * (1 - np.tanh(self.F @ x) ** 2)) @ self.F


def net(rng, n, m, T, c, op="filter", kH=None):
    """(extended model, observations, controls, text)."""
    N = Net(rng, n, m, c, kH)
    noise = dict(generic=5, unit=1, scalar=1, diag=1.5, small=1, correlated=.7, unequal=.5)
    pdq = op == "smooth" or rng.random() < .7
    kQ, kR, kP = pick(rng, **noise), pick(rng, **noise), pick(rng, **dict(noise, large=.5))
    Q = series(rng, T, lambda: mat_C(rng, n, kQ)) if pdq else series(rng, T, lambda: gen.psd(rng, n, int(rng.integers(0, n + 1))))
    R = series(rng, T, lambda: mat_C(rng, m, kR))
    P0 = mat_C(rng, n, kP) if rng.random() < .85 or op == "smooth" else np.zeros((n, n))
    x0 = rng.normal(size=n) * float(rng.choice([0, 1, 1, 1, 5]))
    mod = EKF(N.f, N.h, Q, R, x0, P0, m, c, JA=N.JA, JH=N.JH, scalar_h=(m == 1 and rng.random() < .5))
    u = None
    if c and rng.random() < .75:
        u = gen.ctl(rng, T, c)
        if rng.random() < .1:
            u = u * 10.0 ** rng.integers(1, 4)
    k = pick(rng, model=4, agree=1.2, noise=1, zero=.7, const=.7, innov=2, runs=.7, far=.7)
    if rng.random() < .12:              # at rest: the state stays where it is until the data say otherwise
        N.a = N.a * 0
        x0 = x0 * 0
        mod, u = mod.replace(x0=x0), None if u is None or rng.random() < .5 else u * (np.arange(T) >= rng.integers(T))[:, None]
        k = "agree"
    x, path = x0.astype(float), np.zeros((T, m))
    for j in range(T):
        x = N.f(x, None if u is None else u[j])
        if k == "model":
            x = x + rng.multivariate_normal(np.zeros(n), Q[j], method="svd")
        path[j] = N.h(x)
    z = path
    if k == "agree" and rng.random() < .4:
        z[int(rng.integers(T)):] += rng.normal()
    if k == "model":
        z = path + rng.normal(size=(T, m)) * np.sqrt(np.diagonal(R, axis1=1, axis2=2))
    elif k == "noise":
        z = rng.normal(size=(T, m)) * 3
    elif k == "zero":
        z = path * 0
    elif k == "const":
        z = np.repeat(rng.normal(size=(1, m)), T, axis=0)
    elif k == "innov":
        z = path + rng.choice([-1, 1], size=(T, m)) * 10.0 ** rng.uniform(0, 3, size=(T, 1)) * (rng.random((T, 1)) < .5)
    elif k == "runs":
        z = np.repeat(rng.normal(size=(T, m)), int(rng.integers(2, 5)), axis=0)[:T]
    elif k == "far":
        z = path + rng.normal(size=m) * 100
    return mod, z, u, "net n=%d m=%d T=%d c=%d %s Q=%s R=%s P0=%s z=%s" % (n, m, T, c, N.text, kQ, kR, kP, k)


def ewhole(mod, z, u, op, form="solve"):
    x, P, run = mod.x0.astype(float), mod.P0.astype(float), []
    I = np.eye(mod.n)
    none = np.full(1, np.nan)
    at = lambda k: none if u is None else u[k]
    for k in range(len(z)):
        A = mod.fj(x, at(k))
        x = mod.fv(x, at(k))
        P = A @ P @ A.T + mod.Q[k]
        H = mod.hj(x)
        S = H @ P @ H.T + mod.R[k]
        K = np.linalg.solve(S.T, H @ P.T).T if form == "solve" else P @ H.T @ np.linalg.inv(S)
        x = x + K @ (z[k] - np.atleast_1d(mod.hv(x)))
        P = (I - K @ H) @ P if form == "solve" else (I - K @ H) @ P @ (I - K @ H).T + K @ mod.R[k] @ K.T
        run.append((x, P, K))
    out = [run[-1][:2]]
    if op == "smooth":
        for k in range(len(run) - 2, -1, -1):
            x, P, _ = run[k]
            A = mod.fj(x, at(k + 1))
            xa, Pa = mod.fv(x, at(k + 1)), A @ P @ A.T + mod.Q[k + 1]
            G = np.linalg.solve(Pa.T, A @ P.T).T if form == "solve" else P @ A.T @ np.linalg.inv(Pa)
            out.append((x + G @ (out[-1][0] - xa), P + G @ (out[-1][1] - Pa) @ G.T))
        out = out[::-1]
    else:
        out = run
    return [a[0] for a in out], [a[1] for a in out], [a[2] for a in run]


def etame(rng, mod, z, u, op, limit=1e-9):
    """As tame, for extended models."""
    f = lambda a, d: None if a is None else a * (1 + d * rng.normal(size=np.shape(a)))
    s = lambda a, d: a * (lambda g: 1 + d * (g + np.swapaxes(g, -1, -2)) / 2)(rng.normal(size=a.shape))
    try:
        with np.errstate(all="ignore"):
            a = ewhole(mod, z, u, op)
            if not all(np.isfinite(v).all() for q in a for v in q):
                return False
            if spread(a, ewhole(mod, z, u, op, "inv")) > limit * 1e-2:
                return False
            return all(spread(a, ewhole(mod.replace(Q=s(mod.Q, 1e-13), R=s(mod.R, 1e-13), x0=f(mod.x0, 1e-13), P0=s(mod.P0, 1e-13)),
                                        f(z, 1e-13), f(u, 1e-13), op)) < limit for _ in range(2))
    except np.linalg.LinAlgError:
        return False


def nets(rng, n, m, T, c, op="filter", tries=8):
    """(extended model, observations, controls, text), a tame one, or None."""
    for _ in range(tries):
        s = net(rng, n, m, T, c, op)
        if etame(rng, *s[:3], op):
            return s
    return None
