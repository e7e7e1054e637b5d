"""Families of operators: a random configuration of the real operator together with the
descriptor of what the specification says it is."""
import numpy as np
import pylops
import pyproximal as pp
from pyproximal.proximal import *  # noqa: F401,F403
from core import mat, num, vec

INF = float("inf")
# iterative ones, of absolute accuracy
NOFAR = ("L2.impl", "Quadratic.impl", "SingularValuePenalty", "Intersection", "QuadraticEnvelopeRankL2", "TV")


class F:
    """one configured operator"""

    def __init__(self, name, desc, make, shape, cx=False, dtype="float64", tol=1e-8, vtol=1e-9, taus=None, pts=None,
                 kind="convex", val=True, dual=True, grad=False, tight=-1e-9, loose=1e-7, proj=None, scale=1.0, tie=None,
                 inn=True, maxtau=None, nd=False, pure=True, cert=None, far=True):
        self.name, self.desc, self.make, self.shape, self.cx, self.dtype = name, desc, make, tuple(np.atleast_1d(shape)), cx, dtype
        self.tol, self.vtol, self.taus, self.pts, self.kind, self.val, self.dual, self.grad = tol, vtol, taus, pts, kind, val, dual, grad
        self.tight, self.loose, self.proj, self.scale, self.tie, self.inn, self.maxtau = tight, loose, proj, scale, tie, inn, maxtau
        self.n = int(np.prod(self.shape))
        self.pure, self.cert, self.far = pure, cert, far and not name.startswith(NOFAR)
        self.whole = not name.startswith(("Hankel",))

    def tau(self, rng):
        if self.taus is not None:
            return float(rng.choice(self.taus))
        t = float(rng.choice([0.25, 0.5, 1.0, 2.0, float(np.round(rng.uniform(0.05, 4.0), 3)), 7.0]))
        if self.far and rng.random() < 0.08:
            t = float(rng.choice([1e-3, 0.02, 40.0, 1e3]))
        if self.maxtau is not None:
            while t >= self.maxtau:
                t = t * 0.4
        return t

    def point(self, rng, j=None):
        """a point; j cycles through the shapes of inputs"""
        n = self.n
        j = int(rng.integers(0, 9)) if j is None else j % 9
        if self.pts is not None and rng.random() < 0.55:
            x = self.pts(rng)
            return self.cast(np.rint(x) if self.whole and rng.random() < 0.1 else x)
        if j == 0:
            x = np.zeros(n)
        elif j in (1, 2):
            x = rng.integers(-6, 7, n) * 0.25
        elif j == 3:
            x = rng.integers(-4, 5, n) * 0.5
        elif j == 4:
            x = rng.normal(size=n) * 0.3
        elif j == 5:
            x = rng.normal(size=n) * 6
        elif j == 6:
            x = np.zeros(n)
            x[rng.integers(0, n)] = rng.choice([-2.5, 1.5, 0.25])
        elif j == 7:
            x = np.full(n, float(rng.choice([-1.5, 0.5, 2.0])))
        else:
            x = rng.normal(size=n) * 1.3
        if self.cx:
            y = rng.integers(-4, 5, n) * 0.5 if j in (1, 2, 3) else rng.normal(size=n) * np.abs(x)
            if j == 0:
                y = np.zeros(n)
            x = x + 1j * y
        if rng.random() < 0.12:
            x = np.rint(x * self.scale * 2) / self.scale
        if self.far and rng.random() < 0.1:
            x = x * float(rng.choice([1e-3, 30.0, 1e3, 1e4, 3e5]))
        return self.cast(x * self.scale)

    def cast(self, x):
        return np.asarray(x).reshape(self.shape).astype(self.dtype)


def r3(rng, lo, hi):
    return float(np.round(rng.uniform(lo, hi), 3))


def pick(rng, *a):
    return a[int(rng.integers(0, len(a)))]


def size(rng, lo, hi):
    """mostly small"""
    return int(rng.integers(12, 40)) if rng.random() < 0.06 else int(rng.integers(lo, hi))


def sigma_(rng):
    if rng.random() < 0.08:
        return pick(rng, 0.01, 20.0, 300.0)
    return pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.2, 3.0))


def rmat(rng, m, n, cx=False):
    a = np.round(rng.normal(size=(m, n)), 2)
    if cx:
        a = a + 1j * np.round(rng.normal(size=(m, n)), 2)
    return a


def rvec(rng, n, cx=False, s=1.0):
    a = np.round(rng.normal(size=n) * s, 2)
    if cx:
        a = a + 1j * np.round(rng.normal(size=n), 2)
    return a


class Implicit(pylops.LinearOperator):
    """a matrix that does not show its entries"""

    def __init__(self, A):
        self.M = A
        super().__init__(dtype=A.dtype, shape=A.shape)
        self.explicit = False

    def _matvec(self, x):
        return self.M @ x

    def _rmatvec(self, x):
        return np.conj(self.M.T) @ x


class Alias(pylops.LinearOperator):
    """the identity, returning the very array it was given"""

    def __init__(self, n, dtype="float64"):
        super().__init__(dtype=np.dtype(dtype), shape=(n, n))
        self.explicit = False

    def matvec(self, x):
        return x

    def rmatvec(self, x):
        return x

    def _matvec(self, x):
        return x

    def _rmatvec(self, x):
        return x


# ------------------------------------------------------------------ convex penalties
def L1_(rng):
    c = int(rng.integers(0, 5))
    s = sigma_(rng)
    if c == 0:
        n = size(rng, 1, 6)
        return F("L1", dict(k="L1", sig=[num(s)] * n, g=["0"] * n, w=1), lambda: pp.L1(sigma=s), n, tol=1e-10)
    if c == 1:
        n = size(rng, 1, 5)
        g = rng.integers(-4, 5, n) * 0.5
        return F("L1.g", dict(k="L1", sig=[num(s)] * n, g=vec(g), w=1), lambda: pp.L1(sigma=s, g=g.copy()), n, tol=1e-10)
    if c == 2:
        n = size(rng, 1, 4)
        return F("L1.cx", dict(k="L1", sig=[num(s)] * n, g=["0"] * (2 * n), w=2), lambda: pp.L1(sigma=s), n, cx=True,
                 dtype="complex128", tol=1e-10, pts=lambda r: r.integers(-2, 3, n) * 3 * 0.25 + 1j * r.integers(-2, 3, n) * 4 * 0.25)
    if c == 3:
        r, q = int(rng.integers(1, 4)), int(rng.integers(2, 4))
        sg = np.round(rng.uniform(0.1, 2.0, q), 2)
        return F("L1.cols", dict(k="L1", sig=vec(np.tile(sg, (r, 1))), g=["0"] * (r * q), w=1), lambda: pp.L1(sigma=sg.copy()), (r, q), tol=1e-10)
    n = size(rng, 1, 6)
    s = float(np.float32(s))
    return F("L1.f32", dict(k="L1", sig=[num(s)] * n, g=["0"] * n, w=1), lambda: pp.L1(sigma=s), n, dtype="float32", tol=1e-5, vtol=1e-5)


def L2_(rng, kinds=None):
    c = pick(rng, *(kinds or ["none", "b", "bq", "q", "f32", "cxb", "dense", "dense", "densecx", "impl", "impl", "implcx"]))
    s, al = sigma_(rng), pick(rng, 1.0, 0.5, -2.0)
    n = size(rng, 1, 5)
    E = []
    d = dict(k="L2", sig=num(s), A=E, b=E, q=E, alpha=num(al), qgrad=True)
    qg = bool(rng.random() < 0.7)
    d["qgrad"] = qg
    b, q = rvec(rng, n), rvec(rng, n)
    if c == "none":
        return F("L2", d, lambda: pp.L2(sigma=s), n, tol=1e-10, grad=True)
    if c == "f32":
        d["b"] = vec(b.astype("float32"))
        return F("L2.f32", d, lambda: pp.L2(b=b.astype("float32"), sigma=s), n, dtype="float32", tol=1e-5, vtol=1e-5, grad=True)
    if c == "cxb":
        b = rvec(rng, n, True)
        d["b"] = vec(b)
        return F("L2.cxb", d, lambda: pp.L2(b=b.copy(), sigma=s), n, cx=True, dtype="complex128", tol=1e-10, grad=True)
    if c in ("b", "bq", "q"):
        if "b" in c:
            d["b"] = vec(b)
        if "q" in c:
            d["q"] = vec(q)
        return F("L2." + c, d, lambda: pp.L2(b=b.copy() if "b" in c else None, q=q.copy() if "q" in c else None, sigma=s, alpha=al, qgrad=qg),
                 n, tol=1e-10, grad=True)
    cx = c.endswith("cx")
    m = int(rng.integers(1, 5))
    if c.startswith("impl"):
        n = min(n, 6)
        q = q[:n]
    A, b = rmat(rng, m, n, cx), rvec(rng, m, cx)
    d["A"], d["b"] = mat(A), vec(b)
    hasq = (not cx) and rng.random() < 0.5
    if hasq:
        d["q"] = vec(q)
    kw = dict(sigma=s, alpha=al, qgrad=qg)
    dt = "complex128" if cx else "float64"
    if c.startswith("dense"):
        ds = pick(rng, None, "numpy", "scipy", "factorize")
        return F("L2.%s.%s" % (c, ds), d, lambda: pp.L2(Op=pylops.MatrixMult(A, dtype=dt), b=b.copy(), q=q.copy() if hasq else None,
                                                        densesolver=ds, **kw), n, cx=cx, dtype=dt, tol=1e-8, grad=True)
    sv = pick(rng, "legacy", "cg", "cgls")
    warm = bool(rng.random() < 0.5)
    x0 = rvec(rng, n, cx) if rng.random() < 0.4 else None
    ks = {"legacy": dict(atol=1e-14, btol=1e-14), "cg": dict(tol=1e-13), "cgls": {}}[sv]
    if sv == "cgls":
        ks = dict(tol=1e-24)
    nit = 12 * n + 20
    return F("L2.%s.%s%s" % (c, sv, ".warm" if warm else ""), d,
             lambda: pp.L2(Op=Implicit(A), b=b.copy(), q=q.copy() if hasq else None, niter=nit, warm=warm,
                           x0=None if x0 is None else x0.copy(), solver=sv, kwargs_solver=dict(ks), **kw),
             n, cx=cx, dtype=dt, tol=2e-5, grad=True)


def Conv_(rng):
    s = sigma_(rng)
    c = pick(rng, "1d", "1d", "nd", "ndh")
    cx = rng.random() < 0.25
    L = int(rng.integers(1, 4))
    if c == "1d":
        full, ax = (int(rng.integers(2, 5)),), 0
        dr = 0
    else:
        full = pick(rng, (2, 3), (3, 2), (2, 2), (2, 2, 2)) if not cx else (2, 2)
        ax = int(rng.integers(0, len(full)))
        dr = pick(rng, ax, ax - len(full)) if ax != len(full) - 1 else pick(rng, ax, None, -1)
    n = int(np.prod(full))
    hs = list(full)
    hs[ax] = L
    hx, bx = pick(rng, (True, True), (True, True), (False, False), (True, False), (False, True)) if cx else (False, False)
    h = rvec(rng, L, hx) if c != "ndh" else rvec(rng, int(np.prod(hs)), hx).reshape(hs)
    b = rvec(rng, n, bx).reshape(full)
    nfft = full[ax] + L - 1 + int(rng.integers(0, 2))
    if c == "1d":
        mk = lambda: pp.L2Convolve(h.copy(), b.copy(), nfft=nfft, sigma=s)  # noqa: E731
    else:
        mk = lambda: pp.L2Convolve(h.copy(), b.copy(), nfft=nfft, sigma=s, dims=full, dir=dr)  # noqa: E731
    fullp = list(full)
    fullp[ax] = nfft
    NP = int(np.prod(fullp))
    dt = complex if cx else float
    # padding P and circular convolution C, as explicit matrices
    P = np.zeros((NP, n))
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1
        z = np.zeros(fullp)
        z[tuple(slice(0, k) for k in full)] = e.reshape(full)
        P[:, j] = z.ravel()
    C = np.zeros((NP, NP), dt)
    for j in range(NP):
        e = np.zeros(NP)
        e[j] = 1
        e = e.reshape(fullp)
        z = np.zeros(fullp, dt)
        for t in range(L):
            z = z + (h[t] if h.ndim == 1 else h[tuple(slice(t, t + 1) if a == ax else slice(None) for a in range(len(full)))]) * np.roll(e, t, axis=ax)
        C[:, j] = z.ravel()
    bp = np.zeros(fullp, dt)
    bp[tuple(slice(0, k) for k in full)] = b.reshape(full)
    P = P.astype(dt)
    d = dict(k="Conv", sig=num(s), H=mat(C @ P), C=mat(C), P=mat(P), b=vec(bp))
    return F("L2Convolve." + c + (".cx" if cx else ""), d, mk, (n,), cx=cx, dtype="complex128" if cx else "float64", tol=1e-9, grad=True, dual=True)


def Euclid_(rng):
    s = sigma_(rng)
    cx = rng.random() < 0.4
    n = size(rng, 1, 5)
    return F("Euclidean" + (".cx" if cx else ""), dict(k="Euclid", sig=num(s)), lambda: pp.Euclidean(sigma=s), n, cx=cx,
             dtype="complex128" if cx else "float64", tol=1e-10, grad=True,
             pts=lambda r: pick(r, np.r_[3.0, 4.0, np.zeros(max(0, n - 2))][:n], np.r_[0.3, 0.4, np.zeros(max(0, n - 2))][:n] * s))


def L21_(rng):
    s, nd, m = sigma_(rng), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if rng.random() < 0.3:
        return F("L21.cx", dict(k="L21", sig=num(s), nd=nd, w=2), lambda: pp.L21(nd, sigma=s), nd * m, cx=True, dtype="complex128", tol=1e-10)
    base = np.array([0.0, 3.0, 4.0])[3 - nd:] if nd < 3 else np.array([2.0, 1.0, 2.0])
    return F("L21", dict(k="L21", sig=num(s), nd=nd), lambda: pp.L21(nd, sigma=s), nd * m, tol=1e-10,
             pts=lambda r: np.outer(base, r.integers(-2, 3, m) * 0.5).ravel())


class Axis1(pp.ProxOperator):
    """the calls of the sparse-group norm with the axis of its groups given"""

    def __init__(self, s, rho):
        super().__init__(None, False)
        self.f = pp.L21_plus_L1(sigma=s, rho=rho)

    def __call__(self, x):
        return self.f(x)

    def prox(self, x, tau):
        return self.f.prox(x, tau, axis=1)

    def proxdual(self, x, tau):
        return self.f.proxdual(x, tau, axis=1)


def L21L1_(rng):
    s, nd, m = sigma_(rng), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    rho = pick(rng, 0.0, 0.25, 0.5, 0.8, 1.0)
    if rng.random() < 0.25:
        return F("L21_plus_L1.cx", dict(k="L21L1", sig=num(s), rho=num(rho), nd=nd, ax=0, w=2),
                 lambda: pp.L21_plus_L1(sigma=s, rho=rho), (nd, m), cx=True, dtype="complex128", tol=1e-10)
    if rng.random() < 0.3:
        # grouping along the other axis
        return F("L21_plus_L1.axis1" + (".rho1" if rho == 1.0 else ""), dict(k="L21L1", sig=num(s), rho=num(rho), nd=nd, ax=1),
                 lambda: Axis1(s, rho), (m, nd), tol=1e-10, val=False)
    return F("L21_plus_L1" + (".rho1" if rho == 1.0 else ""), dict(k="L21L1", sig=num(s), rho=num(rho), nd=nd, ax=0),
             lambda: pp.L21_plus_L1(sigma=s, rho=rho), (nd, m), tol=1e-10)


def Huber_(rng):
    a, n = pick(rng, 0.25, 0.5, 1.0, 2.0, r3(rng, 0.2, 3), 0.01, 40.0), int(rng.integers(1, 5))
    cx = rng.random() < 0.3
    return F("Huber" + (".cx" if cx else ""), dict(k="Huber", alpha=num(a), w=2 if cx else 1), lambda: pp.Huber(alpha=a), n, cx=cx,
             dtype="complex128" if cx else "float64", tol=1e-10, pts=lambda g: g.normal(size=n) * a * pick(g, 0.5, 1, 2))


def HuberC_(rng):
    a, n = pick(rng, 0.25, 1.0, r3(rng, 0.2, 3), 0.01, 40.0), int(rng.integers(1, 5))
    cx = rng.random() < 0.4
    return F("HuberCircular" + (".cx" if cx else ""), dict(k="HuberC", alpha=num(a)), lambda: pp.HuberCircular(alpha=a), n, cx=cx,
             dtype="complex128" if cx else "float64", tol=1e-10, pts=lambda g: g.normal(size=n) * a * pick(g, 0.5, 1, 2))


def Quad_(rng):
    n = int(rng.integers(1, 5))
    B = rmat(rng, n, n)
    A = np.round(B.T @ B / 2, 3)
    A = (A + A.T) / 2
    b, c = rvec(rng, n), r3(rng, -2, 2)
    t = pick(rng, "dense", "impl", "b", "nob", "none")
    if t == "none":
        return F("Quadratic.none", dict(k="Quad", A=[], b=["0"] * n, c=num(c)), lambda: pp.Quadratic(c=c), n, tol=1e-10, grad=True)
    if t == "b":
        return F("Quadratic.b", dict(k="Quad", A=[], b=vec(b), c=num(c)), lambda: pp.Quadratic(b=b.copy(), c=c), n, tol=1e-10, grad=True)
    if t == "nob":
        return F("Quadratic.nob", dict(k="Quad", A=mat(A), b=["0"] * n, c=num(c)), lambda: pp.Quadratic(Op=pylops.MatrixMult(A), c=c), n, tol=1e-8, grad=True)
    if t == "dense":
        return F("Quadratic.dense", dict(k="Quad", A=mat(A), b=vec(b), c=num(c)), lambda: pp.Quadratic(Op=pylops.MatrixMult(A), b=b.copy(), c=c), n,
                 tol=1e-8, grad=True)
    warm = bool(rng.random() < 0.5)
    return F("Quadratic.impl", dict(k="Quad", A=mat(A), b=vec(b), c=num(c)),
             lambda: pp.Quadratic(Op=Implicit(A), b=b.copy(), c=c, niter=20 * n + 20, warm=warm), n, tol=5e-5, grad=True)


def lowrank(rng, dim):
    k = int(rng.integers(1, min(dim) + 1))
    return (rvec(rng, dim[0] * k).reshape(dim[0], k) @ rvec(rng, dim[1] * k).reshape(k, dim[1])).ravel()


def diagmat(rng, dim, vals):
    X = np.zeros(dim)
    for i in range(min(dim)):
        X[i, i] = vals[int(rng.integers(0, len(vals)))]
    return X.ravel()


def Nuclear_(rng):
    dim = pick(rng, (2, 2), (3, 2), (2, 3), (1, 3), (3, 1), (3, 3))
    k = min(dim)
    if rng.random() < 0.6:
        s = sigma_(rng)
        sg, arg = [s] * k, s
    else:
        a = np.sort(np.round(rng.uniform(0.1, 2, pick(rng, k, dim[1])), 2))
        sg, arg = list(a[:k]), a
    if rng.random() < 0.25:
        return F("Nuclear.cx" + ("" if np.isscalar(arg) else ".w"), dict(k="Nuclear", dim=list(dim), sig=[num(v) for v in sg], w=2),
                 lambda: pp.Nuclear(dim, sigma=arg), dim[0] * dim[1], cx=True, dtype="complex128", tol=1e-8, vtol=3e-7)
    return F("Nuclear" + ("" if np.isscalar(arg) else ".w"), dict(k="Nuclear", dim=list(dim), sig=[num(v) for v in sg]),
             lambda: pp.Nuclear(dim, sigma=arg), dim[0] * dim[1], tol=1e-8, vtol=3e-7,
             pts=lambda r: pick(r, lowrank(r, dim), diagmat(r, dim, [0.5, 1.0, 2.0, -1.0, 0.0])))


def tvcert(x, g):
    """a dual field for the prox of g*TV at x (accelerated projected gradient); checked by the specification"""
    nd = x.ndim

    def D(z):
        r = np.zeros((nd,) + z.shape, x.dtype)
        for a in range(nd):
            sl = tuple(slice(0, -1) if b == a else slice(None) for b in range(nd))
            r[(a,) + sl] = np.diff(z, axis=a)
        return r

    def Dt(p):
        r = np.zeros(x.shape, x.dtype)
        for a in range(nd):
            m = x.shape[a]
            sl = lambda s: tuple(s if b == a else slice(None) for b in range(nd))  # noqa: E731
            q = p[a][sl(slice(0, m - 1))]
            r[sl(slice(1, m))] += q
            r[sl(slice(0, m - 1))] -= q
        return r
    p = np.zeros((nd,) + x.shape, x.dtype)
    r, t = p, 1.0
    for it in range(4000):
        z = r + D(x - g * Dt(r)) / (4 * nd * g)
        q = z / np.maximum(1, np.sqrt((np.abs(z) ** 2).sum(axis=0)))
        t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
        if (np.conj(r - q) * (q - p)).sum().real > 0:
            t2 = 1.0
        r, p, t = q + (t - 1) / t2 * (q - p), q, t2
        if it % 50 == 49:
            y = x - g * Dt(p)
            P = (np.abs(y - x) ** 2).sum() / 2 + g * np.sqrt((np.abs(D(y)) ** 2).sum(axis=0)).sum()
            if P - ((np.abs(x) ** 2).sum() - (np.abs(y) ** 2).sum()) / 2 < 1e-12:
                break
    return [vec(p[a]) for a in range(nd)]


def TV_(rng):
    dims = pick(rng, (2,), (3,), (4,), (6,), (2, 2), (2, 3), (3, 2), (3, 3), (2, 2, 2), (2, 3, 2), (2, 2, 2, 2))
    s = sigma_(rng)
    n = int(np.prod(dims))
    if rng.random() < 0.2:
        return F("TV%d.cx" % len(dims), dict(k="TV", dims=list(dims), sig=num(s), w=2), lambda: pp.TV(dims=dims, sigma=s, niter=600, rtol=0.0), n, cx=True,
                 dtype="complex128", tol=1e-5, vtol=1e-9, taus=[0.1, 0.25, 0.5, 1.0], cert=lambda x, tau: tvcert(x.reshape(dims), tau * s))
    if len(dims) == 1 and rng.random() < 0.4:
        return F("TV1.none", dict(k="TV", dims=list(dims), sig=num(s)), lambda: pp.TV(None, sigma=s, niter=600, rtol=0.0), n,
                 tol=1e-5, vtol=1e-9, taus=[0.1, 0.25, 0.5, 1.0], cert=lambda x, tau: tvcert(x.reshape(dims), tau * s))
    return F("TV%d" % len(dims), dict(k="TV", dims=list(dims), sig=num(s)), lambda: pp.TV(dims=dims, sigma=s, niter=600, rtol=0.0), n,
             tol=1e-5, vtol=1e-9, taus=[0.1, 0.25, 0.5, 1.0], cert=lambda x, tau: tvcert(x.reshape(dims), tau * s))


CONVEX = [L1_, L1_, L2_, L2_, L2_, Conv_, Euclid_, L21_, L21L1_, Huber_, HuberC_, Quad_, Nuclear_, TV_]


# ------------------------------------------------------------------ sets
def Box_(rng):
    n = size(rng, 1, 5)
    t = int(rng.integers(0, 4))
    if t == 0:
        lo, up = float(rng.integers(-4, 1)) * 0.5, float(rng.integers(0, 5)) * 0.5
        L, U = np.full(n, lo), np.full(n, up)
    elif t == 1:
        L = rng.integers(-4, 3, n) * 0.5
        U = L + rng.integers(0, 4, n) * 0.5
        if rng.random() < 0.3:
            # bounds of some coordinates only
            L, U = np.where(rng.random(n) < 0.4, -INF, L), np.where(rng.random(n) < 0.4, INF, U)
        lo, up = L, U
    elif t == 2:
        lo, up = float(rng.integers(-3, 3)) * 0.5, INF
        L, U = np.full(n, lo), np.full(n, up)
    else:
        lo, up = -INF, float(rng.integers(-3, 3)) * 0.5
        L, U = np.full(n, lo), np.full(n, up)
    return F("Box", dict(k="Box", lo=vec(L), up=vec(U)), lambda: pp.Box(lower=lo, upper=up), n, kind="set", tol=1e-12, tight=0.0, loose=1e-12,
             proj=lambda: pp.projection.BoxProj(lo, up))


def Ball_(rng):
    n = size(rng, 1, 5)
    cx = rng.random() < 0.3
    c = float(rng.integers(-2, 3)) * 0.5 if rng.random() < 0.5 else rng.integers(-3, 4, n) * 0.5
    C = np.full(n, c) if np.isscalar(c) else c
    if cx:
        C = C.astype(complex)
    r = pick(rng, 0.5, 1.0, 2.0, 2.5)
    return F("EuclideanBall" + (".cx" if cx else ""), dict(k="Ball", c=vec(C), r=num(r)), lambda: pp.EuclideanBall(c, r), n, kind="set",
             cx=cx, dtype="complex128" if cx else "float64", tol=1e-10, proj=lambda: pp.projection.EuclideanBallProj(c, r),
             pts=lambda g: C + pick(g, 1.0, 0.5, 1.0001, 2.0, 0.0) * r * unit(g, n))


def unit(g, n):
    u = g.normal(size=n)
    return u / np.linalg.norm(u)


def Half_(rng):
    n = size(rng, 1, 5)
    w = rng.integers(-3, 4, n) * 0.5
    if not w.any():
        w[0] = 1.0
    b = float(rng.integers(-3, 4)) * 0.5
    return F("HalfSpace", dict(k="Half", h=vec(w), b=num(b)), lambda: pp.HalfSpace(w.copy(), b), n, kind="set", tol=1e-10, tight=-1e-12, loose=1e-12,
             proj=lambda: pp.projection.HalfSpaceProj(w.copy(), b), pts=lambda g: onplane(g, w, b) + pick(g, 0, 0, 1e-3, -1e-3, 1.0, -1.0) * w)


def onplane(g, a, s):
    """a point with a'x = s up to rounding: spread out, or with a coordinate alone moved to reach the plane"""
    x = g.integers(-6, 7, len(a)) * pick(g, 0.25, 0.5, 1.5)
    if g.random() < 0.5:
        return x + (s - a @ x) / (a @ a) * a
    i = int(np.argmax(np.abs(a)))
    x[i] += (s - a @ x) / a[i]
    return x


def Affine_(rng):
    n = size(rng, 2, 5)
    m = int(rng.integers(1, n))
    while True:
        A = rmat(rng, m, n)
        if np.linalg.svd(A)[1][-1] > 0.3:
            break
    xs = rvec(rng, n)
    b = A @ xs
    ex = rng.random() < 0.5
    mk = lambda: (pylops.MatrixMult(A) if ex else Implicit(A))  # noqa: E731
    N = np.eye(n) - np.linalg.pinv(A) @ A
    return F("AffineSet", dict(k="Affine", A=mat(A), b=vec(b)), lambda: pp.AffineSet(mk(), b.copy(), 100), n, kind="set", tol=1e-3, tight=1e-9, loose=1e-3,
             proj=lambda: pp.projection.AffineSetProj(mk(), b.copy(), 100), pts=lambda g: xs + pick(g, 0, 1, 1) * N @ g.normal(size=n) * 2 + pick(g, 0, 0, 1) * A.T @ g.normal(size=m))


def onsimplex(g, n, r):
    x = g.dirichlet(np.ones(n)) * r
    if n > 1 and g.random() < 0.25:
        # on the plane of the simplex and outside, or a corner of it
        x = onplane(g, np.ones(n), r) if g.random() < 0.6 else r * np.eye(n)[int(g.integers(0, n))]
    return x


WARM = []


def warm():
    """compile the numba engine once per process, outside the recorder's time limits"""
    if not WARM:
        WARM.append(1)
        for dt in ("float64", "float32"):
            for dims in (None, (2, 2)):
                try:
                    pp.Simplex(4, 1.0, dims=dims, engine="numba").prox(np.ones(4, dt), 1.0)
                except Exception:  # noqa: BLE001
                    pass


def Simplex_(rng):
    r = pick(rng, 0.5, 1.0, 2.0, 3.5, 40.0)
    eng = pick(rng, "numpy", "numpy", "numba")
    if eng == "numba":
        warm()
    kw = dict(engine=eng, maxiter=200, xtol=1e-12, ftol=1e-12)
    if rng.random() < 0.15:
        kw = dict(engine=eng)
    deft = 1e-9 if "xtol" in kw else 1e-6
    if eng == "numpy" and rng.random() < 0.2:
        n = size(rng, 2, 6)
        return F("Simplex.lib", dict(k="Simplex", rows=[list(range(1, n + 1))], r=num(r), multi=False), lambda: pp.Simplex(n, r), n, kind="set",
                 tol=2e-4, tight=1e-12, loose=1e-7, proj=lambda: pp.projection.SimplexProj(n, r), pts=lambda g: onsimplex(g, n, r))
    if rng.random() < 0.45:
        n = size(rng, 1, 6)
        return F("Simplex.%s" % eng, dict(k="Simplex", rows=[list(range(1, n + 1))], r=num(r), multi=False), lambda: pp.Simplex(n, r, **kw), n, kind="set",
                 tol=deft, tight=1e-12, loose=1e-7, proj=(lambda: pp.projection.SimplexProj(n, r, 200, 1e-12)) if deft == 1e-9 else None,
                 pts=lambda g: onsimplex(g, n, r))
    dims = pick(rng, (2, 3), (3, 2), (1, 3), (2, 2), (3, 1), (2, 4))
    axis = pick(rng, 0, 1, -1) if not (eng == "numba") else pick(rng, 0, 1)
    ix = np.arange(1, dims[0] * dims[1] + 1).reshape(dims)
    rows = (ix.T if axis == 0 else ix).tolist()

    def p(g):
        X = np.array([onsimplex(g, len(rows[0]), r) * pick(g, 1, 1, 1, 0.5) for _ in rows])
        return (X.T if axis == 0 else X).ravel()
    return F("Simplex.%s.2d" % eng, dict(k="Simplex", rows=rows, r=num(r), multi=True), lambda: pp.Simplex(dims[0] * dims[1], r, dims=dims, axis=axis, **kw),
             dims[0] * dims[1], kind="set", tol=deft, tight=1e-12, loose=1e-7, pts=p)


def acc(rng):
    """settings of a bisection and the accuracy they promise: mostly tight ones, sometimes the library's own"""
    return (dict(maxiter=200, xtol=1e-12), 1e-8) if rng.random() < 0.8 else ({}, 2e-4)


def L1Ball_(rng):
    n = size(rng, 1, 5)
    cx = rng.random() < 0.3
    r = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.3, 4), 60.0)
    kw, tl = acc(rng)
    w = 2 if cx else 1

    def p(g):
        s = g.choice([-1.0, 1.0], n) if not cx else np.exp(1j * g.uniform(0, 6.28, n))
        return onsimplex(g, n, r) * s * pick(g, 0.3, 0.9, 1.0, 1.7)
    return F("L1Ball" + (".cx" if cx else ""), dict(k="L1Ball", r=num(r), w=w), lambda: pp.L1Ball(n, r, **kw), n, kind="set", cx=cx,
             dtype="complex128" if cx else "float64", tol=tl, tight=1e-9, loose=2e-4, proj=lambda: pp.projection.L1BallProj(n, r, **kw), pts=p)


def as2(proj, dim):
    """a projection of matrices, called on its own with matrices stored by rows, by columns and as parts of larger ones"""
    n = [0]

    def f(x):
        n[0] += 1
        X = x.reshape(dim)
        if n[0] % 3 == 1:
            X = np.asfortranarray(X)
        elif n[0] % 3 == 2:
            B = np.full((2 * dim[0] + 1, dim[1] + 1), 7, X.dtype)
            B[1::2, 1:] = X
            X = B[1::2, 1:]
        keep = X.copy()
        Y = np.asarray(proj(X))
        assert np.array_equal(keep, X), "the caller's matrix was changed"
        assert Y.shape == tuple(dim), "shape %s" % (Y.shape,)
        return Y.ravel()
    return f


def NucBall_(rng):
    dim = pick(rng, (2, 2), (3, 2), (2, 3), (3, 3))
    r = pick(rng, 0.5, 1.0, 3.0)
    cx = rng.random() < 0.3
    kw, tl = acc(rng)
    return F("NuclearBall" + (".cx" if cx else ""), dict(k="NucBall", dim=list(dim), r=num(r), w=2 if cx else 1), lambda: pp.NuclearBall(dim, r, **kw), dim[0] * dim[1],
             kind="set", cx=cx, dtype="complex128" if cx else "float64", tol=tl, tight=1e-10, loose=2e-5, proj=lambda: as2(pp.projection.NuclearBallProj(min(dim), r, **kw), dim), pts=lambda g: pick(g, lowrank(g, dim), 0.1 * lowrank(g, dim)))


def L0Ball_(rng):
    n = size(rng, 1, 6)
    r = int(rng.integers(0, n + 1))
    cx = rng.random() < 0.25
    return F("L0Ball" + (".r0" if r == 0 else ""), dict(k="L0Ball", r=r, w=2 if cx else 1), lambda: pp.L0Ball(r), n, kind="set", cx=cx,
             dtype="complex128" if cx else "float64", tol=1e-12, tight=0.0, loose=0.0, proj=lambda: as2(pp.projection.L0BallProj(r), (n // 2, 2) if n % 2 == 0 else (1, n)))


def L10Ball_(rng):
    nd, m = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    r = int(rng.integers(0, m + 1))
    cx = rng.random() < 0.25
    return F("L10Ball" + (".r0" if r == 0 else ""), dict(k="L10Ball", nd=nd, r=r, w=2 if cx else 1), lambda: pp.L10Ball(nd, r), nd * m, kind="set", cx=cx,
             dtype="complex128" if cx else "float64", tol=1e-12, tight=0.0, loose=0.0, proj=lambda: as2(pp.projection.L10BallProj(r), (nd, m)))


def Hankel_(rng):
    dim = pick(rng, (2, 2), (3, 2), (2, 3), (3, 3), (1, 3), (4, 2))

    def p(g):
        v = g.normal(size=dim[0] + dim[1] - 1)
        return np.array([[v[i + j] for j in range(dim[1])] for i in range(dim[0])]).ravel()
    return F("Hankel", dict(k="Hankel", dim=list(dim)), lambda: pp.Hankel(dim), dim[0] * dim[1], kind="set", tol=1e-10, tight=1e-10, loose=1e-3, pts=p,
             proj=lambda: as2(pp.projection.HankelProj(), dim))


def Inter_(rng):
    k, n = int(rng.integers(2, 4)), int(rng.integers(1, 4))
    if rng.random() < 0.5:
        s = pick(rng, 0.5, 1.0, 2.0)
        S = np.full((k, k), s)
    else:
        a = rng.integers(1, 5, (k, k)) * 0.5
        S = (a + a.T) / 2
        if rng.random() < 0.3:
            # one distance per pair i < j
            S = np.triu(S)
        s = S


    def cert(x, tau):
        x = x.reshape(k, n).copy()
        x0, p = x.copy(), np.zeros((k, k, n))
        for it in range(3000):
            old, pold = x.copy(), p.copy()
            for i in range(k - 1):
                for j in range(i + 1, k):
                    d = x[i] - x[j] + 2 * p[i, j]
                    e = np.sign(d) * np.maximum(np.abs(d) - S[i, j], 0) / 2
                    x[i] += p[i, j] - e
                    x[j] -= p[i, j] - e
                    p[i, j] = e
            if max(np.abs(x - old).max(), np.abs(p - pold).max()) < 1e-14:
                break
        return [[vec(p[i, j]) for j in range(k)] for i in range(k)]
    return F("Intersection", dict(k="Inter", kk=k, n=n, sig=mat(S)), lambda: pp.Intersection(k, n, s if np.isscalar(s) else s.copy(), niter=3000, tol=1e-11),
             k * n, kind="set", tol=1e-7, tight=1e-9, loose=1e-6, cert=cert, proj=lambda: pp.projection.IntersectionProj(k, n, s if np.isscalar(s) else s.copy(), 3000, 1e-11))


def Hyper_(rng):
    """a projection without an operator of its own"""
    n = size(rng, 1, 5)
    a = np.round(rng.uniform(0.3, 2.0, n), 2) * rng.choice([-1, 1], n)
    L = rng.integers(-4, 1, n) * 0.5
    U = L + rng.integers(1, 5, n) * 0.5
    x = L + (U - L) * rng.uniform(0.1, 0.9, n)
    s = float(np.round(a @ x, 6))
    kw, tl = acc(rng)
    return F("HyperPlaneBox", dict(k="Hyper", a=vec(a), s=num(s), lo=vec(L), up=vec(U)), None, n, kind="set", tol=tl,
             proj=lambda: pp.projection.HyperPlaneBoxProj(a.copy(), s, L.copy(), U.copy(), **kw), pts=lambda g: pick(g, onplane(g, a, s), L + (U - L) * g.integers(0, 2, n)))


SETS = [Box_, Ball_, Half_, Affine_, Simplex_, Simplex_, L1Ball_, NucBall_, L0Ball_, L10Ball_, Hankel_, Inter_, Hyper_]


# ------------------------------------------------------------------ non-convex penalties
def nc_pts(n, th):
    """points around the given magnitudes, either side"""
    def p(g):
        t = np.array([th[int(g.integers(0, len(th)))] for _ in range(n)])
        return g.choice([-1.0, 1.0], n) * t * g.choice([1.0, 0.999, 1.001, 1.05, 0.95, 0.5, 2.0], n)
    return p


def crit(rng, f1, g):
    """parameters where the step times the curvature at zero is about one: a stationary point appears out of zero.
    f1: slope at zero over sigma; returns sigma, the steps and points around tau * slope"""
    t = pick(rng, 0.5, 1.0, 2.0)
    c = pick(rng, 1.0, 0.98, 0.9, 1.05)
    return t, c, dict(taus=[t], pts=lambda q: q.choice([-1.0, 1.0], 4) * f1 * c * q.choice([1.0, 1.001, 1.02, 1.1, 0.98, 1.3], 4))


def Log_(rng):
    if rng.random() < 0.12:
        g = pick(rng, 0.5, 1.3, 3.0)
        t, c, kw = crit(rng, 1 / g, g)
        s = c * np.log(1 + g) / (t * g * g)
        return F("Log.crit", dict(k="Log", sig=num(s), gamma=num(g), w=1), lambda: pp.Log(s, g), 4, kind="nc", tol=1e-9, **kw)
    n = size(rng, 1, 5)
    s, g = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 4), 0.0, 0.01, 30.0), pick(rng, 0.5, 1.3, 3.0, r3(rng, 0.2, 6), 0.02, 60.0)
    cx = rng.random() < 0.25
    return F("Log" + (".cx" if cx else ""), dict(k="Log", sig=num(s), gamma=num(g), w=2 if cx else 1), lambda: pp.Log(s, g), n, kind="nc", cx=cx, dtype="complex128" if cx else "float64", tol=1e-9, pts=nc_pts(n, [s, 1.0, np.sqrt(2 * s) + 0.01]))


def Log1_(rng):
    n = size(rng, 1, 5)
    cx = rng.random() < 0.35
    s, d = pick(rng, 0.5, 2.0, 0.125, r3(rng, 0.1, 4)), pick(rng, 1e-10, 0.1, 0.05, 1e-3, 0.5, 2.0)
    return F("Log1" + (".cx" if cx else ""), dict(k="Log1", sig=num(s), delta=num(d), w=2 if cx else 1), lambda: pp.Log1(s, d), n, kind="nc", cx=cx,
             dtype="complex128" if cx else "float64", tol=1e-9, vtol=1e-9)


def ETP_(rng):
    if rng.random() < 0.12:
        g = pick(rng, 0.5, 1.0, 3.0)
        t, c, kw = crit(rng, 1 / g, g)
        s = c * (1 - np.exp(-g)) / (t * g * g)
        return F("ETP.crit", dict(k="ETP", sig=num(s), gamma=num(g), w=1), lambda: pp.ETP(s, g), 4, kind="nc", tol=1e-9, **kw)
    n = size(rng, 1, 5)
    s, g = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 4), 0.0, 0.01, 30.0), pick(rng, 0.5, 1.0, 3.0, r3(rng, 0.2, 6), 0.02, 60.0)
    cx = rng.random() < 0.25
    return F("ETP" + (".cx" if cx else ""), dict(k="ETP", sig=num(s), gamma=num(g), w=2 if cx else 1), lambda: pp.ETP(s, g), n, kind="nc", cx=cx, dtype="complex128" if cx else "float64", tol=1e-9, pts=nc_pts(n, [s, 1.0, np.sqrt(2 * s) + 0.01]))


def Geman_(rng):
    if rng.random() < 0.12:
        g = pick(rng, 0.5, 1.0, 3.0)
        t, c, kw = crit(rng, g / 2, g)
        s = c * g * g / (2 * t)
        return F("Geman.crit", dict(k="Geman", sig=num(s), gamma=num(g), w=1), lambda: pp.Geman(s, g), 4, kind="nc", tol=1e-9, **kw)
    n = size(rng, 1, 5)
    s, g = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 4), 0.0, 0.01, 30.0), pick(rng, 0.5, 1.3, 3.0, r3(rng, 0.2, 6), 0.02, 60.0)
    cx = rng.random() < 0.25
    return F("Geman" + (".cx" if cx else ""), dict(k="Geman", sig=num(s), gamma=num(g), w=2 if cx else 1), lambda: pp.Geman(s, g), n, kind="nc", cx=cx, dtype="complex128" if cx else "float64", tol=1e-9,
             pts=nc_pts(n, [s, g, 2 * g, 1.0, np.sqrt(2 * s) + 0.01]))


def SCAD_(rng):
    n = size(rng, 1, 5)
    s, a = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 4), 0.01, 30.0), pick(rng, 3.7, 2.5, 5.0, 2.05, 30.0)
    cx = rng.random() < 0.25
    return F("SCAD" + (".cx" if cx else ""), dict(k="SCAD", sig=num(s), a=num(a), w=2 if cx else 1), lambda: pp.SCAD(s, a), n, kind="nc", cx=cx, dtype="complex128" if cx else "float64", tol=1e-9, maxtau=a - 1.05,
             pts=nc_pts(n, [s, a * s, 2 * s]))


def RMS_(rng):
    n = 1 if rng.random() < 0.5 else int(rng.integers(2, 5))
    s, k = pick(rng, 0.5, 1.0, 2.0), pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.2, 3))
    cx = rng.random() < 0.25
    return F("RelaxedMumfordShah", dict(k="RMS", sig=num(s), kappa=num(k), w=2 if cx else 1), lambda: pp.RelaxedMumfordShah(s, k), n, kind="nc", cx=cx,
             dtype="complex128" if cx else "float64", tol=1e-9, pts=nc_pts(n, [np.sqrt(k / s), np.sqrt(k / s * (1 + 2 * s)), np.sqrt(k / s * (1 + s))]))


def QEC_(rng):
    n = size(rng, 1, 5)
    mu = pick(rng, 0.5, 2.0, 0.125, r3(rng, 0.1, 3))
    cx = rng.random() < 0.25
    return F("QuadraticEnvelopeCard" + (".cx" if cx else ""), dict(k="QEC", mu=num(mu), w=2 if cx else 1), lambda: pp.QuadraticEnvelopeCard(mu), n, kind="nc", cx=cx, dtype="complex128" if cx else "float64", tol=1e-9,
             pts=nc_pts(n, [np.sqrt(2 * mu), np.sqrt(2 * mu) * 1.5, 0.5 * np.sqrt(2 * mu), np.sqrt(4 * mu)]))


def QECI_(rng):
    n = size(rng, 2, 6)
    r0 = int(rng.integers(1, n + 1))
    return F("QuadraticEnvelopeCardIndicator", dict(k="QECI", r0=r0), lambda: pp.QuadraticEnvelopeCardIndicator(r0), n, kind="nc", tol=1e-8)


def QERL2_(rng):
    dim = pick(rng, (2, 2), (3, 2), (2, 3), (3, 3), (4, 3))
    r0 = int(rng.integers(1, min(dim) + 1))
    M = rmat(rng, *dim)
    return F("QuadraticEnvelopeRankL2", dict(k="QERL2", dim=list(dim), r0=r0, M=vec(M)), lambda: pp.QuadraticEnvelopeRankL2(dim, r0, M.copy()),
             dim[0] * dim[1], kind="nc", tol=1e-7, vtol=1e-6)


def SVP_(rng):
    dim = pick(rng, (2, 2), (3, 2), (2, 3), (3, 3))
    k = min(dim)
    while True:
        G = pick(rng, Log_, ETP_, Geman_, SCAD_, QEC_)(rng)
        if G.desc.get("sig") != "0.0" and not G.cx:
            break
    cx = rng.random() < 0.25
    # (the library takes the singular values from X'X, so zero ones come out as 1e-8 |X|)
    slope = float(G.make()(np.array([1e-6])) / 1e-6)
    return F("SingularValuePenalty." + G.name + (".cx" if cx else ""), dict(k="SVP", dim=list(dim), f=G.desc, w=2 if cx else 1),
             lambda: pp.SingularValuePenalty(dim, G.make()), dim[0] * dim[1], cx=cx, dtype="complex128" if cx else "float64", kind="nc", tol=1e-7, vtol=1e-6 * (1 + slope), maxtau=G.maxtau, dual=True, pts=lambda g: pick(g, lowrank(g, dim), diagmat(g, dim, [0.5, 1.0, 2.0, 0.0])))


def L0_(rng):
    n = size(rng, 1, 5)
    cx = rng.random() < 0.3
    s = pick(rng, 0.5, 1.0, 2.0)
    return F("L0", dict(k="L0", sig=num(s), w=2 if cx else 1), lambda: pp.L0(s), n, kind="nc", cx=cx, dtype="complex128" if cx else "float64", tol=1e-12)


NONCONVEX = [Log_, Log1_, ETP_, Geman_, SCAD_, RMS_, QEC_, QECI_, QERL2_, SVP_, L0_]
ALLOPS = CONVEX + [f for f in SETS if f is not Hyper_] + NONCONVEX


# ------------------------------------------------------------------ user-defined operators, single precision
class OnlyProx(pp.ProxOperator):
    """a user's operator that defines its proximal operator only"""

    def __init__(self, P):
        super().__init__(None, False)
        self.P = P

    def prox(self, x, tau):
        return self.P(x, tau)


class OnlyDual(pp.ProxOperator):
    """a user's operator that defines the dual proximal operator only"""

    def __init__(self, P):
        super().__init__(None, False)
        self.P = P

    def proxdual(self, x, tau):
        return x - tau * self.P(x / tau, 1 / tau)


def Custom_(rng):
    n = size(rng, 1, 5)
    cx = rng.random() < 0.3
    s = sigma_(rng)
    g = rvec(rng, n, cx)
    t = pick(rng, "l1", "euclid", "ball", "l2") if cx else pick(rng, "l1", "euclid", "ball", "l2", "box")
    nrm = np.linalg.norm
    w = 2 if cx else 1
    d, P, kind = {
        "l1": (dict(k="L1", sig=[num(s)] * n, g=["0"] * (w * n), w=w), lambda x, tau: x * np.maximum(0, 1 - tau * s / np.maximum(np.abs(x), 1e-300)), "convex"),
        "euclid": (dict(k="Euclid", sig=num(s)), lambda x, tau: x * max(0.0, 1 - tau * s / max(nrm(x), 1e-300)), "convex"),
        "ball": (dict(k="Ball", c=vec(g), r=num(s)), lambda x, tau: g + (x - g) * min(1.0, s / max(nrm(x - g), 1e-300)), "set"),
        "l2": (dict(k="L2", sig=num(s), A=[], b=vec(g), q=[], alpha="1.0", qgrad=True), lambda x, tau: (x + tau * s * g) / (1 + tau * s), "convex"),
        "box": (dict(k="Box", lo=["-0.5"] * n, up=[num(s)] * n), lambda x, tau: np.clip(x, -0.5, s), "set"),
    }[t]
    cl = pick(rng, OnlyProx, OnlyDual)
    return F("%s.%s%s" % (cl.__name__, t, ".cx" if cx else ""), d, lambda: cl(P), n, cx=cx, dtype="complex128" if cx else "float64", kind=kind,
             tol=1e-9, val=False, inn=False)


def f32(fam, skip=()):
    """a configuration of the family, asked in single precision"""
    def g(rng):
        while True:
            f = fam(rng)
            if not f.cx and f.dtype == "float64" and f.cert is None and f.tol <= 1e-6 and f.name.split(".")[0] not in skip:
                break
        f.dtype, f.name = "float32", f.name + ".f32"
        f.tol, f.vtol, f.tight, f.loose = 1e-4, 1e-4, -1e-4, 1e-3
        return f
    g.__name__ = "f32" + fam.__name__
    return g


def family(fam, rng):
    return fam(rng)


# ------------------------------------------------------------------ scheduled parameters
class Sched(F):
    """an operator with a parameter given as a function of the call count; const(n) builds the
    same operator with the parameter fixed at the value of its n-th call"""

    def __init__(self, *a, const=None, exact=True, wrapped=False, **k):
        super().__init__(*a, **k)
        self.const, self.exact, self.wrapped = const, exact, wrapped


def fun_of(s):
    """the schedule: s[0], s[1], ... and the last value from then on"""
    return lambda n: s[min(int(n), len(s) - 1)]


def vals(rng, k, f):
    while True:
        s = [f() for _ in range(k)]
        if all(np.any(np.asarray(s[i]) != np.asarray(s[i + 1])) for i in range(k - 1)):
            return s


def SL1_(rng):
    n = size(rng, 1, 5)
    cx = rng.random() < 0.3
    w = 2 if cx else 1
    g = rvec(rng, n, cx) if rng.random() < 0.3 else None
    if rng.random() < 0.3 and not cx and g is None:
        s = vals(rng, 5, lambda: np.round(rng.uniform(0.1, 2.0, n), 2))
        sv = [vec(v) for v in s]
        fn = lambda k: s[min(int(k), 4)].copy()  # noqa: E731
    else:
        s = vals(rng, 5, lambda: r3(rng, 0.1, 2.0))
        sv = [[num(v)] * n for v in s]
        fn = fun_of(s)
    d = dict(k="Sched", par="sig", s=sv, f=dict(k="L1", sig=sv[0], g=["0"] * (w * n) if g is None else vec(g), w=w))
    mk = lambda sg: pp.L1(sigma=sg, g=None if g is None else g.copy())  # noqa: E731
    return Sched("L1.sched", d, lambda: mk(fn), n, cx=cx, dtype="complex128" if cx else "float64", tol=1e-10, dual=cx or g is not None,
                 val=all(len(set(v)) == 1 for v in sv), const=lambda k: mk(fn(k)))


def SL0_(rng):
    n = size(rng, 1, 5)
    s = vals(rng, 5, lambda: r3(rng, 0.1, 2.0))
    d = dict(k="Sched", par="sig", s=[num(v) for v in s], f=dict(k="L0", sig=num(s[0]), w=1))
    return Sched("L0.sched", d, lambda: pp.L0(fun_of(s)), n, tol=1e-12, val=False, const=lambda k: pp.L0(fun_of(s)(k)), kind="nc")


def SL0Ball_(rng):
    n = size(rng, 2, 6)
    s = vals(rng, 5, lambda: int(rng.integers(1, n + 1)))
    d = dict(k="Sched", par="rad", s=s, f=dict(k="L0Ball", r=s[0], w=1))
    return Sched("L0Ball.sched", d, lambda: pp.L0Ball(fun_of(s)), n, tol=1e-12, kind="set", tight=0.0, loose=0.0, const=lambda k: pp.L0Ball(fun_of(s)(k)))


def SL10Ball_(rng):
    nd, m = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    s = vals(rng, 5, lambda: int(rng.integers(1, m + 1)))
    d = dict(k="Sched", par="rad", s=s, f=dict(k="L10Ball", nd=nd, r=s[0]))
    return Sched("L10Ball.sched", d, lambda: pp.L10Ball(nd, fun_of(s)), nd * m, tol=1e-12, kind="set", tight=0.0, loose=0.0,
                 const=lambda k: pp.L10Ball(nd, fun_of(s)(k)))


def SRMS_(rng):
    n = 1
    s, k = vals(rng, 5, lambda: r3(rng, 0.3, 2.0)), vals(rng, 5, lambda: r3(rng, 0.3, 2.0))
    t = int(rng.integers(0, 3))
    f = dict(k="RMS", sig=num(s[0]), kappa=num(k[0]), w=1)
    if t in (0, 2):
        f = dict(k="Sched", par="sig", s=[num(v) for v in s], f=f)
    if t in (1, 2):
        f = dict(k="Sched", par="kappa", s=[num(v) for v in k], f=f)
    S, K = (fun_of(s) if t in (0, 2) else s[0]), (fun_of(k) if t in (1, 2) else k[0])
    at = lambda p, j: p(j) if callable(p) else p  # noqa: E731
    return Sched("RelaxedMumfordShah.sched", f, lambda: pp.RelaxedMumfordShah(S, K), n, kind="nc", tol=1e-9,
                 pts=nc_pts(n, [np.sqrt(k[1] / s[1]), 1.0]), const=lambda j: pp.RelaxedMumfordShah(at(S, j), at(K, j)))


def STV_(rng):
    dims = pick(rng, (3,), (4,), (2, 3), (3, 3))
    n = int(np.prod(dims))
    s = sigma_(rng)
    it = vals(rng, 5, lambda: int(rng.integers(1, 6)))
    d = dict(k="TV", dims=list(dims), sig=num(s))
    return Sched("TV.niter", d, lambda: pp.TV(dims=dims, sigma=s, niter=fun_of(it), rtol=0.0), n, tol=1e-12, exact=False, taus=[0.5, 1.0, 2.0],
                 const=lambda k: pp.TV(dims=dims, sigma=s, niter=fun_of(it)(k), rtol=0.0), pts=lambda r: r.normal(size=n) * 3, scale=3.0)


def SL2_(rng):
    n, m = int(rng.integers(4, 6)), int(rng.integers(5, 7))
    A, b, s = rmat(rng, m, n), rvec(rng, m), sigma_(rng)
    it = vals(rng, 5, lambda: int(rng.integers(1, 4)))
    sv = pick(rng, "legacy", "cg", "cgls")
    q = rvec(rng, n) if rng.random() < 0.3 else None
    d = dict(k="L2", sig=num(s), A=mat(A), b=vec(b), q=[] if q is None else vec(q), alpha=num(1.0), qgrad=True)
    mk = lambda k: pp.L2(Op=Implicit(A), b=b.copy(), q=None if q is None else q.copy(), sigma=s, niter=k, warm=False, solver=sv)  # noqa: E731
    return Sched("L2.niter.%s" % sv, d, lambda: mk(fun_of(it)), n, tol=1e-12, vtol=1e-9, exact=False, grad=True, taus=[0.5, 1.0, 2.0],
                 const=lambda k: mk(fun_of(it)(k)))


def SWrap_(rng):
    """a scheduled operator inside a composite: calls of the composite are calls of the operator"""
    while True:
        f = SL1_(rng)
        if not f.cx:
            break
    n, d, val, inn, kind = f.n, f.desc, f.val, f.inn, f.kind
    mk = f.make
    nm = []
    for _ in range(int(rng.integers(1, 3))):
        c = pick(rng, "add", "post", "pre", "orth", "vstack")
        if c == "add" and kind != "set":
            v = rvec(rng, n)
            mk, d = (lambda mk=mk, v=v: mk() + v.copy()), dict(k="Add", f=d, v=vec(v))
        elif c == "post" and kind != "set":
            s = r3(rng, 0.3, 2.0)
            mk, d = (lambda mk=mk, s=s: s * mk()), dict(k="Post", f=d, s=num(s))
        elif c == "pre":
            a, b = pick(rng, 2.0, -0.5), rvec(rng, n)
            mk, d = (lambda mk=mk, a=a, b=b: mk().precomposition(a, b.copy())), dict(k="Pre", f=d, a=num(a), b=vec(b))
        elif c == "orth":
            Q = np.eye(n)[rng.permutation(n)]
            mk, d = (lambda mk=mk, Q=Q: pp.Orthogonal(mk(), pylops.MatrixMult(Q))), dict(k="Orth", f=d, Q=mat(Q), b=["0"] * n, alpha=num(1))
        elif kind != "set":
            m = int(rng.integers(1, 3))
            s = sigma_(rng)
            o = dict(k="L1", sig=[num(s)] * m, g=["0"] * m, w=1)
            mk, d = (lambda mk=mk, s=s, n=n, m=m: pp.VStack([mk(), pp.L1(s)], nn=[n, m])), dict(k="VStack", fs=[d, o], idx=[list(range(1, n + 1)), list(range(n + 1, n + m + 1))])
            n += m
        else:
            continue
        nm.append(c)
    return Sched("%s.in.%s" % (f.name, "-".join(nm)), d, mk, n, kind=kind, tol=1e-8, vtol=1e-8, val=val, tight=-1e-6, loose=1e-6, dual=True, wrapped=True)


SCHEDS = [SL1_, SL0_, SL0Ball_, SL10Ball_, SRMS_, STV_, SL2_, SWrap_]


def STATEFUL(rng):
    """operators that keep something between calls: warm starts, factorisations"""
    t = int(rng.integers(0, 4))
    while True:
        f = L2_(rng, ["dense", "impl", "impl", "implcx"]) if t < 3 else Quad_(rng)
        if "factorize" in f.name or "warm" in f.name or f.name.endswith("impl"):
            return f
