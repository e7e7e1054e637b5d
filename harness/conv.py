"""Runs of the real solvers on convex problems built around a known saddle point."""
import numpy as np
import pylops
import pyproximal as pp
from core import Rec, mat, num, out, vec
from ops import pick, r3, rmat, rvec
from opchecks import seeds
from solvers import P, PrimalDual, AdaptivePrimalDual, nz, op_

CN = {"quick": 30, "thorough": 150}


class F:
    def __init__(self, desc, make, s, name, lip=None):
        self.desc, self.make, self.s, self.name, self.lip = desc, make, s, name, lip


ALL = ["L1", "L1", "L1g", "L1v", "box", "ball", "half", "aff", "L2b", "huber", "euclid", "L21"]


def nonsm_at(rng, p, kinds=ALL):
    """a non-smooth function with a subgradient at p"""
    n = len(p)
    k = pick(rng, *kinds)
    s = pick(rng, 1.0, 0.5, 0.25, r3(rng, 0.1, 2.0))
    inside = lambda m: rng.uniform(-0.9, 0.9, m)  # noqa: E731
    if k in ("L1", "L1g", "L1v"):
        g = np.zeros(n)
        if k == "L1g":
            g = np.where(rng.random(n) < 0.5, p, np.round(p + rng.normal(size=n), 2))
        sg = np.round(rng.uniform(0.1, 1.5, n), 2) if k == "L1v" else np.full(n, s)
        y = sg * np.where(p != g, np.sign(p - g), inside(n))
        if k == "L1v":
            return F(dict(k="L1", sig=vec(sg), g=["0"] * n, w=1), lambda: pp.L1(sigma=sg.copy()), y, "L1.v")
        gg = g.copy() if k == "L1g" else None
        return F(dict(k="L1", sig=[num(s)] * n, g=vec(g), w=1), lambda: pp.L1(sigma=s, g=None if gg is None else gg.copy()), y, k)
    if k == "box":
        st = rng.integers(0, 3, n)
        lo = np.where(st == 0, p, np.round(p - rng.uniform(0.1, 1, n), 2))
        up = np.where(st == 1, p, np.round(p + rng.uniform(0.1, 1, n), 2))
        t = rng.uniform(0.1, 1, n)
        y = np.where(st == 0, -t, np.where(st == 1, t, 0.0))
        return F(dict(k="Box", lo=vec(lo), up=vec(up)), lambda: pp.Box(lo.copy(), up.copy()), y, "Box")
    if k == "ball":
        c = p + nz(rvec(rng, n))
        act = rng.random() < 0.7
        r = float(np.linalg.norm(p - c)) * (1.0 if act else 1.5)
        return F(dict(k="Ball", c=vec(c), r=num(r)), lambda: pp.EuclideanBall(c.copy(), r), (p - c) * (r3(rng, 0.1, 1) if act else 0.0), "Ball")
    if k == "half":
        h = nz(rvec(rng, n))
        act = rng.random() < 0.7
        b = float(h @ p) + (0.0 if act else 0.5)
        return F(dict(k="Half", h=vec(h), b=num(b)), lambda: pp.HalfSpace(h.copy(), b), h * (r3(rng, 0.1, 1) if act else 0.0), "HalfSpace")
    if k == "aff":
        A = nz(rvec(rng, n)).reshape(1, n)
        b = A @ p
        return F(dict(k="Affine", A=mat(A), b=vec(b)), lambda: pp.AffineSet(pylops.MatrixMult(A), b.copy(), niter=100), A[0] * r3(rng, -1, 1), "AffineSet")
    if k == "L2b":
        b = rvec(rng, n)
        return F(dict(k="L2", sig=num(s), A=[], b=vec(b), q=[], alpha="1.0", qgrad=True), lambda: pp.L2(b=b.copy(), sigma=s), s * (p - b), "L2.b")
    if k == "huber":
        return F(dict(k="Huber", alpha=num(s), w=1), lambda: pp.Huber(alpha=s), np.where(np.abs(p) <= s, p / s, np.sign(p)), "Huber")
    if k == "euclid":
        d = np.linalg.norm(p)
        w = rvec(rng, n)
        y = s * p / d if d > 0 else s * r3(rng, 0.1, 0.9) * w / (np.linalg.norm(w) + 1e-3)
        return F(dict(k="Euclid", sig=num(s)), lambda: pp.Euclidean(sigma=s), y, "Euclidean")
    nd = 2 if n % 2 == 0 else 1
    X = p.reshape(nd, -1)
    d = np.linalg.norm(X, axis=0)
    W = rng.normal(size=X.shape)
    W = W / np.linalg.norm(W, axis=0) * 0.7
    y = s * np.where(d > 0, X / np.where(d > 0, d, 1), W)
    return F(dict(k="L21", sig=num(s), nd=nd), lambda: pp.L21(nd, sigma=s), y.ravel(), "L21")


def conditioned(rng, m, n, lo=0.7, hi=1.4):
    """m x n, singular values in [lo, hi]"""
    U, _ = np.linalg.qr(rng.normal(size=(m, m)))
    V, _ = np.linalg.qr(rng.normal(size=(n, n)))
    k = min(m, n)
    return np.round((U[:, :k] * rng.uniform(lo, hi, k)) @ V[:, :k].T, 4)


def l2(A, b, q, s, name):
    d = dict(k="L2", sig=num(s), A=mat(A), b=vec(b), q=[] if q is None else vec(q), alpha="1.0", qgrad=True)
    return F(d, lambda: pp.L2(Op=pylops.MatrixMult(A), b=b.copy(), q=None if q is None else q.copy(), sigma=s), None, name, s * np.linalg.norm(A, 2) ** 2)


def f_at(rng, x, s, kinds=("L2q", "L2b", "add", "add")):
    """f with s in its subdifferential at x"""
    n = len(x)
    k = pick(rng, *kinds)
    sg = pick(rng, 1.0, 1.0, 0.5, 2.0)
    if k == "strong":
        B, b, sg = conditioned(rng, n + int(rng.integers(0, 2)), n), None, 1.0
        b = rvec(rng, B.shape[0])
        return l2(B, b, s - B.T @ (B @ x - b), 1.0, "L2.strong")
    if k == "data":     # without linear term: least squares with a matching right-hand side
        B = conditioned(rng, n, n)
        return l2(B, B @ x - np.linalg.solve(B.T, s), None, 1.0, "L2.data")
    if k == "L2q":
        B = rmat(rng, int(rng.integers(1, n + 2)), n)
        b = rvec(rng, B.shape[0])
        f = l2(B, b, s - sg * B.T @ (B @ x - b), sg, "L2.Aq")
        f.lip = max(f.lip, 0.05)
        return f
    if k == "L2b":
        b = x - s / sg
        return F(dict(k="L2", sig=num(sg), A=[], b=vec(b), q=[], alpha="1.0", qgrad=True), lambda: pp.L2(b=b.copy(), sigma=sg), None, "L2.b", sg)
    h = nonsm_at(rng, x)
    v = s - h.s
    return F(dict(k="Add", f=h.desc, v=vec(v)), lambda: h.make() + v.copy(), None, h.name + "+v")


def point(rng, n):
    x = rvec(rng, n)
    x[rng.random(n) < 0.35] = 0.0
    return x


def begin(rng, x, scale=1.5):
    n = len(x)
    return np.round(x + scale * rng.normal(size=n), 2) if rng.random() < 0.7 else rng.integers(-8, 9, n) * 0.5


class Run:
    """one trace under construction"""

    def __init__(self, alg, x, y, x0, **c):
        self.c = dict(alg=alg, x=vec(x), y=vec(y), x0=vec(x0), A=[], acc_tol="0", **c)
        self.ev = [{"e": "begin"}]
        self.R = Rec()
        self.R.LIMIT = 40.0

    def call(self, fn):
        ok, r = self.R.call("solver", fn)
        self.ev += self.R.ev
        self.R.ev = []
        return r if ok else None

    def it(self, *obs):
        self.ev.append({"e": "it", "obs": [out(o, False) for o in obs]})

    def stay(self, x, tol=1e-7):
        self.ev.append({"e": "stay", "x": out(x, False), "tol": num(tol)})

    def final(self, x, tol):
        self.ev.append({"e": "final", "x": out(x, False), "tol": num(tol)})

    def trace(self, name):
        return {"name": name, "c": self.c, "ev": self.ev}


def post(g, e):
    return g.desc if e == 1.0 else dict(k="Post", s=num(e), f=g.desc)


def two_at(rng, n, A=None, fk=("L2q", "L2b", "add", "add"), gk=ALL, e=1.0):
    x = point(rng, n)
    g = nonsm_at(rng, x if A is None else A @ x, gk)
    y = e * g.s
    f = f_at(rng, x, -(y if A is None else A.T @ y), fk)
    return x, y, f, g


# ---------------------------------------------------------------- theorems along the run
def cpp(rng, i):
    n = int(rng.integers(1, 6))
    x = point(rng, n)
    f = f_at(rng, x, np.zeros(n))
    tau = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.05, 3))
    x0 = begin(rng, x)
    T = Run("PP", x, np.zeros(n), x0, f=f.desc, g=dict(k="Zero"), tau=num(tau))
    T.call(lambda: P.ProximalPoint(f.make(), x0.copy(), tau, niter=25, callback=lambda v: T.it(v)))
    T.call(lambda: P.ProximalPoint(f.make(), x.copy(), tau, niter=3, callback=lambda v: T.stay(v)))
    return T.trace("ProximalPoint(%s)" % f.name)


def cpg(rng, i):
    n = int(rng.integers(1, 6))
    e = pick(rng, 1.0, 1.0, 0.5, 2.0)
    x, y, f, g = two_at(rng, n, None, ("L2q", "L2b", "strong"), ALL, e)
    mode = pick(rng, "fixed", "fixed", "back")
    acc = pick(rng, None, None, "fista", "vandenberghe")
    eta = pick(rng, 1.0, 1.0, 0.7) if acc is None else 1.0
    x0 = begin(rng, x)
    if mode == "fixed":
        tau = bnd = r3(rng, 0.3, 0.99) / f.lip
        kw = dict(tau=tau)
    else:
        t0, beta = pick(rng, None, 2.0 / f.lip, 0.6), pick(rng, 0.5, 0.7)
        bnd = min(1.0 if t0 is None else t0, beta / f.lip) * beta     # (one more factor: the test is decided in floating point)
        kw = dict(tau=t0, backtracking=True, beta=beta)
    T = Run("PG", x, y, x0, f=f.desc, g=post(g, e), tau=num(bnd), eta=num(eta), acc=acc or "none")
    kw.update(epsg=e, eta=eta, acceleration=acc)
    K = 30 if mode == "fixed" else 15
    T.call(lambda: P.ProximalGradient(f.make(), g.make(), x0.copy(), niter=K, callback=lambda v: T.it(v), **kw))
    T.call(lambda: P.ProximalGradient(f.make(), g.make(), x.copy(), niter=3, callback=lambda v: T.stay(v, 1e-6), **kw))
    return T.trace("ProximalGradient(%s,%s,%s,%s)" % (f.name, g.name, mode, acc))


def chqs(rng, i):
    n = int(rng.integers(1, 6))
    x, y, f, g = two_at(rng, n)
    tau, gf = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 3)), bool(rng.random() < 0.5)
    x0 = begin(rng, x)
    T = Run("HQS", x, y, x0, f=f.desc, g=g.desc, tau=num(tau))
    T.call(lambda: P.HQS(f.make(), g.make(), x0.copy(), tau, niter=25, gfirst=gf, callback=lambda v, w: T.it(v, w), callbackz=True))
    return T.trace("HQS(%s,%s)" % (f.name, g.name))


def cadmm(rng, i):
    n = int(rng.integers(1, 6))
    x, y, f, g = two_at(rng, n)
    tau, gf = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 3)), bool(rng.random() < 0.5)
    x0 = begin(rng, x)
    T = Run("ADMM", x, y, x0, f=f.desc, g=g.desc, tau=num(tau), gfirst=gf)
    T.call(lambda: P.ADMM(f.make(), g.make(), x0.copy(), tau, niter=30, gfirst=gf, callback=lambda v, w: T.it(v, w), callbackz=True))
    return T.trace("ADMM(%s,%s)" % (f.name, g.name))


def ladder(T, run, K):
    """(x, z) after 1, 2, ..., K iterations, from runs with these limits"""
    for k in range(1, K + 1):
        r = T.call(lambda: run(k))
        if r is None:
            return
        T.it(*r)


def cadmml2(rng, i):
    n = int(rng.integers(1, 5))
    p = int(rng.integers(1, n + 2))
    A = rmat(rng, p, n)
    x, y, f, g = two_at(rng, n, A, ("data",))
    Op, b = np.array(f.desc["A"], float), np.array(f.desc["b"], float)
    tau, gf = pick(rng, 0.5, 1.0, 2.0), bool(rng.random() < 0.5)
    x0 = begin(rng, x)
    T = Run("ADMML2", x, y, x0, f=f.desc, g=g.desc, tau=num(tau), gfirst=gf)
    T.c["A"] = mat(A)
    ladder(T, lambda k: P.ADMML2(g.make(), op_(Op), b.copy(), op_(A), x0.copy(), tau, niter=k, gfirst=gf, iter_lim=200, atol=1e-15, btol=1e-15), 10)
    return T.trace("ADMML2(%s)" % g.name)


def cladmm(rng, i):
    n, p = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    A = rmat(rng, p, n)
    x, y, f, g = two_at(rng, n, A)
    tau = pick(rng, 0.5, 1.0, 2.0)
    mu = r3(rng, 0.3, 0.99) * tau / max(np.linalg.norm(A, 2) ** 2, 0.05)
    x0 = begin(rng, x)
    T = Run("LADMM", x, y, x0, f=f.desc, g=g.desc, tau=num(tau), mu=num(mu))
    T.c["A"] = mat(A)
    ladder(T, lambda k: P.LinearizedADMM(f.make(), g.make(), op_(A), x0.copy(), tau, mu, niter=k), 12)
    return T.trace("LinearizedADMM(%s,%s)" % (f.name, g.name))


def cdr(rng, i):
    n = int(rng.integers(1, 6))
    x, y, f, g = two_at(rng, n)
    tau, eta, gf = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 3)), pick(rng, 1.0, 1.0, 0.5, 1.8), bool(rng.random() < 0.5)
    x0 = begin(rng, x)
    T = Run("DR", x, y, x0, f=f.desc, g=g.desc, tau=num(tau), eta=num(eta), gfirst=gf)
    kw = dict(eta=eta, gfirst=gf)
    T.call(lambda: P.DouglasRachfordSplitting(f.make(), g.make(), x0.copy(), tau, niter=30, callback=lambda v, w: T.it(v, w), callbacky=True, **kw))
    fix = x + tau * y if gf else x - tau * y
    T.call(lambda: P.DouglasRachfordSplitting(f.make(), g.make(), fix.copy(), tau, niter=3, callback=lambda v: T.stay(v), **kw))
    return T.trace("DouglasRachfordSplitting(%s,%s)" % (f.name, g.name))


def cpd(rng, i):
    n, p = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    A = rmat(rng, p, n)
    x, y, f, g = two_at(rng, n, A)
    L = max(np.linalg.norm(A, 2), 0.1)
    r = r3(rng, 0.3, 3)
    tau, mu, gf = r / L, r3(rng, 0.3, 0.98) / (r * L), bool(rng.random() < 0.5)
    x0 = begin(rng, x)
    withz = rng.random() < 0.4
    z = rvec(rng, n) if withz else None
    # with the linear term the problem is f + z'x + g(A x): f is built to absorb it
    fr = f if z is None else F(None, lambda: f.make() + (-z), None, f.name + "-z")
    T = Run("PD", x, y, x0, f=f.desc, g=g.desc, tau=num(tau), mu=num(mu), gfirst=gf)
    T.c["A"] = mat(A)
    kw = dict(gfirst=gf, z=z)
    T.call(lambda: PrimalDual(fr.make(), g.make(), op_(A), x0.copy(), tau, mu, niter=30, callback=lambda v, w: T.it(v, w), callbacky=True, **kw))
    T.call(lambda: PrimalDual(fr.make(), g.make(), op_(A), x.copy(), tau, mu, y0=y.copy(), niter=3, callback=lambda v: T.stay(v), **kw))
    return T.trace("PrimalDual(%s,%s)" % (f.name, g.name))


# ---------------------------------------------------------------- the same minimiser for all solvers
EASY = ["L1", "L1g", "L1v", "box", "L2b", "huber", "half", "ball"]


def cend(rng, i):
    """f strongly convex and smooth, g(x): every two-term solver ends at the same point"""
    n = int(rng.integers(1, 6))
    x, y, f, g = two_at(rng, n, None, ("data",), EASY)
    Op, b = np.array(f.desc["A"], float), np.array(f.desc["b"], float)
    x0 = begin(rng, x)
    T = Run("END", x, y, x0, f=f.desc, g=g.desc)
    tau, N, I = 1.0 / f.lip, 400, lambda: pylops.MatrixMult(np.eye(n))  # noqa: E731
    runs = {
        "pg": lambda: P.ProximalGradient(f.make(), g.make(), x0.copy(), tau=tau, niter=N),
        "pgb": lambda: P.ProximalGradient(f.make(), g.make(), x0.copy(), tau=None, niter=N, niterback=30),
        "pgeta": lambda: P.ProximalGradient(f.make(), g.make(), x0.copy(), tau=tau, eta=0.7, niter=N),
        "fista": lambda: P.ProximalGradient(f.make(), g.make(), x0.copy(), tau=tau, niter=N, acceleration="fista"),
        "vdb": lambda: P.AcceleratedProximalGradient(f.make(), g.make(), x0.copy(), tau=tau, niter=N),
        "aa": lambda: P.AndersonProximalGradient(f.make(), g.make(), x0.copy(), tau=tau, niter=N, nhistory=3, safeguard=True),
        "gpg": lambda: P.GeneralizedProximalGradient([f.make()], [g.make()], x0.copy(), tau=tau, niter=N),
        "admm": lambda: P.ADMM(f.make(), g.make(), x0.copy(), 1.0, niter=N)[0],
        "admmg": lambda: P.ADMM(f.make(), g.make(), x0.copy(), 1.0, niter=N, gfirst=True)[1],
        "admml2": lambda: P.ADMML2(g.make(), op_(Op), b.copy(), I(), x0.copy(), 1.0, niter=N // 2, iter_lim=100)[0],
        "ladmm": lambda: P.LinearizedADMM(f.make(), g.make(), I(), x0.copy(), 1.0, 0.9, niter=N)[0],
        "dr": lambda: P.DouglasRachfordSplitting(f.make(), g.make(), x0.copy(), 1.0, niter=N)[0],
        "drf": lambda: P.DouglasRachfordSplitting(f.make(), g.make(), x0.copy(), 1.0, niter=N, gfirst=False)[0],
        "ppxa": lambda: P.PPXA([f.make(), g.make()], x0.copy(), 1.0, niter=N, tol=None),
        "cadmm": lambda: P.ConsensusADMM([f.make(), g.make()], x0.copy(), 1.0, niter=N, tol=None),
        "pd": lambda: PrimalDual(f.make(), g.make(), I(), x0.copy(), 0.95, 0.95, niter=N),
        "pdf": lambda: PrimalDual(f.make(), g.make(), I(), x0.copy(), 0.95, 0.95, niter=N, gfirst=False),
        "apd": lambda: AdaptivePrimalDual(f.make(), g.make(), I(), x0.copy(), 0.95, 0.95, niter=N)[0],
    }
    for k in rng.permutation(sorted(runs))[:7]:
        r = T.call(runs[k])
        if r is not None:
            T.final(r, 1e-4)
            T.ev[-1]["solver"] = str(k)
    return T.trace("minimiser(%s)" % g.name)


def ctwist(rng, i):
    n = int(rng.integers(1, 5))
    B = conditioned(rng, n + int(rng.integers(0, 2)), n, 0.6, 1.0)
    x = point(rng, n)
    g = nonsm_at(rng, x, EASY)
    b = B @ x + B @ np.linalg.solve(B.T @ B, g.s)
    f = l2(B, b, None, 1.0, "L2")
    x0 = begin(rng, x)
    T = Run("END", x, g.s, x0, f=f.desc, g=g.desc)
    ev = np.linalg.eigvalsh(B.T @ B)
    kw = dict(eigs=(1.0, min(ev[0], 0.9)))
    r = T.call(lambda: P.TwIST(g.make(), op_(B), b.copy(), x0.copy(), niter=250, **kw))
    if r is not None:
        T.final(r, 1e-5)
    T.call(lambda: P.TwIST(g.make(), op_(B), b.copy(), x.copy(), niter=3, callback=lambda v: T.stay(v), **kw))
    r = T.call(lambda: P.AndersonProximalGradient(f.make(), g.make(), x.copy(), tau=0.9, niter=3, nhistory=3, callback=lambda v: T.stay(v, 1e-6)))
    return T.trace("TwIST(%s)" % g.name)


def cmany(rng, i):
    """several terms, one of them strongly convex"""
    n, m = int(rng.integers(1, 5)), int(rng.integers(2, 4))
    x = point(rng, n)
    alg = pick(rng, "PPXA", "CADMM", "GPG")
    gs = [nonsm_at(rng, x, EASY) for _ in range(m - 1)]
    es = np.ones(m - 1) if alg != "GPG" or rng.random() < 0.5 else np.round(rng.uniform(0.3, 1.5, m - 1), 2)
    ss = [e * g.s for e, g in zip(es, gs)]
    f = f_at(rng, x, -sum(ss), ("strong",))
    x0 = begin(rng, x)
    N = 1500
    wts = None
    if alg in ("PPXA", "GPG") and rng.random() < 0.5:
        wts = rng.uniform(0.5, 1, m if alg == "PPXA" else m - 1)
        wts = wts / wts.sum()
    T = Run(alg, x, np.zeros(n), x0, fs=[post(g, e) for g, e in zip(gs, es)] + [f.desc], ss=[vec(s) for s in ss] + [vec(-sum(ss))])
    fr = [g.make for g in gs] + [f.make]
    eta = pick(rng, 1.0, 1.0, 0.8)
    if alg == "PPXA":
        tau = pick(rng, 0.5, 1.0)
        r = T.call(lambda: P.PPXA([k() for k in fr], x0.copy(), tau, eta=eta, weights=wts, niter=N, tol=None))
        w = np.full(m, 1 / m) if wts is None else wts
        ys = np.stack([x + tau / w[j] * s for j, s in enumerate(ss + [-sum(ss)])])
        T.call(lambda: P.PPXA([k() for k in fr], ys.copy(), tau, eta=eta, weights=wts, niter=3, tol=None, callback=lambda v: T.stay(v)))
    elif alg == "CADMM":
        r = T.call(lambda: P.ConsensusADMM([k() for k in fr], x0.copy(), 1.0, niter=N, tol=None))
    else:
        tau = 0.9 / f.lip
        r = T.call(lambda: P.GeneralizedProximalGradient([f.make()], [g.make() for g in gs], x0.copy(), tau=tau, epsg=es if m > 2 else float(es[0]), weights=wts, niter=N))
        if m == 2:
            T.call(lambda: P.GeneralizedProximalGradient([f.make()], [gs[0].make()], x.copy(), tau=tau, epsg=float(es[0]), niter=3, callback=lambda v: T.stay(v)))
    if r is not None:
        T.final(r, 1e-3)
    return T.trace("%s(%s)" % (alg, ",".join(g.name for g in gs)))


def cend2(rng, i):
    """f strongly convex and smooth, g(A x)"""
    n = int(rng.integers(1, 5))
    p = int(rng.integers(1, n + 1))
    A = conditioned(rng, p, n)
    x, y, f, g = two_at(rng, n, A, ("data",), EASY)
    Op, b = np.array(f.desc["A"], float), np.array(f.desc["b"], float)
    x0 = begin(rng, x)
    T = Run("END", x, y, x0, f=f.desc, g=g.desc)
    T.c["A"] = mat(A)
    L = np.linalg.norm(A, 2)
    z, N = rvec(rng, n), 600
    runs = {
        "admml2": lambda: P.ADMML2(g.make(), op_(Op), b.copy(), op_(A), x0.copy(), 1.0, niter=200, iter_lim=100)[0],
        "admml2g": lambda: P.ADMML2(g.make(), op_(Op), b.copy(), op_(A), x0.copy(), 1.0, niter=200, gfirst=True, iter_lim=100)[0],
        "ladmm": lambda: P.LinearizedADMM(f.make(), g.make(), op_(A), x0.copy(), 1.0, 0.9 / L ** 2, niter=N)[0],
        "pd": lambda: PrimalDual(f.make(), g.make(), op_(A), x0.copy(), 0.95 / L, 0.95 / L, niter=N),
        "pdf": lambda: PrimalDual(f.make(), g.make(), op_(A), x0.copy(), 0.95 / L, 0.95 / L, niter=N, gfirst=False),
        "pdz": lambda: PrimalDual(f.make() + (-z), g.make(), op_(A), x0.copy(), 0.95 / L, 0.95 / L, niter=N, z=z.copy()),
        "apd": lambda: AdaptivePrimalDual(f.make(), g.make(), op_(A), x0.copy(), 0.95 / L, 0.95 / L, niter=N)[0],
        "apdz": lambda: AdaptivePrimalDual(f.make() + (-z), g.make(), op_(A), x0.copy(), 0.95 / L, 0.95 / L, niter=N, z=z.copy())[0],
    }
    for k in rng.permutation(sorted(runs))[:5]:
        r = T.call(runs[k])
        if r is not None:
            T.final(r, 1e-4)
            T.ev[-1]["solver"] = str(k)
    return T.trace("minimiser(%s o A)" % g.name)


def chend(rng, i):
    n = int(rng.integers(1, 5))
    x, y, f, g = two_at(rng, n, None, ("strong",), EASY)
    tau, x0 = pick(rng, 0.5, 1.0), begin(rng, x)
    T = Run("END", x, y, x0, f=f.desc, g=g.desc, tau=num(tau))
    gf = bool(rng.random() < 0.5)
    r = T.call(lambda: P.HQS(f.make(), g.make(), x0.copy(), tau, niter=300, gfirst=gf))
    if r is not None:
        T.ev.append({"e": "finalh", "x": out(r[0], False), "z": out(r[1], False), "tol": "1e-6"})
    return T.trace("HQS limit(%s)" % g.name)


BODIES = [cpp, cpg, cpg, chqs, cadmm, cadmml2, cladmm, cdr, cpd, cend, cend, ctwist, cmany, cend2, chend]


def C18(tier, seed):
    cs = []
    for k, body in enumerate(BODIES):
        for i in range(CN[tier]):
            cs.append(("C18.%s.%d" % (body.__name__, i), lambda k=k, i=i, body=body: body(seeds(seed, "C18", 1000 * (k + 1) + i), i)))
    return cs
