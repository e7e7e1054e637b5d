"""Runs of the real solvers, recorded as histories of the specification's solver transition systems."""
import contextlib
import io
import zlib
import numpy as np
import pylops
import pyproximal as pp
from pyproximal.optimization import primal as _P
from pyproximal.optimization import primaldual as _PD
from pyproximal.optimization import palm as _PALM
from pyproximal.optimization.bregman import Bregman as _Bregman
from pyproximal.optimization.pnp import PlugAndPlay as _PlugAndPlay
from pyproximal.optimization.segmentation import Segment as _Segment
from pyproximal.optimization.sr3 import SR3 as _SR3
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
from core import Rec, mat, num, out, vec
from ops import Alias, Implicit, pick, r3, rmat, rvec
from opchecks import seeds

SN = {"quick": 10, "thorough": 100}


# documented defaults
DEFAULTS = {
    "ProximalPoint": dict(niter=10, tol=None, callback=None, show=False),
    "ProximalGradient": dict(epsg=1.0, tau=None, backtracking=False, beta=0.5, eta=1.0, niter=10, niterback=100, acceleration=None, tol=None, callback=None, show=False),
    "AcceleratedProximalGradient": dict(tau=None, beta=0.5, epsg=1.0, niter=10, niterback=100, acceleration="vandenberghe", tol=None, callback=None, show=False),
    "AndersonProximalGradient": dict(epsg=1.0, tau=1.0, niter=10, nhistory=10, safeguard=False, tol=None, callback=None, show=False),
    "GeneralizedProximalGradient": dict(epsg=1.0, weights=None, eta=1.0, niter=10, acceleration=None, callback=None, show=False),
    "HQS": dict(niter=10, z0=None, gfirst=True, callback=None, callbackz=False, show=False),
    "ADMM": dict(niter=10, z0=None, gfirst=False, callback=None, callbackz=False, show=False),
    "ADMML2": dict(niter=10, z0=None, gfirst=False, callback=None, show=False),
    "LinearizedADMM": dict(niter=10, z0=None, callback=None, show=False),
    "TwIST": dict(alpha=None, beta=None, eigs=None, niter=10, callback=None, show=False, returncost=False),
    "DouglasRachfordSplitting": dict(eta=1.0, niter=10, gfirst=True, callback=None, callbacky=False, show=False),
    "PPXA": dict(eta=1.0, weights=None, niter=1000, tol=1e-7, callback=None, show=False),
    "ConsensusADMM": dict(niter=1000, tol=1e-7, callback=None, show=False),
    "PrimalDual": dict(y0=None, z=None, theta=1.0, niter=10, gfirst=True, callback=None, callbacky=False, returny=False, show=False),
    "AdaptivePrimalDual": dict(alpha=0.5, eta=0.95, s=1.0, delta=1.5, z=None, niter=10, tol=1e-10, callback=None, show=False),
    "PALM": dict(gammaf=1.0, gammag=1.0, beta=0.5, niter=10, niterback=100, callback=None, show=False),
    "iPALM": dict(gammaf=1.0, gammag=1.0, a=(1.0, 1.0), beta=0.5, niter=10, niterback=100, callback=None, show=False),
    "Bregman": dict(A=None, alpha=1.0, niterouter=10, warm=False, tolx=1e-10, tolf=1e-10, bregcallback=None, show=False),
    "PlugAndPlay": dict(),
    "Segment": dict(clsigmas=None, z=None, niter=10, x0=None, callback=None, show=False, kwargs_simplex=None),
    "SR3": dict(x0=None, adaptive=True, iter_lim_outer=100, iter_lim_inner=100),
}


class Solver:
    """a solver whose outermost call takes the options in Solver.over instead of its own"""
    over, depth = {}, 0
    RENAME = {"Bregman": {"niter": "niterouter", "tol": "tolx", "callback": "bregcallback"}}

    def __init__(self, fn):
        self.fn, self.__name__ = fn, fn.__name__

    def __call__(self, *a, **k):
        if Solver.depth == 0 and Solver.over:
            ren = self.RENAME.get(self.__name__, {})
            k.update({ren.get(q, q): v for q, v in Solver.over.items()})
        # every other call leaves out the options that have their documented default
        ds = DEFAULTS[self.__name__]
        same = [q for q in k if q in ds and type(k[q]) in (type(ds[q]), float, bool, type(None), str, tuple) and not isinstance(k[q], np.ndarray) and k[q] == ds[q]]
        if zlib.crc32(repr([(q, v) for q, v in sorted(k.items()) if isinstance(v, (int, float, str))]).encode()) % 2:
            for q in same:
                del k[q]
        Solver.depth += 1
        try:
            return self.fn(*a, **k)
        finally:
            Solver.depth -= 1


class P:
    pass


for _n in ("ProximalPoint", "ProximalGradient", "AcceleratedProximalGradient", "AndersonProximalGradient", "GeneralizedProximalGradient", "HQS", "ADMM", "ADMML2",
           "LinearizedADMM", "TwIST", "DouglasRachfordSplitting", "PPXA", "ConsensusADMM"):
    setattr(P, _n, Solver(getattr(_P, _n)))
PrimalDual, AdaptivePrimalDual = Solver(_PD.PrimalDual), Solver(_PD.AdaptivePrimalDual)
PALM, iPALM = Solver(_PALM.PALM), Solver(_PALM.iPALM)
Bregman, PlugAndPlay, Segment, SR3 = Solver(_Bregman), Solver(_PlugAndPlay), Solver(_Segment), Solver(_SR3)


class Fn:
    """a function: descriptor and constructor of the real operator"""

    def __init__(self, desc, make, name, lip=None):
        self.desc, self.make, self.name, self.lip = desc, make, name, lip


def op_(A, imp=False, dt=None):
    """a matrix as a linear operator: explicit, without showing its entries, or (the identity) returning its input array"""
    if imp == "alias":
        return Alias(A.shape[1], A.dtype)
    if imp:
        return Implicit(A)
    return pylops.MatrixMult(A, dtype=dt or A.dtype)


def lin(rng, p, n, cx=False, free=True):
    """a p x n matrix (p may become n) and the way it is handed over; every fourth is the identity"""
    if rng.random() < 0.2 and (free or p == n):
        A = np.eye(n) + (0j if cx else 0)
        return A, n, pick(rng, "alias", "alias", False)
    return rmat(rng, p, n, cx), p, bool(rng.random() < 0.4)


def smooth(rng, n, cx=False, kinds=None):
    """smooth f with its Lipschitz constant"""
    c = pick(rng, *(kinds or (["A", "A", "b", "q"] if cx else ["A", "A", "A", "b", "quad", "Aq"])))
    s = pick(rng, 1.0, 1.0, 0.5, 2.0)
    d = dict(k="L2", sig=num(s), A=[], b=[], q=[], alpha="1.0", qgrad=True)
    if c == "quad":
        B = rmat(rng, n, n)
        A = np.round(B.T @ B, 3)
        b, cc = rvec(rng, n), r3(rng, -1, 3)
        return Fn(dict(k="Quad", A=mat(A), b=vec(b), c=num(cc)), lambda: pp.Quadratic(Op=pylops.MatrixMult(A), b=b.copy(), c=cc), "Quadratic",
                  max(np.linalg.eigvalsh(A)[-1], 0.1))
    if c in ("b", "q"):
        b = rvec(rng, n, cx)
        d["b"] = vec(b)
        return Fn(d, lambda: pp.L2(b=b.copy(), sigma=s), "L2.b", s)
    m = int(rng.integers(max(1, n - 1), n + 3))
    A, b = rmat(rng, m, n, cx), rvec(rng, m, cx)
    d["A"], d["b"] = mat(A), vec(b)
    q = None
    if c == "Aq":
        q = rvec(rng, n)
        d["q"] = vec(q)
    dt = A.dtype
    return Fn(d, lambda: pp.L2(Op=pylops.MatrixMult(A, dtype=dt), b=b.copy(), q=None if q is None else q.copy(), sigma=s), "L2.A",
              s * max(np.linalg.norm(A, 2) ** 2, 0.1))


def nonsmooth(rng, n, cx=False, kinds=None):
    ks = kinds or (["L1", "L1", "euclid", "L2b"] if cx else ["L1", "L1", "L1", "L1g", "L1v", "box", "ball", "L2b", "huber", "euclid", "L21", "half", "aff", "simplex", "zero"])
    c = pick(rng, *ks)
    s = pick(rng, 1.0, 0.5, 0.25, r3(rng, 0.1, 2.0))
    w = 2 if cx else 1
    nn = n * w
    if c == "L1s":
        s, c = pick(rng, 0.05, 0.1), "L1"
    if c == "L1":
        return Fn(dict(k="L1", sig=[num(s)] * n, g=["0"] * nn, w=w), lambda: pp.L1(sigma=s), "L1")
    if c == "L1g":
        g = rng.integers(-3, 4, n) * 0.5
        return Fn(dict(k="L1", sig=[num(s)] * n, g=vec(g), w=1), lambda: pp.L1(sigma=s, g=g.copy()), "L1.g")
    if c == "L1v":
        sg = np.round(rng.uniform(0.1, 1.5, n), 2)
        return Fn(dict(k="L1", sig=vec(sg), g=["0"] * n, w=1), lambda: pp.L1(sigma=sg.copy()), "L1.v")
    if c == "box":
        lo = rng.integers(-4, 1, n) * 0.25
        up = lo + rng.integers(1, 6, n) * 0.25
        return Fn(dict(k="Box", lo=vec(lo), up=vec(up)), lambda: pp.Box(lo.copy(), up.copy()), "Box")
    if c == "ball":
        ce, r = rvec(rng, n), pick(rng, 0.5, 1.0, 2.0)
        return Fn(dict(k="Ball", c=vec(ce), r=num(r)), lambda: pp.EuclideanBall(ce.copy(), r), "Ball")
    if c == "L2b":
        b = rvec(rng, n, cx)
        return Fn(dict(k="L2", sig=num(s), A=[], b=vec(b), q=[], alpha="1.0", qgrad=True), lambda: pp.L2(b=b.copy(), sigma=s), "L2.b")
    if c == "huber":
        return Fn(dict(k="Huber", alpha=num(s), w=1), lambda: pp.Huber(alpha=s), "Huber")
    if c == "euclid":
        return Fn(dict(k="Euclid", sig=num(s)), lambda: pp.Euclidean(sigma=s), "Euclidean")
    if c == "L21":
        nd = 2 if n % 2 == 0 else 1
        return Fn(dict(k="L21", sig=num(s), nd=nd), lambda: pp.L21(nd, sigma=s), "L21")
    if c == "half":
        h, b = nz(rvec(rng, n)), r3(rng, -1, 1)
        return Fn(dict(k="Half", h=vec(h), b=num(b)), lambda: pp.HalfSpace(h.copy(), b), "HalfSpace")
    if c == "aff":
        A = nz(rvec(rng, n)).reshape(1, n)
        b = rvec(rng, 1)
        return Fn(dict(k="Affine", A=mat(A), b=vec(b)), lambda: pp.AffineSet(pylops.MatrixMult(A), b.copy(), niter=100), "AffineSet")
    if c == "simplex":
        r = pick(rng, 1.0, 2.0)
        return Fn(dict(k="Simplex", rows=[list(range(1, n + 1))], r=num(r), multi=False), lambda: pp.Simplex(n, r, maxiter=300, xtol=1e-13), "Simplex")
    return Fn(dict(k="Zero"), lambda: pp.L1(sigma=0.0), "Zero")


def nz(v):
    return v if np.linalg.norm(v) > 0.2 else v + 1.0


def start(rng, n, cx=False):
    j = int(rng.integers(0, 4))
    x = np.zeros(n) if j == 0 else rng.integers(-4, 5, n) * 0.5 if j == 1 else rvec(rng, n, False, 2.0)
    if cx:
        x = x + 1j * rvec(rng, n)
    elif rng.random() < 0.12:
        x = rng.integers(-3, 4, n) * int(rng.integers(0, 2))     # whole numbers, as an array of integers
    return x


class Log:
    """callback that copies what it is given"""

    def __init__(self, cx):
        self.cx, self.it, self.raw = cx, [], []

    def __call__(self, *a):
        self.raw.append(tuple(np.array(v, copy=True) for v in a))
        self.it.append([out(v, self.cx) for v in a])


def quiet(fn, show):
    if not show:
        return fn()
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


class Plan:
    """when set, the bodies below draw configurations for this iteration limit, with or without a tolerance"""
    cur = None

    def __init__(self, niter, tol, rec):
        self.niter, self.tol, self.rec = niter, tol, rec


def niter_(rng, hi=8):
    k = int(pick(rng, 1, 2, 3, 5, hi, hi, 10))
    return Plan.cur.niter if Plan.cur else k


def lim(k):
    return Plan.cur.niter if Plan.cur else k


def tol_(rng, *a):
    t = pick(rng, *a)
    if Plan.cur:
        t = [v for v in a if v not in (None, "default")][-1] if Plan.cur.tol else None
    return t


def record(name, c, call, cx=False, acc_tol=1e-7, limit=30.0, ncx=2):
    if Plan.cur:
        return Plan.cur.rec(name, c, call, cx, acc_tol, limit, ncx)
    return record_(name, c, call, cx, acc_tol, limit, ncx)


def flat_(r, cx, ncx):
    if not isinstance(r, (tuple, list)):
        r = (r,)
    flat = []
    for v in r:
        flat.extend(v if isinstance(v, (tuple, list)) else [v])
    return [out(v, cx and np.asarray(v).ndim > 0 and (np.iscomplexobj(v) or i < ncx)) for i, v in enumerate(flat)]


def record_(name, c, call, cx=False, acc_tol=1e-7, limit=30.0, ncx=2):
    """run the solver: call(callback) -> tuple of returned arrays; the trace"""
    R = Rec()
    R.LIMIT = limit
    log = Log(cx)
    ok, r = R.call("solver", lambda: call(log))
    ev = [{"e": "it", "obs": o} for o in log.it]
    if ok:
        if not isinstance(r, (tuple, list)):
            r = (r,)
        ev.append({"e": "end", "ret": flat_(r, cx, ncx)})
    ev += R.ev
    c = dict(c, acc_tol=num(acc_tol), w=2 if cx else 1)
    return {"name": name, "c": c, "ev": ev}, log, (r if ok else None)


def cases(prop, tier, seed, bodies, per):
    cs = []
    for k, body in enumerate(bodies):
        for i in range(per * SN[tier]):
            cs.append(("%s.%s.%d" % (prop, body.__name__, i), lambda k=k, i=i, body=body: body(seeds(seed, prop, 1000 * (k + 1) + i), i)))
    return cs


def epsv(rng, niter):
    if rng.random() < 0.5:
        e = pick(rng, 1.0, 0.5, 2.0)
        return e, [num(e)]
    e = np.round(rng.uniform(0.1, 2.0, niter), 2)
    return e, vec(e)


# ---------------------------------------------------------------- C10
def pp_(rng, i):
    cx = rng.random() < 0.3
    n = int(rng.integers(1, 5))
    f = (smooth if rng.random() < 0.4 or (Plan.cur and Plan.cur.tol) else nonsmooth)(rng, n, cx)
    x0, tau, niter = start(rng, n, cx), pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.05, 3)), niter_(rng)
    tol = tol_(rng, None, None, 1e-1, 1e-2, 1e-4) if f.name[:2] == "L2" or f.name == "Quadratic" else None
    show = rng.random() < 0.25
    if tol is not None:
        niter = lim(30)
    c = dict(alg="PP", f=f.desc, x0=vec(x0), tau=num(tau), niter=niter, tol="none" if tol is None else num(tol))
    return record("ProximalPoint(%s)" % f.name, c, lambda cb: quiet(lambda: P.ProximalPoint(f.make(), x0.copy(), tau, niter=niter, tol=tol, callback=cb, show=show), show), cx)[0]


ACC = [None, None, "vandenberghe", "fista"]


def apg_(rng, i):
    return pg_(rng, i, True)


def pg_(rng, i, force=False):
    cx = rng.random() < 0.2
    n = int(rng.integers(1, 5))
    bil = (not cx) and rng.random() < 0.12
    if bil:
        H, n = bilin(rng, rng.random() < 0.3)
        held = []
        f = Fn(H.desc, lambda: held.append(H.make()) or held[-1], "LowRank", 40.0)
    else:
        f = smooth(rng, n, cx)
    tol = tol_(rng, None, None, None, 1e-1, 1e-2, 1e-3)
    g = nonsmooth(rng, n, cx, None if tol is None else ["L1", "L2b", "euclid"] if cx else ["L1", "L1g", "huber", "euclid", "L2b"])
    niter = niter_(rng) if tol is None else lim(25)
    mode = pick(rng, "fixed", "fixed", "fixed", "back", "backt")
    if Plan.cur and niter > 6:
        mode = "fixed"
    tau = None if mode == "back" else r3(rng, 0.1, 1.3) / f.lip if mode == "fixed" else pick(rng, 1.0, 3.0, 0.7) * pick(rng, 1.0, 1 / f.lip)
    back = mode == "backt"
    if mode != "fixed":
        niter = min(niter, 6)
        if tol is not None:
            tol = pick(rng, 0.5, 0.2, 0.1)
    beta, nback = pick(rng, 0.5, 0.8, 0.3), pick(rng, 100, 100, 2, 5)
    acc, eta = pick(rng, *ACC), pick(rng, 1.0, 1.0, 0.5, 0.9)
    eps, ed = epsv(rng, niter)
    if force:
        acc, eta, eps = acc or "vandenberghe", 1.0, pick(rng, 0.5, 2.0, 1.0, r3(rng, 0.2, 3))
        ed = [num(eps)]
        if mode == "backt":
            mode, back, tau = "back", False, None
    show = rng.random() < 0.15
    x0 = start(rng, n, cx)
    c = dict(alg="PG", f=f.desc, g=g.desc, x0=vec(x0), tau="none" if tau is None else num(tau), back=back, beta=num(beta), nback=nback, acc=acc or "none",
             eta=num(eta), eps=ed, niter=niter, tol="none" if tol is None else num(tol))
    apg = acc is not None and eta == 1.0 and mode != "backt" and np.isscalar(eps) and (force or rng.random() < 0.3)
    kw = dict(epsg=eps, tau=tau, beta=beta, niter=niter, niterback=nback, acceleration=acc, tol=tol, show=show)

    def call(cb):
        if apg:
            return P.AcceleratedProximalGradient(f.make(), g.make(), x0.copy(), callback=cb, **kw)
        return P.ProximalGradient(f.make(), g.make(), x0.copy(), backtracking=back, eta=eta, callback=cb, **kw)
    t, log, r = record("%s(%s,%s,%s,%s)" % ("AcceleratedProximalGradient" if apg else "ProximalGradient", f.name, g.name, mode, acc), c,
                       lambda cb: quiet(lambda: call(cb), show), cx, 1e-6 if mode != "fixed" else 1e-7)
    if bil and r is not None:
        t["ev"].append({"e": "same", "why": "stored factors", "a": vec(held[-1].x) + vec(held[-1].y), "b": vec(r[0]), "tol": "0"})
    return t


def aa_(rng, i):
    n = int(rng.integers(2, 6))
    f = smooth(rng, n)
    tol = tol_(rng, None, None, None, 1e-1, 1e-2)
    g = nonsmooth(rng, n, False, None if tol is None else ["L1", "L1g", "huber", "L2b"])
    niter, nh = lim(int(pick(rng, 1, 2, 3, 4, 6, 10))), int(pick(rng, 1, 2, 2, 3, 10))
    tau, guard = r3(rng, 0.1, 1.0) / f.lip, bool(rng.random() < 0.5)
    eps, ed = epsv(rng, niter)
    x0 = start(rng, n)
    c = dict(alg="AA", f=f.desc, g=g.desc, x0=vec(x0), tau=num(tau), nhist=nh, guard=guard, eps=ed, niter=niter, tol="none" if tol is None else num(tol))
    show = rng.random() < 0.15
    return record("AndersonProximalGradient(%s,%s,%s)" % (f.name, g.name, "guard" if guard else "plain"), c,
                  lambda cb: quiet(lambda: P.AndersonProximalGradient(f.make(), g.make(), x0.copy(), epsg=eps, tau=tau, niter=niter, nhistory=nh, safeguard=guard, tol=tol, callback=cb, show=show), show),
                  False, 1e-5)[0]


def pgv_(rng, i):
    """several right-hand sides, each with its own step (the columns of x0, or stretches of one vector)"""
    k, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    m = int(rng.integers(max(1, n - 1), n + 3))
    A, b = rmat(rng, m, n), rvec(rng, m * k).reshape(m, k)
    s = pick(rng, 1.0, 0.5, 2.0)
    lip = s * max(np.linalg.norm(A, 2) ** 2, 0.1)
    AA = np.kron(A, np.eye(k))
    aa = rng.random() < 0.4
    cols = not aa and rng.random() < 0.6
    f = Fn(dict(k="L2", sig=num(s), A=mat(AA), b=vec(b), q=[], alpha="1.0", qgrad=True),
           lambda: pp.L2(Op=pylops.MatrixMult(A), b=b.copy(), sigma=s) if cols else pp.L2(Op=pylops.MatrixMult(AA), b=b.ravel().copy(), sigma=s), "L2.A", lip)
    gk = pick(rng, "L1", "L1", "box", "zero")
    sg = pick(rng, 0.5, 0.25, r3(rng, 0.1, 2.0))
    N = n * k
    if gk == "L1":
        g = Fn(dict(k="L1", sig=[num(sg)] * N, g=["0"] * N, w=1), lambda: pp.L1(sigma=sg), "L1")
    elif gk == "box":
        g = Fn(dict(k="Box", lo=[num(-sg)] * N, up=[num(1.0)] * N), lambda: pp.Box(-sg, 1.0), "Box")
    else:
        g = Fn(dict(k="Zero"), lambda: pp.L1(sigma=0.0), "Zero")
    tv = np.array([r3(rng, 0.1, 1.0) / lip for _ in range(k)])
    tau = tv if cols else np.tile(tv, n)
    scal = cols and rng.random() < 0.3
    if scal:
        tv = np.full(k, tv[0])
        tau = float(tv[0])
    tol = tol_(rng, None, None, 1e-1, 1e-2) if gk == "L1" else None
    niter = lim(int(pick(rng, 1, 2, 3, 6))) if tol is None else lim(25)
    eps, ed = epsv(rng, niter)
    show = rng.random() < 0.3
    x0 = start(rng, N).reshape(n, k)
    if not cols:
        x0 = x0.ravel()
    c = dict(f=f.desc, g=g.desc, x0=vec(x0), tau="1.0", tauv=vec(np.tile(tv, n)), eps=ed, niter=niter, tol="none" if tol is None else num(tol))
    if aa:
        nh, guard = int(pick(rng, 1, 2, 3)), bool(rng.random() < 0.5)
        c.update(alg="AA", nhist=nh, guard=guard)
        return record("AndersonProximalGradient(%d rhs,%s)" % (k, g.name), c,
                      lambda cb: quiet(lambda: P.AndersonProximalGradient(f.make(), g.make(), x0.copy(), epsg=eps, tau=tau.copy(), niter=niter, nhistory=nh, safeguard=guard, tol=tol,
                                                                          callback=cb, show=show), show), False, 1e-5)[0]
    acc, eta = pick(rng, *ACC), pick(rng, 1.0, 1.0, 0.5)
    c.update(alg="PG", back=False, beta="0.5", nback=100, acc=acc or "none", eta=num(eta))
    return record("ProximalGradient(%d rhs,%s)" % (k, g.name), c,
                  lambda cb: quiet(lambda: P.ProximalGradient(f.make(), g.make(), x0.copy(), epsg=eps, tau=tau, niter=niter, eta=eta, acceleration=acc, tol=tol, callback=cb, show=show), show),
                  False)[0]


def gpg_(rng, i):
    cx = rng.random() < 0.2
    n = int(rng.integers(1, 5))
    nf, ng = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    fs, gs = [smooth(rng, n, cx) for _ in range(nf)], [nonsmooth(rng, n, cx) for _ in range(ng)]
    tau, niter = r3(rng, 0.1, 1.2) / sum(f.lip for f in fs), niter_(rng)
    acc = pick(rng, *ACC)
    eta = pick(rng, 1.0, 1.0, 0.5, 0.8) if acc is None else 1.0
    if rng.random() < 0.5:
        wts, wd = None, []
    else:
        wts = rng.uniform(0.2, 1, ng)
        wts = wts / wts.sum()
        wd = vec(wts)
    if rng.random() < 0.5:
        eps, ed = pick(rng, 1.0, 0.5, 2.0), None
        ed = [num(eps)]
    else:
        eps = np.round(rng.uniform(0.2, 2, ng), 2)
        ed = vec(eps)
    x0 = start(rng, n, cx)
    show = rng.random() < 0.15
    tn = rng.random() < 0.1
    if tn:
        tau = None
    c = dict(alg="GPG", fs=[f.desc for f in fs], gs=[g.desc for g in gs], x0=vec(x0), tau=num(1.0 if tn else tau), acc=acc or "none", eta=num(eta), wts=wd, eps=ed, niter=niter)
    return record("GeneralizedProximalGradient(%d,%d,%s)" % (nf, ng, acc), c,
                  lambda cb: quiet(lambda: P.GeneralizedProximalGradient([f.make() for f in fs], [g.make() for g in gs], x0.copy(), tau=tau, epsg=eps, weights=wts, eta=eta,
                                                           niter=niter, acceleration=acc, callback=cb, show=show), show), cx, 1e-6 if tn else 1e-7)[0]


def tw_(rng, i):
    imp = bool(rng.random() < 0.4)
    n = int(rng.integers(2, 5))
    m = int(rng.integers(n, n + 3))
    cx = rng.random() < 0.2
    A, b = rmat(rng, m, n, cx), rvec(rng, m, cx)
    A = np.round(A / max(1.0, np.linalg.norm(A, 2)), 3)
    g = nonsmooth(rng, n, cx, ["L1", "euclid", "L2b"] if cx else ["L1", "L1v", "box", "huber", "L2b"])
    mode = pick(rng, "given", "given", "eigs", "auto" if not (Plan.cur or cx) else "eigs")   # (auto: estimated with a random start)
    ev = np.linalg.eigvalsh(A.conj().T @ A)
    emax, emin = max(1.0, ev[-1]), ev[0]
    if mode == "auto" and m == n and rng.random() < 0.5:
        A = A + A.T
    if mode == "auto":
        ev = np.linalg.eigvalsh(A.T @ A)
        emax, emin = max(1.0, ev[-1]), ev[0]
    if mode == "eigs":
        emax, emin = pick(rng, 1.0, 1.5), pick(rng, 0.1, 0.01)
    if mode == "given":
        al, be = pick(rng, 1.0, 1.2, r3(rng, 0.8, 1.8)), pick(rng, 1.0, 1.3, r3(rng, 0.5, 2))
        kw = dict(alpha=al, beta=be)
    else:
        k = emin / emax
        rho = (1 - np.sqrt(k)) / (1 + np.sqrt(k))
        al = 1 + rho ** 2
        be = 2 * al / (emax + emin)
        kw = dict(eigs=(emax, emin)) if mode == "eigs" else {}
    niter, cost = niter_(rng), bool(rng.random() < 0.4) and g.name not in ("Box", "L1.v")
    x0 = start(rng, n, cx)
    show = rng.random() < 0.15
    d = dict(k="L2", sig="1.0", A=mat(A), b=vec(b), q=[], alpha="1.0", qgrad=True)
    c = dict(alg="TW", f=d, g=g.desc, x0=vec(x0), alpha=num(al), beta=num(be), cost=cost, niter=niter)
    return record("TwIST(%s,%s)" % (g.name, mode), c, lambda cb: quiet(lambda: P.TwIST(g.make(), op_(A, imp), b.copy(), x0.copy(), niter=niter, callback=cb, returncost=cost, show=show, **kw), show),
                  cx, 1e-5 if mode == "auto" else 1e-7, ncx=1)[0]


def C10(tier, seed):
    return cases("C10", tier, seed, [pp_, pg_, pg_, pg_, aa_, gpg_, tw_, pgv_, apg_], 60)


# ---------------------------------------------------------------- C11
def two(rng, n, cx):
    fk = rng.random()
    f = smooth(rng, n, cx) if fk < 0.6 else nonsmooth(rng, n, cx)
    g = nonsmooth(rng, n, cx)
    return f, g


def x0z0(rng, n, cx):
    j = int(rng.integers(0, 4))
    x0 = start(rng, n, cx) if j != 1 else None
    z0 = start(rng, n, cx) if j in (1, 2) else None
    return x0, z0, ([] if x0 is None else vec(x0)), ([] if z0 is None else vec(z0))


def cp(x):
    return None if x is None else x.copy()


def hqs_(rng, i):
    cx = rng.random() < 0.25
    n = int(rng.integers(1, 5))
    f, g = two(rng, n, cx)
    x0, z0, xd, zd = x0z0(rng, n, cx)
    niter = niter_(rng)
    tau = pick(rng, 0.5, 1.0, 2.0) if rng.random() < 0.5 else np.round(rng.uniform(0.1, 3, niter), 2)
    gf, cb2, show = pick(rng, None, True, False), bool(rng.random() < 0.6), rng.random() < 0.15
    kw = {} if gf is None else dict(gfirst=gf)
    c = dict(alg="HQS", f=f.desc, g=g.desc, x0=xd, z0=zd, A=[], tau=[num(tau)] if np.isscalar(tau) else vec(tau), gfirst=gf is not False, niter=niter, cb2=cb2)
    return record("HQS(%s,%s)" % (f.name, g.name), c,
                  lambda cb: quiet(lambda: P.HQS(f.make(), g.make(), cp(x0), tau, niter=niter, z0=cp(z0), callback=cb, callbackz=cb2, show=show, **kw), show), cx)[0]


def admm_(rng, i):
    cx = rng.random() < 0.25
    n = int(rng.integers(1, 5))
    f, g = two(rng, n, cx)
    x0, z0, xd, zd = x0z0(rng, n, cx)
    niter, tau = niter_(rng), pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.05, 4))
    gf, cb2, show = pick(rng, None, True, False), bool(rng.random() < 0.6), rng.random() < 0.15
    kw = {} if gf is None else dict(gfirst=gf)
    c = dict(alg="ADMM", f=f.desc, g=g.desc, x0=xd, z0=zd, A=[], tau=num(tau), gfirst=gf is True, niter=niter, cb2=cb2)
    return record("ADMM(%s,%s)" % (f.name, g.name), c,
                  lambda cb: quiet(lambda: P.ADMM(f.make(), g.make(), cp(x0), tau, niter=niter, z0=cp(z0), callback=cb, callbackz=cb2, show=show, **kw), show), cx)[0]


def admml2_(rng, i):
    n = int(rng.integers(1, 5))
    m, p = int(rng.integers(n, n + 3)), int(rng.integers(1, n + 2))
    cx = rng.random() < 0.2
    A, p, imp = lin(rng, p, n, cx)
    Op, b = rmat(rng, m, n, cx) + np.eye(m, n), rvec(rng, m, cx)
    im2 = bool(imp)
    if rng.random() < 0.15:
        Op, b, im2 = np.eye(n) + (0j if cx else 0), rvec(rng, n, cx), "alias"
    g = nonsmooth(rng, p, cx)
    x0 = start(rng, n, cx)
    z0 = start(rng, p, cx) if rng.random() < 0.5 else None
    niter, tau, gf = niter_(rng, 6), pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 4)), pick(rng, None, True, False)
    kw = {} if gf is None else dict(gfirst=gf)
    show = rng.random() < 0.15
    c = dict(alg="ADMML2", g=g.desc, Op=mat(Op), b=vec(b), A=mat(A), x0=vec(x0), z0=[] if z0 is None else vec(z0), tau=num(tau), gfirst=gf is True, niter=niter)
    return record("ADMML2(%s)" % g.name, c, lambda cb: quiet(lambda: P.ADMML2(g.make(), op_(Op, im2), b.copy(), op_(A, imp), x0.copy(), tau, niter=niter, z0=cp(z0), callback=cb, show=show,
                                                               iter_lim=20 * n + 40, atol=1e-14, btol=1e-14, conlim=1e14, **kw), show), cx, 1e-5)[0]


def ladmm_(rng, i):
    cx = rng.random() < 0.25
    n, p = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    A, p, imp = lin(rng, p, n, cx)
    f, g = (smooth if rng.random() < 0.5 else nonsmooth)(rng, n, cx), nonsmooth(rng, p, cx)
    x0 = start(rng, n, cx)
    z0 = start(rng, p, cx) if rng.random() < 0.5 else None
    niter, tau = niter_(rng), pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.1, 4))
    mu = r3(rng, 0.1, 1.2) * tau / max(np.linalg.norm(A, 2) ** 2, 0.05)
    show = rng.random() < 0.15
    c = dict(alg="LADMM", f=f.desc, g=g.desc, A=mat(A), x0=vec(x0), z0=[] if z0 is None else vec(z0), tau=num(tau), mu=num(mu), niter=niter)
    return record("LinearizedADMM(%s,%s)" % (f.name, g.name), c,
                  lambda cb: quiet(lambda: P.LinearizedADMM(f.make(), g.make(), op_(A, imp), x0.copy(), tau, mu, niter=niter, z0=cp(z0), callback=cb, show=show), show), cx)[0]


def dr_(rng, i):
    cx = rng.random() < 0.25
    n = int(rng.integers(1, 5))
    f, g = two(rng, n, cx)
    x0, niter, tau, eta = start(rng, n, cx), niter_(rng), pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.05, 4)), pick(rng, 1.0, 1.0, 0.5, 1.8)
    gf, cb2, show = pick(rng, None, True, False), bool(rng.random() < 0.6), rng.random() < 0.15
    kw = {} if gf is None else dict(gfirst=gf)
    c = dict(alg="DR", f=f.desc, g=g.desc, x0=vec(x0), tau=num(tau), eta=num(eta), gfirst=gf is not False, niter=niter, cb2=cb2)
    return record("DouglasRachfordSplitting(%s,%s)" % (f.name, g.name), c,
                  lambda cb: quiet(lambda: P.DouglasRachfordSplitting(f.make(), g.make(), x0.copy(), tau, eta=eta, niter=niter, callback=cb, callbacky=cb2, show=show, **kw), show), cx)[0]


def C11(tier, seed):
    return cases("C11", tier, seed, [hqs_, admm_, admml2_, ladmm_, dr_], 70)


# ---------------------------------------------------------------- C12
def manyf(rng, n, cx, m):
    return [(smooth if rng.random() < 0.35 else nonsmooth)(rng, n, cx) for _ in range(m)]


def ppxa_(rng, i):
    cx = rng.random() < 0.2
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    fs = manyf(rng, n, cx, m)
    tau, eta = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.05, 3)), pick(rng, 1.0, 1.0, 0.5, 1.7)
    tol = tol_(rng, None, "default", 1e-1, 1e-2, 1e-3)
    niter = lim(int(pick(rng, 1, 2, 5, 8)) if tol in (None, "default") else 40)
    kind = pick(rng, "single", "stack", "list")
    if rng.random() < 0.5:
        wts, wd = None, []
    else:
        wts = rng.uniform(0.2, 1, m)
        wts = wts / wts.sum()
        wd = vec(wts)
        if rng.random() < 0.5:
            wts = list(wts)
    x1 = start(rng, n, cx)
    xs = [x1] * m if kind == "single" else [start(rng, n, cx) for _ in range(m)]
    arg = x1.copy() if kind == "single" else np.stack(xs) if kind == "stack" else [x.copy() for x in xs]
    kw = {} if tol == "default" else dict(tol=tol)
    show = rng.random() < 0.15
    c = dict(alg="PPXA", fs=[f.desc for f in fs], ys=[vec(x.astype(complex) if cx else x) for x in xs], tau=num(tau), eta=num(eta), wts=wd, niter=niter,
             tol="none" if tol is None else num(1e-7 if tol == "default" else tol))
    t, log, r = record("PPXA(%d,%s)" % (m, kind), c, lambda cb: quiet(lambda: P.PPXA([f.make() for f in fs], arg, tau, eta=eta, weights=wts, niter=niter, callback=cb, show=show, **kw), show), cx)
    if r is not None and m > 1 and not Plan.cur and rng.random() < 0.4:
        perm = rng.permutation(m)
        w2 = None if wts is None else np.asarray(wts)[perm]
        try:
            r2 = _P.PPXA([fs[j].make() for j in perm], np.stack([xs[j] for j in perm]), tau, eta=eta, weights=w2, niter=niter, **kw)
            t["ev"].append({"e": "same", "why": "order of the functions", "a": out(r[0], cx), "b": out(r2, cx), "tol": num(1e-7 if tol in (None, "default") else 3 * tol)})
        except Exception as e:  # noqa: BLE001
            t["ev"].append({"e": "boom", "what": type(e).__name__ + " with permuted functions"})
    return t


def cadmm_(rng, i):
    cx = rng.random() < 0.2
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    fs = manyf(rng, n, cx, m)
    tau = pick(rng, 0.5, 1.0, 2.0, r3(rng, 0.05, 3))
    tol = tol_(rng, None, "default", 1e-1, 1e-2, 1e-3)
    niter = lim(int(pick(rng, 1, 2, 5, 8)) if tol in (None, "default") else 40)
    kw = {} if tol == "default" else dict(tol=tol)
    show = rng.random() < 0.15
    x0 = start(rng, n, cx)
    c = dict(alg="CADMM", fs=[f.desc for f in fs], x0=vec(x0), tau=num(tau), wts=[], niter=niter, tol="none" if tol is None else num(1e-7 if tol == "default" else tol))
    t, log, r = record("ConsensusADMM(%d)" % m, c, lambda cb: quiet(lambda: P.ConsensusADMM([f.make() for f in fs], x0.copy(), tau, niter=niter, callback=cb, show=show, **kw), show), cx)
    if r is not None and m > 1 and not Plan.cur and rng.random() < 0.4:
        perm = rng.permutation(m)
        try:
            r2 = _P.ConsensusADMM([fs[j].make() for j in perm], x0.copy(), tau, niter=niter, **kw)
            t["ev"].append({"e": "same", "why": "order of the functions", "a": out(r[0], cx), "b": out(r2, cx), "tol": num(1e-7 if tol in (None, "default") else 3 * tol)})
        except Exception as e:  # noqa: BLE001
            t["ev"].append({"e": "boom", "what": type(e).__name__ + " with permuted functions"})
    return t


def C12(tier, seed):
    return cases("C12", tier, seed, [ppxa_, cadmm_], 130)


# ---------------------------------------------------------------- C13
def pd_(rng, i):
    cx = rng.random() < 0.2
    n, p = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    A, p, imp = lin(rng, p, n, cx)
    f, g = (smooth if rng.random() < 0.5 else nonsmooth)(rng, n, cx), nonsmooth(rng, p, cx)
    x0, niter = start(rng, n, cx), niter_(rng)
    L = max(np.linalg.norm(A, 2), 0.1)
    if cx or rng.random() < 0.5:
        tau, mu = r3(rng, 0.2, 1.5) / L, r3(rng, 0.2, 1.0) / L
        td, md = [num(tau)], [num(mu)]
    else:
        tau, mu = np.round(rng.uniform(0.1, 1.2, niter), 2) / L, np.round(rng.uniform(0.1, 1.2, niter), 2) / L
        td, md = vec(tau), vec(mu)
        if rng.random() < 0.3:
            mu = float(mu[0])
            md = [num(mu)]
    y0 = start(rng, p, cx) if rng.random() < 0.4 else None
    z = rvec(rng, n, cx) if rng.random() < 0.4 else None
    th, gf = pick(rng, 1.0, 1.0, 0.5, 0.0), pick(rng, None, True, False)
    cb2, rety, show = bool(rng.random() < 0.6), bool(rng.random() < 0.6), rng.random() < 0.15
    kw = {} if gf is None else dict(gfirst=gf)
    c = dict(alg="PD", f=f.desc, g=g.desc, A=mat(A), x0=vec(x0), y0=[] if y0 is None else vec(y0), z=[] if z is None else vec(z), tau=td, mu=md, theta=num(th),
             gfirst=gf is not False, niter=niter, cb2=cb2, rety=rety)
    return record("PrimalDual(%s,%s)" % (f.name, g.name), c,
                  lambda cb: quiet(lambda: PrimalDual(f.make(), g.make(), op_(A, imp), x0.copy(), tau, mu, y0=cp(y0), z=cp(z), theta=th, niter=niter, callback=cb, callbacky=cb2,
                                        returny=rety, show=show, **kw), show), cx)[0]


def apd_(rng, i):
    cx = rng.random() < 0.15
    n, p = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    A, p, imp = lin(rng, p, n, cx)
    f, g = (smooth if rng.random() < 0.5 else nonsmooth)(rng, n, cx), nonsmooth(rng, p, cx)
    x0 = start(rng, n, cx)
    L = max(np.linalg.norm(A, 2), 0.1)
    tau, mu = pick(rng, 1.0, 0.1, 5.0, 0.9) / L, pick(rng, 1.0, 0.2, 3.0) / L
    al, eta, s, de = pick(rng, 0.5, 0.3), pick(rng, 0.95, 0.8), pick(rng, 1.0, 1.0, 0.5, 4.0), pick(rng, 1.5, 1.2, 3.0)
    z = rvec(rng, n, cx) if rng.random() < 0.4 else None
    tol = tol_(rng, 1e-10, 1e-10, 0.3, 0.05) or 1e-10
    niter = lim(int(pick(rng, 1, 2, 3, 5, 8, 10)) if tol < 1e-3 else 30)
    show = rng.random() < 0.15
    c = dict(alg="APD", f=f.desc, g=g.desc, A=mat(A), x0=vec(x0), z=[] if z is None else vec(z), tau=num(tau), mu=num(mu), alpha=num(al), eta=num(eta), s=num(s), delta=num(de),
             niter=niter, tol=num(tol))
    return record("AdaptivePrimalDual(%s,%s)" % (f.name, g.name), c,
                  lambda cb: quiet(lambda: AdaptivePrimalDual(f.make(), g.make(), op_(A, imp), x0.copy(), tau, mu, alpha=al, eta=eta, s=s, delta=de, z=cp(z), niter=niter, tol=tol,
                                                callback=cb, show=show), show), cx, 1e-6, ncx=1)[0]


def seg_(rng, i):
    dims = pick(rng, (2, 2), (2, 3), (3, 2), (4,), (5,), (2, 2, 2))
    K = int(pick(rng, 2, 2, 3))
    n = int(np.prod(dims))
    y = np.round(rng.normal(size=dims), 2)
    cl = np.sort(np.round(rng.normal(size=K), 2))
    cls = np.round(rng.uniform(0.5, 2, K), 2) if rng.random() < 0.4 else None
    small = rng.random() < 0.15
    if small:
        # an image of small integers
        dt = pick(rng, "uint8", "int16", "int64")
        y, cl = rng.integers(0, 256, dims).astype(dt), np.sort(rng.choice(256, K, replace=False)).astype(pick(rng, dt, "float64"))
    z = rvec(rng, n * K) * 0.3 if rng.random() < 0.3 else None
    x0 = rng.uniform(0, 1, n * K).round(2) if rng.random() < 0.3 else None
    sg, al, niter = pick(rng, 1.0, 0.5, 3.0) * (1e-4 if small else 1.0), pick(rng, 0.5, 1.0, 0.1), lim(int(pick(rng, 1, 2, 4, 10)))
    kws = dict(maxiter=300, xtol=1e-13) if rng.random() < 0.7 else None
    show = rng.random() < 0.2
    c = dict(alg="SEG", y=vec(y), dims=list(dims), cl=vec(cl), cls=[] if cls is None else vec(cls), z=[] if z is None else vec(z), x0=[] if x0 is None else vec(x0), sigma=num(sg),
             alpha=num(al), niter=niter)
    keepc = {}

    def call(cb):
        p, k = Segment(y.copy(), cl.copy(), sg, al, clsigmas=cp(cls), z=cp(z), niter=niter, x0=cp(x0), callback=cb, show=show, kwargs_simplex=kws)
        keepc["p"], keepc["k"] = p, k
        return (np.asarray(p).T.ravel(),)
    t, log, r = record("Segment(%s)" % (dims,), c, lambda cb: quiet(lambda: call(cb), show), False, 1e-7 if kws else 1e-5)
    if r is not None:
        p, k = np.asarray(keepc["p"]), np.asarray(keepc["k"])
        t["ev"].append({"e": "keep", "why": "shape of the classes", "a": list(k.shape), "b": list(dims)})
        t["ev"].append({"e": "classes", "prob": [vec(q) for q in p], "cls": [int(v) for v in k.ravel()]})
    return t


def C13(tier, seed):
    return cases("C13", tier, seed, [pd_, pd_, apd_, seg_], 80)


# ---------------------------------------------------------------- C14
class Bil:
    def __init__(self, desc, make, X, Y, n, r, m, d, Op):
        self.desc, self.make, self.X, self.Y, self.n, self.r, self.m, self.d, self.Op = desc, make, X, Y, n, r, m, d, Op


def bilin(rng, withop=False, cx=False):
    n, r, m = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
    X, Y = rmat(rng, n, r, cx) + 0.1, rmat(rng, r, m, cx) + 0.1
    Op = rmat(rng, int(rng.integers(1, n * m + 2)), n * m, cx) if withop else None
    d = rvec(rng, n * m if Op is None else Op.shape[0], cx)
    desc = dict(k="Bil", w=2 if cx else 1, n=n, r=r, m=m, d=vec(d), Op=mat(np.eye(n * m) + (0j if cx else 0) if Op is None else Op))
    return Bil(desc, lambda: LowRankFactorizedMatrix(X.copy(), Y.copy(), d.copy(), None if Op is None else pylops.MatrixMult(Op, dtype=Op.dtype)), X, Y, n, r, m, d, Op), n * r + r * m


def palm_(rng, i):
    withop = rng.random() < 0.25
    cx = rng.random() < 0.2
    H, _ = bilin(rng, withop, cx)
    nx, ny = H.n * H.r, H.r * H.m
    gk = ["L1s", "L1s", "L2b", "zero"] if cx else ["L1s", "L1s", "L1g", "box", "L2b", "zero", "ball"]
    f = nonsmooth(rng, nx, cx, gk) if rng.random() < 0.7 else None
    g = nonsmooth(rng, ny, cx, gk) if rng.random() < 0.7 else None
    gf = None if withop else pick(rng, 1.0, 1.5, None, 2.0)
    gg = None if withop else pick(rng, 1.0, 1.5, None, 2.0)
    beta, nback, niter = pick(rng, 0.5, 0.8, 0.3), pick(rng, 100, 100, 3), lim(int(pick(rng, 1, 2, 3, 5, 10)))
    inert = rng.random() < 0.5
    a = (pick(rng, 0.0, 0.5, 1.0), pick(rng, 0.3, 1.0, 0.0))
    if rng.random() < 0.15:
        a = (1.0, 1.0)
    x0, y0 = rvec(rng, nx, cx) + 0.053, rvec(rng, ny, cx) + 0.053
    same = rng.random() < 0.4
    if same:
        x0, y0 = H.X.ravel().copy(), H.Y.ravel().copy()
    if rng.random() < 0.12:
        # large factors: short steps
        x0, y0 = x0 * pick(rng, 10.0, 60.0), y0 * pick(rng, 10.0, 60.0)
    zero = dict(k="Zero")
    c = dict(alg="iPALM" if inert else "PALM", H=H.desc, f=f.desc if f else zero, g=g.desc if g else zero, x0=vec(x0), y0=vec(y0), gf="none" if gf is None else num(gf),
             gg="none" if gg is None else num(gg), beta=num(beta), nback=nback, niter=niter, a=[num(a[0]), num(a[1])])
    op = H.make()
    pre = bool(rng.random() < 0.4)   # an earlier solve with the same bilinear operator
    show = bool(rng.random() < 0.2)
    kw = dict(gammaf=gf, gammag=gg, beta=beta, niterback=nback, show=show)

    def call(cb):
        if pre:
            PALM.fn(op, None, None, rvec(rng, nx, cx) + 0.053, rvec(rng, ny, cx) + 0.053, gammaf=gf, gammag=gg, niter=2)
        fm, gm = f.make() if f else None, g.make() if g else None
        if inert:
            return iPALM(op, fm, gm, x0.copy(), y0.copy(), a=a, niter=niter, callback=cb, **kw)
        return PALM(op, fm, gm, x0.copy(), y0.copy(), niter=niter, callback=cb, **kw)
    t, log, r = record("%s(%s,%s)%s" % ("iPALM" if inert else "PALM", "step" if gf else "back", "step" if gg else "back", ".cx" if cx else ""), c, lambda cb: quiet(lambda: call(cb), show), cx, 1e-6)
    if r is not None:
        t["ev"].append({"e": "same", "why": "stored factor x", "a": vec(op.x), "b": vec(r[0]), "tol": "0"})
        t["ev"].append({"e": "same", "why": "stored factor y", "a": vec(op.y), "b": vec(r[1]), "tol": "0"})
    return t


def C14(tier, seed):
    return cases("C14", tier, seed, [palm_, palm_], 130)


# ---------------------------------------------------------------- C15
def breg_(rng, i):
    n = int(rng.integers(1, 5))
    cx = rng.random() < 0.2
    f = smooth(rng, n, cx, ["A", "A", "b"] if cx else ["A", "A", "b", "Aq"])
    al, warm, nout = pick(rng, 1.0, 0.5, 2.0, 3.0), bool(rng.random() < 0.5), lim(int(pick(rng, 1, 2, 3, 5)))
    x0 = start(rng, n, cx)
    k = pick(rng, "pg", "pg", "admm", "dr", "ladmm", "pd", "hqs")
    nin = int(pick(rng, 1, 2, 4))
    p = int(rng.integers(1, 4))
    A = None
    if k in ("ladmm", "pd"):
        A = rmat(rng, p, n, cx)
        L = max(np.linalg.norm(A, 2), 0.1)
    g = nonsmooth(rng, n if A is None else p, cx, ["L1", "euclid"] if cx else ["L1", "L1g", "L1v", "huber", "euclid"])
    base = dict(f=dict(k="Zero"), g=dict(k="Zero"), x0=[], w=2 if cx else 1, niter=nin)
    tau = pick(rng, 0.5, 1.0)
    if k == "pg":
        tau = r3(rng, 0.3, 1.0) / f.lip
        acc = pick(rng, None, "fista")
        solver, kw = P.ProximalGradient, dict(tau=tau, niter=nin, acceleration=acc)
        base.update(alg="PG", tau=num(tau), back=False, beta="0.5", nback=100, acc=acc or "none", eta="1", eps=["1"], tol="none")
    elif k == "admm":
        solver, kw = P.ADMM, dict(tau=tau, niter=nin)
        base.update(alg="ADMM", tau=num(tau), z0=[], A=[], gfirst=False, cb2=False)
    elif k == "hqs":
        solver, kw = P.HQS, dict(tau=tau, niter=nin)
        base.update(alg="HQS", tau=[num(tau)], z0=[], A=[], gfirst=True, cb2=False)
    elif k == "dr":
        solver, kw = P.DouglasRachfordSplitting, dict(tau=tau, niter=nin)
        base.update(alg="DR", tau=num(tau), eta="1", gfirst=True, cb2=False)
    elif k == "ladmm":
        mu = 0.9 * tau / L ** 2
        solver, kw = P.LinearizedADMM, dict(tau=tau, mu=mu, niter=nin)
        base.update(alg="LADMM", tau=num(tau), mu=num(mu), A=mat(A), z0=[])
    else:
        solver, kw = PrimalDual, dict(tau=0.9 / L, mu=0.9 / L, niter=nin)
        base.update(alg="PD", tau=[num(0.9 / L)], mu=[num(0.9 / L)], A=mat(A), y0=[], z=[], theta="1", gfirst=True, rety=False, cb2=False)
    # huber has no scaled call of its own: alpha * huber through the combinator
    tolx = tol_(rng, None, None, 0.5, 0.1)
    tolf = pick(rng, None, None, 0.5, 2.0) if not Plan.cur else None
    tk = {}
    if tolx is not None:
        tk["tolx"] = tolx
    if tolf is not None:
        tk["tolf"] = tolf
    if tk:
        nout = lim(6)
    c = dict(alg="BREG", f=f.desc, g=g.desc, x0=vec(x0), alpha=num(al), warm=warm, niter=nout, inner=base, tol=num(tolx or 1e-10), tolf=num(tolf or 1e-10))
    show = rng.random() < 0.15
    if A is not None:
        kw = dict(kw, A=op_(A))
    return record("Bregman(%s,%s)" % (k, g.name), c, lambda cb: quiet(lambda: Bregman(f.make(), g.make(), x0.copy(), solver, alpha=al, niterouter=nout, warm=warm, bregcallback=cb, show=show, **tk, **kw), show),
                  cx, 1e-6)[0]


def pnp_(rng, i):
    dims = pick(rng, (2, 2), (2, 3), (3, 2), (1, 3), (4,), (2, 1, 3), (1, 2, 2))
    n = int(np.prod(dims))
    f = smooth(rng, n, False, ["A", "b", "Aq"])
    sg = np.round(rng.uniform(0.1, 1.5, dims), 2)
    seen = []

    def den(x, tau):
        seen.append((list(np.shape(x)), float(tau)))
        return np.sign(x) * np.maximum(np.abs(x) - tau * sg, 0.0)
    g = dict(k="L1", sig=vec(sg), g=["0"] * n, w=1)
    k = pick(rng, "default", "admm", "pg", "hqs", "dr", "pd")
    x0, nit, tau = start(rng, n), niter_(rng, 6), pick(rng, 0.5, 1.0, 2.0)
    c = dict(f=f.desc, g=g, x0=vec(x0), niter=nit)
    taus = [tau] * nit
    gf = pick(rng, True, False)
    if k in ("default", "admm"):
        c.update(alg="ADMM", tau=num(tau), z0=[], A=[], gfirst=gf, cb2=False)
        kw, sv = dict(tau=tau, niter=nit, gfirst=gf), P.ADMM
    elif k == "hqs":
        tv = np.round(rng.uniform(0.2, 2, nit), 2)
        taus = list(tv)
        c.update(alg="HQS", tau=vec(tv), z0=[], A=[], gfirst=gf, cb2=False)
        kw, sv = dict(tau=tv, niter=nit, gfirst=gf), P.HQS
    elif k == "dr":
        c.update(alg="DR", tau=num(tau), eta="1", gfirst=gf, cb2=False)
        kw, sv = dict(tau=tau, niter=nit, gfirst=gf), P.DouglasRachfordSplitting
    elif k == "pg":
        tau = r3(rng, 0.3, 1.0) / f.lip
        taus = [tau] * nit
        acc = pick(rng, None, "fista", "vandenberghe")
        c.update(alg="PG", tau=num(tau), back=False, beta="0.5", nback=100, acc=acc or "none", eta="1", eps=["1"], tol="none")
        kw, sv = dict(tau=tau, niter=nit, acceleration=acc), P.ProximalGradient
    else:
        mu = pick(rng, 0.5, 1.0)
        taus = [1 / mu] * nit
        c.update(alg="PD", tau=[num(tau)], mu=[num(mu)], A=mat(np.eye(n)), y0=[], z=[], theta="1", gfirst=gf, rety=True, cb2=False)
        kw, sv = dict(tau=tau, mu=mu, niter=nit, gfirst=gf, A=pylops.Identity(n), returny=True), PrimalDual
    if k != "default":
        kw["solver"] = sv
    t, log, r = record("PlugAndPlay(%s)" % k, c, lambda cb: PlugAndPlay(f.make(), den, dims, x0.copy(), callback=cb, **kw), False, 1e-7)
    if r is not None:
        t["ev"].append({"e": "keep", "why": "image shape given to the denoiser", "a": [s for s, _ in seen], "b": [list(dims)] * nit})
        t["ev"].append({"e": "same", "why": "step given to the denoiser", "a": vec([v for _, v in seen]), "b": vec(taus), "tol": "1e-12"})
    return t


def sr3_(rng, i):
    imp = bool(rng.random() < 0.5)
    n = int(rng.integers(1, 5))
    m, p = int(rng.integers(n, n + 3)), int(rng.integers(1, n + 2))
    Op, b = rmat(rng, m, n) + np.eye(m, n), rvec(rng, m)
    L, p, iml = lin(rng, p, n)
    kap, eps = pick(rng, 0.5, 1.0, 2.0), pick(rng, 0.1, 0.3, 1.0)
    x0 = rvec(rng, n) if rng.random() < 0.5 else None
    K = 4
    ad = bool(rng.random() < 0.6)
    if ad and rng.random() < 0.2:
        b = Op @ x0 if x0 is not None else np.zeros(m)
    inner = pick(rng, 100, 100, 1, 2) if ad else 100
    c = dict(alg="SR3", adaptive=ad, inner=inner, Op=mat(Op), L=mat(L), b=vec(b), kappa=num(kap), eps=num(eps), x0=vec(np.zeros(n) if x0 is None else x0), niter=K, tol="1e-6")

    def call(cb):
        for j in range(1, K + 1):
            x = SR3(op_(Op, imp), op_(L, iml), b.copy(), kap, eps, x0=cp(x0), iter_lim_outer=j, iter_lim_inner=inner, **({} if ad else dict(adaptive=False)))
            cb(x)
        return (x,)
    return record("SR3", c, call, False, 1e-5 if ad else 2e-4)[0]


def C15(tier, seed):
    return cases("C15", tier, seed, [breg_, breg_, pnp_, sr3_], 70)
