"""C16: Dykstra-type operators (Sum, GenericIntersectionProx/Proj) against certified minimisers."""
import numpy as np
import pyproximal as pp
import ops as O
from core import Rec, num, out, vec
from opchecks import seeds
from ops import F, pick, r3, rvec, sigma_


def pens(rng, n, cx, shape):
    """a convex function of n variables"""
    flat = len(shape) == 1
    while True:
        if not flat:
            s = sigma_(rng)
            k = pick(rng, "l1", "euclid", "l2")
            d = {"l1": dict(k="L1", sig=[num(s)] * n, g=["0"] * n, w=1), "euclid": dict(k="Euclid", sig=num(s)),
                 "l2": dict(k="L2", sig=num(s), A=[], b=[], q=[], alpha="1.0", qgrad=True)}[k]
            mk = {"l1": lambda: pp.L1(s), "euclid": lambda: pp.Euclidean(s), "l2": lambda: pp.L2(sigma=s)}[k]
            return F(k, d, mk, shape)
        if cx:
            f = pick(rng, O.L1_, O.Euclid_, O.HuberC_, lambda r: O.L2_(r, ["cxb", "densecx"]))(rng)
        else:
            f = pick(rng, O.L1_, O.L1_, O.Euclid_, O.L21_, O.Huber_, O.HuberC_, O.Nuclear_, O.Quad_,
                     lambda r: O.L2_(r, ["none", "b", "bq", "q", "dense"]))(rng)
        if f.n == n and f.cx == cx and len(f.shape) == 1 and f.dtype != "float32" and f.name != "Nuclear.w" and "impl" not in f.name:
            return f


def sets(rng, n, cx, shape, c):
    """a set containing c"""
    flat = len(shape) == 1
    ks = ["ball", "l1"] if cx else ["box", "box", "half", "half", "ball", "l1"]
    if not flat:
        ks = ["box"]
    if flat and not cx and c.min() >= 0 and c.sum() > 0:
        ks += ["simplex"] * 3
    if flat and not cx and n == 4:
        ks += ["nuc"]
        if c[1] == c[2]:
            ks += ["hankel"] * 3
    k = pick(rng, *ks)
    sl = lambda *a: float(pick(rng, *a))  # noqa: E731
    if k == "box":
        if not flat or rng.random() < 0.3:
            lo, up = float(c.min()) - sl(0, 0.5), float(c.max()) + sl(0, 0.5, 1)
            L, U = np.full(n, lo), np.full(n, up)
        else:
            L, U = c - rng.choice([0, 0.5, 1.0], n), c + rng.choice([0.0, 0.5, 2.0], n)
            lo, up = L, U
        return F("Box", dict(k="Box", lo=vec(L), up=vec(U)), lambda: pp.Box(lo, up), shape, kind="set", proj=lambda: pp.projection.BoxProj(lo, up))
    if k == "half":
        w = rng.integers(-3, 4, n) * 0.5
        if not w.any():
            w[0] = 1.0
        b = float(w @ c) + sl(0, 0, 0.5)
        return F("HalfSpace", dict(k="Half", h=vec(w), b=num(b)), lambda: pp.HalfSpace(w.copy(), b), shape, kind="set",
                 proj=lambda: pp.projection.HalfSpaceProj(w.copy(), b))
    if k == "ball":
        u = rng.integers(-2, 3, n) * 0.5
        ce, r = c + u, float(np.linalg.norm(u)) + sl(0.25, 0.5, 1.0)
        return F("EuclideanBall", dict(k="Ball", c=vec(ce), r=num(r)), lambda: pp.EuclideanBall(ce.copy(), r), shape, kind="set", cx=cx,
                 proj=lambda: pp.projection.EuclideanBallProj(ce.copy(), r))
    if k == "l1":
        r = float(np.abs(c).sum()) + sl(0.25, 0.5)
        return F("L1Ball", dict(k="L1Ball", r=num(r), w=2 if cx else 1), lambda: pp.L1Ball(n, r, maxiter=200, xtol=1e-13), shape, kind="set", cx=cx,
                 proj=lambda: pp.projection.L1BallProj(n, r, 200, 1e-13))
    if k == "simplex":
        r = float(c.sum())
        return F("Simplex", dict(k="Simplex", rows=[list(range(1, n + 1))], r=num(r), multi=False), lambda: pp.Simplex(n, r, maxiter=200, xtol=1e-13, ftol=1e-13),
                 shape, kind="set", proj=lambda: pp.projection.SimplexProj(n, r, 200, 1e-13))
    if k == "nuc":
        r = float(np.linalg.svd(c.reshape(2, 2))[1].sum()) + sl(0.25, 0.5)
        return F("NuclearBall", dict(k="NucBall", dim=[2, 2], r=num(r)), lambda: pp.NuclearBall((2, 2), r, maxiter=200, xtol=1e-13), shape, kind="set",
                 proj=lambda: flat22(pp.projection.NuclearBallProj(2, r, 200, 1e-13)))
    return F("Hankel", dict(k="Hankel", dim=[2, 2]), lambda: pp.Hankel((2, 2)), shape, kind="set", proj=lambda: flat22(pp.projection.HankelProj()))


def flat22(f):
    return lambda v: np.asarray(f(v.reshape(2, 2))).ravel()


def centre(rng, n, cx):
    c = rng.integers(-3, 4, n) * 0.5
    if rng.random() < 0.4:
        c = np.abs(c)
        c[int(rng.integers(0, n))] = 1.0
    if n == 4 and rng.random() < 0.4:
        c[2] = c[1]
    if cx:
        c = c + 1j * rng.integers(-3, 4, n) * 0.5
    return c


def split(terms, x, taus, cap=3000):
    """the minimiser and the parts of x - z (cyclic Dykstra, untrusted); None if it is slow.
    Also the number of cycles taken."""
    x = x.ravel()
    z, p = x.copy(), [np.zeros_like(x) for _ in terms]
    sc = 1e-12 * (1 + np.abs(x).max())
    for it in range(cap):
        d = 0.0
        for i, f in enumerate(terms):
            v = z + p[i]
            y = np.asarray(f(v, taus[i])).ravel()
            d = max(d, np.abs(y - z).max())
            z, p[i] = y, v - y
        if not np.isfinite(d):
            return None
        if d < sc:
            return z, p, it
    return None


def points(rng, c, shape, cx, k):
    n = c.size
    r = []
    for j in range(k):
        s = pick(rng, 0.5, 2.0, 4.0)
        x = c + s * (rng.normal(size=n) + (1j * rng.normal(size=n) if cx else 0)) if j % 3 else c + rng.integers(-4, 5, n) * 0.5
        if j == 4:
            x = c.copy()
        r.append(x.reshape(shape).astype(complex if cx else float))
    return r


def got(R, v, o=1):
    if isinstance(v, (bool, np.bool_)):
        return ("true" if v else "false"), "0"
    v = np.asarray(v)
    if v.size != 1 or np.iscomplexobj(v):
        return "other", "0"
    return "number", num(v.ravel()[0])


class NumpyBool(pp.ProxOperator):
    """a user's indicator whose answer is one of numpy's booleans"""

    def __init__(self, f):
        super().__init__(None, False)
        self.f = f

    def __call__(self, x):
        return np.bool_(self.f(x))

    def prox(self, x, tau):
        return self.f.prox(x, tau)


def sum_case(R, rng, npts):
    n = pick(rng, 1, 2, 3, 4, 4)
    cx = bool(rng.random() < 0.2)
    shape = (2, 2) if n == 4 and not cx and rng.random() < 0.3 else (n,)
    m = pick(rng, 1, 2, 2, 2, 3, 3, 4)
    c = centre(rng, n, cx)
    ts = [sets(rng, n, cx, shape, c) if rng.random() < 0.45 else pens(rng, n, cx, shape) for _ in range(m)]
    par = bool(rng.random() < 0.6) if m == 2 else bool(rng.random() < 0.5)
    parallel = m > 2 or (m == 2 and par)
    w, orig = None, False
    if m > 1 and rng.random() < 0.6:
        a = rng.integers(1, 5, m).astype(float)
        w = a / a.sum()
    if parallel:
        orig = bool(rng.random() < 0.4)
    own = bool(rng.random() < 0.3)
    cf = [float(v) for v in (w if w is not None else np.full(m, 1 / m))] if parallel and orig else [1.0] * m
    R.name = "Sum%d.%s%s" % (m, "par" if parallel else "seq", ".orig" if orig else "")
    d = dict(k="SumOps", fs=[t.desc for t in ts], c=[num(v) for v in cf])
    R.ops.append(d)
    wa = w if w is None or rng.random() < 0.5 else [float(v) for v in w]
    kw = dict(use_parallel=par, weights=wa, use_original_tau=orig)
    ok, op = R.call("constructor", lambda: pp.Sum([NumpyBool(t.make()) if own and t.kind == "set" else t.make() for t in ts], niter=20000, tol=1e-12, **kw))
    ok2, od = R.call("constructor", lambda: pp.Sum([t.make() for t in ts], **{k: v for k, v in kw.items() if v is not None and v is not False}))
    fs = [t.make() for t in ts]
    prox = [(lambda v, tau, f=f: f.prox(v.reshape(shape), tau)) for f in fs]
    for j, x in enumerate(points(rng, c, shape, cx, npts)):
        tau = float(pick(rng, 0.25, 0.5, 1.0, 2.0, r3(rng, 0.1, 3)))
        ok, s = R.call("terms", lambda: split(prox, x, [tau * v for v in cf]))
        if ok and s is not None:
            use, tol = (op, 1e-4) if j % 3 or s[2] > 150 else (od, 2e-3)
            o2, y = R.call("prox", lambda: use.prox(x.copy(), tau))
            if o2:
                R.ev.append({"e": "sum", "o": 1, "x": vec(x), "tau": num(tau), "y": out(y, cx), "z": vec(s[0]), "p": [vec(v) for v in s[1]],
                             "eps": "1e-8", "tol": num(tol)})
                if np.shape(y) != shape:
                    R.boom("result of shape %s" % (np.shape(y),))
            if j % 3 == 1 and s[2] < 600:
                o3, q = R.call("proxdual", lambda: op.proxdual(x / tau, 1 / tau))
                if o2 and o3 and use is op:
                    R.ev.append({"e": "moreau", "o": 1, "x": vec(x), "tau": num(tau), "p": out(y, cx), "d": out(q, cx), "tol": "1e-7"})
        for z in (x, c.reshape(shape).astype(x.dtype)) if j % 2 == 0 else (x,):
            o4, v = R.call("evaluation", lambda: op(z.copy()))
            if o4:
                g, v = got(R, v)
                R.ev.append({"e": "sumval", "o": 1, "x": vec(z), "got": g, "v": v, "tight": "-1e-9", "loose": "2e-3", "tol": "1e-8"})


def cap_case(R, rng, npts):
    n = pick(rng, 1, 2, 3, 4, 4)
    cx = bool(rng.random() < 0.15)
    m = pick(rng, 1, 2, 2, 3, 3, 4)
    c = centre(rng, n, cx)
    ts = [sets(rng, n, cx, (n,), c) for _ in range(m)]
    par = bool(rng.random() < 0.5)
    R.name = "GenericIntersection%d.%s" % (m, "par" if par and m > 1 or m > 2 else "seq")
    R.ops.append(dict(k="Cap", fs=[t.desc for t in ts], c=["1"] * m))
    mk = lambda: [t.proj() for t in ts]  # noqa: E731
    ok, op = R.call("constructor", lambda: pp.GenericIntersectionProx(mk(), niter=20000, tol=1e-12, use_parallel=par))
    ok2, pr = R.call("constructor", lambda: pp.projection.GenericIntersectionProj(mk(), niter=20000, tol=1e-12, use_parallel=par))
    ok3, od = R.call("constructor", lambda: pp.GenericIntersectionProx(mk(), use_parallel=par))
    if not (ok and ok2 and ok3):
        return
    fs = mk()
    prox = [(lambda v, tau, f=f: f(v.copy())) for f in fs]
    for j, x in enumerate(points(rng, c, (n,), cx, npts)):
        ok, s = R.call("projections", lambda: split(prox, x, [1.0] * m))
        if ok and s is not None:
            for nm, use, tol in (("prox", op, 1e-4), ("proj", pr, 1e-4), ("default", od, 2e-3)):
                if nm == "default" and s[2] > 150:
                    continue
                tau = float(pick(rng, 0.25, 1.0, 3.0))
                o2, y = R.call(nm, lambda: use(x.copy()) if nm == "proj" else use.prox(x.copy(), tau))
                if not o2:
                    continue
                R.ev.append({"e": "sum", "o": 1, "x": vec(x), "tau": num(1.0), "y": out(y, cx), "z": vec(s[0]), "p": [vec(v) for v in s[1]],
                             "eps": "1e-8", "tol": num(tol)})
                if nm == "prox":
                    o3, b = R.call("membership", lambda: od(np.asarray(y).copy()))
                    if o3 and s[2] < 150:
                        R.ev.append({"e": "in", "o": 1, "x": vec(y), "v": bool(b), "tight": "1e-7", "loose": "1e-3"})
                    o3, q = R.call("proxdual", lambda: op.proxdual(x / tau, 1 / tau))
                    if o3:
                        R.ev.append({"e": "moreau", "o": 1, "x": vec(x), "tau": num(tau), "p": out(y, cx), "d": out(q, cx), "tol": "1e-7"})
        for z in (x, c.astype(x.dtype)):
            o4, b = R.call("membership", lambda: od(z.copy()))
            if o4:
                if not isinstance(b, (bool, np.bool_)):
                    R.boom("membership returned %r" % (b,))
                    continue
                R.ev.append({"e": "in", "o": 1, "x": vec(z), "v": bool(b), "tight": "1e-12", "loose": "1e-3"})


def C16(tier, seed):
    N = {"quick": 1, "thorough": 10}[tier]
    cs = []
    for kind, body, per in (("sum", sum_case, 170), ("cap", cap_case, 110)):
        for i in range(per * N):
            def fn(kind=kind, body=body, i=i):
                rng = seeds(seed, "C16", i + (100000 if kind == "cap" else 0))
                R = Rec()
                body(R, rng, 6)
                t = R.trace()
                t["name"] = R.name
                return t
            cs.append(("C16.%s.%d" % (kind, i), fn))
    return cs
