"""C06: gradients are derivatives of the evaluated functions."""
import numpy as np
import pylops
import scipy.optimize as so
import pyproximal as pp
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
import algebra
import ops as O
from core import Rec, mat, num, out, vec
from opchecks import seeds

SMOOTH = [O.L2_, O.L2_, O.Conv_, O.Euclid_, O.Quad_]


def direction(rng, n, cx, dt):
    u = rng.normal(size=n)
    if rng.random() < 0.4:
        u = np.zeros(n)
        u[rng.integers(0, n)] = 1.0
    if cx:
        u = u + 1j * rng.normal(size=n) if rng.random() < 0.6 else u * O.pick(rng, 1j, 1.0)
    return (u / np.linalg.norm(u)).astype(dt)


def derivative(R, f, g, x, rng, cx, o=1, tol=1e-5):
    """central differences of the evaluated function along a direction, against the returned gradient"""
    u = direction(rng, x.size, cx, x.dtype).reshape(x.shape)
    h = 1e-5 * max(1.0, float(np.abs(x).max()))
    ok, vals = R.call("evaluation", lambda: [float(f(x + t * u)) for t in (h, -h, 2 * h, -2 * h, 0.0)])
    if ok and g is not None:
        d, d2 = (vals[0] - vals[1]) / (2 * h), (vals[2] - vals[3]) / (4 * h)
        if abs(d - d2) < 0.1 * tol * (1 + abs(d)):        # (next to a kink differences say nothing)
            R.deriv(out(g, cx), vec(u), d, tol * (1.0 + 1e-6 * abs(vals[4])), o)


def leafcase(R, F_, rng):
    R.ops, R.name = [F_.desc], F_.name
    ok, op = R.call("constructor", F_.make)
    if not ok:
        return
    R.keep("offers a gradient", str(bool(op.hasgrad)), "True")
    for j in range(1, 8):
        x = F_.point(rng, j)
        if np.linalg.norm(x) < 1e-6 and F_.desc["k"] == "Euclid":
            continue
        g = R.grad(F_, op, x, tol=1e-5 if F_.dtype == "float32" else 1e-8)
        if F_.dtype != "float32" and F_.desc.get("qgrad", True):
            derivative(R, op, g, x, rng, F_.cx)
        if j in (3, 5):
            R.prox(F_, op, x, F_.tau(rng))       # the gradient must not depend on what was called before
            R.val(F_, op, x)


SM = {"loss": lambda r, cx: euc(r, cx) if r.random() < 0.3 else algebra.loss(r, cx)}


def euc(rng, cx):
    while True:
        f = O.Euclid_(rng)
        if f.cx == cx:
            return f


def compcase(R, shape, rng):
    R.name = "-".join(shape)
    old = algebra.CLS
    algebra.CLS = dict(old, loss=SM["loss"])
    try:
        ok, tm = R.call("building", lambda: algebra.Term(R, shape, rng))
    finally:
        algebra.CLS = old
    if not ok:
        return
    t = tm.t
    R.ops = [t.d]
    F_ = O.F(R.name, t.d, None, (t.n,), cx=tm.cx, dtype=tm.dt, tol=1e-7, vtol=1e-8)
    for j in (1, 2, 3, 4, 5):
        x = tm.pt(t.n, j) + 0.0173           # away from the kink of the norm
        g = R.grad(F_, t.op, x)
        derivative(R, t.op, g, x, rng, tm.cx, tol=3e-5)


def bil(rng, cx):
    n, r, m = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
    w = 2 if cx else 1
    hasop = rng.random() < 0.5
    p = int(rng.integers(1, 4)) if hasop else n * m
    A = O.rmat(rng, p, n * m, cx) if hasop else np.eye(n * m, dtype=complex if cx else float)
    X, Y, d = O.rvec(rng, n * r, cx).reshape(n, r), O.rvec(rng, r * m, cx).reshape(r, m), O.rvec(rng, p, cx)
    dt = "complex128" if cx else "float64"
    D = d if hasop or rng.random() < 0.5 else d
    op = LowRankFactorizedMatrix(X.copy(), Y.copy(), D.copy(), Op=O.pick(rng, lambda: pylops.MatrixMult(A, dtype=dt), lambda: O.Implicit(A))() if hasop else None)
    return op, dict(k="Bil", w=w, n=n, r=r, m=m, d=vec(d), Op=mat(A)), X, Y, cx, hasop


def bilcase(R, rng):
    cx = rng.random() < 0.4
    H, D, X, Y, cx, hasop = bil(rng, cx)
    R.name = "LowRankFactorizedMatrix" + (".cx" if cx else "") + (".op" if hasop else "")
    R.ops = [D]
    n, r, m = D["n"], D["r"], D["m"]
    F_ = O.F(R.name, D, None, (n * r + r * m,), cx=cx, dtype="complex128" if cx else "float64", tol=1e-9, vtol=1e-9)

    def rec(kind, what, x, fn, desc):
        R.ops.append(desc)
        o = len(R.ops)
        ok, y = R.call(what, fn)
        if ok:
            if kind == "grad":
                R.ev.append({"e": "grad", "o": o, "x": vec(x), "y": out(y, cx), "tol": "1e-9", "ser": False})
            else:
                R.ev.append({"e": "val", "o": o, "x": vec(x), "v": num(y), "tol": "1e-9"})
        return (y if ok else None), o
    xs, ys = X.ravel(), Y.ravel()          # the stored factors
    for j in range(6):
        x, y = O.rvec(rng, n * r, cx), O.rvec(rng, r * m, cx)
        z = np.r_[x, y]
        if rng.random() < 0.3:
            xa, ya = x.reshape(n, r), y.reshape(r, m)
        else:
            xa, ya = x, y
        # values: both calling conventions, any stored factors
        rec("val", "value", z, lambda: H(z.copy()), D)
        rec("val", "value (x, y)", z, lambda: H(xa.copy(), ya.copy()), D)
        # partial gradients at (x; stored y) and (y; stored x)
        gx, o = rec("grad", "gradx", x, lambda: H.gradx(xa.copy()), dict(k="BilX", f=D, other=vec(ys)))
        derivative(R, lambda u: H(u, ys.copy()), gx, x, rng, cx, o=o)
        gy, o = rec("grad", "grady", y, lambda: H.grady(ya.copy()), dict(k="BilY", f=D, other=vec(xs)))
        derivative(R, lambda u: H(xs.copy(), u), gy, y, rng, cx, o=o)
        # joint gradient at the stored factors
        t = int(rng.integers(0, 4))
        if t == 0:
            H.updatex(x.copy())
            xs = x
        elif t == 1:
            H.updatey(y.copy())
            ys = y
        elif t == 2:
            H.updatexy(z.copy())
            xs, ys = x, y
        zz = np.r_[xs, ys]
        g, o = rec("grad", "grad", zz, lambda: H.grad(zz.copy()), D)
        derivative(R, lambda u: H(u), g, zz, rng, cx, o=o)
        R.same("stored factors", out(np.asarray(H.x).ravel(), cx), out(xs, cx), 0.0)
        R.same("stored factors", out(np.asarray(H.y).ravel(), cx), out(ys, cx), 0.0)
        # the forward maps
        P = (xs.reshape(n, r) @ y.reshape(r, m)).ravel()
        Q = (x.reshape(n, r) @ ys.reshape(r, m)).ravel()
        A = None if not hasop else H.Op
        fw = (lambda v: v) if A is None else (lambda v: A.matvec(v))
        for nm, fn, w in (("_matvecy", lambda: H._matvecy(y.copy()), P), ("_matvecx", lambda: H._matvecx(x.copy()), Q)):
            ok, v = R.call(nm, fn)
            if ok:
                R.same(nm, out(v, cx), out(fw(w), cx), 1e-10)
        if n != m:
            for fn, w in ((lambda: H.matvec(y.copy()), P), (lambda: H.matvec(x.copy()), Q)):
                ok, v = R.call("matvec", fn)
                if ok and len(x) != len(y):
                    R.same("matvec", out(v, cx), out(fw(w), cx), 1e-10)
        if not hasop:
            # Lipschitz bounds, at the direction of largest curvature and at a random one
            okx, L1 = R.call("lx", lambda: H.lx(xs.copy()))
            oky, L2 = R.call("ly", lambda: H.ly(ys.copy()))
            Xs, Ys = xs.reshape(n, r), ys.reshape(r, m)
            U = np.linalg.svd(Xs)[2][0].conj()
            V = np.linalg.svd(Ys)[0][:, 0]
            for s in (0, 1):
                dy = np.outer(U, O.rvec(rng, m, cx)).ravel() if s else O.rvec(rng, r * m, cx)
                dx = np.outer(O.rvec(rng, n, cx), V.conj()).ravel() if s else O.rvec(rng, n * r, cx)
                if okx:
                    R.leq("Lipschitz bound lx", np.linalg.norm(H.grady(y + dy) - H.grady(y)), L1 * np.linalg.norm(dy), 1e-9)
                if oky:
                    R.leq("Lipschitz bound ly", np.linalg.norm(H.gradx(x + dx) - H.gradx(x)), L2 * np.linalg.norm(dx), 1e-9)


def mknonlinear(c4, c2, c1, R, log, opt, own):
    class N(pp.Nonlinear):
        def fun(self, x):
            return float((c4 * x ** 4 / 4 + c2 * x ** 2 / 2 + c1 * x).sum())

        def grad(self, x):
            return c4 * x ** 3 + c2 * x + c1

        def optimize(self):
            log.append(("start", np.array(self.x0, copy=True)))

            def f(z):
                v = self._funprox(z, self.tau)
                log.append(("f", z.copy(), v))
                return v

            def g(z):
                v = self._gradprox(z, self.tau)
                log.append(("g", z.copy(), v.copy()))
                return v

            def fg(z):
                v, w = self._fungradprox(z, self.tau)
                log.append(("f", z.copy(), v))
                log.append(("g", z.copy(), w.copy()))
                return v, w
            kw = dict(method="L-BFGS-B", options=dict(maxiter=200, ftol=1e-15, gtol=1e-10))
            if opt == "fg":
                s = so.minimize(fg, self.x0, jac=True, **kw)
            else:
                s = so.minimize(f, self.x0, jac=g, **kw)
            return s.x

    class M(N):
        def fungrad(self, x):
            return self.fun(x), self.grad(x)
    return M if own else N


def nlcase(R, rng):
    n = int(rng.integers(1, 4))
    c4, c2, c1 = np.round(rng.uniform(0, 2, n), 2), np.round(rng.uniform(0.1, 2, n), 2), O.rvec(rng, n)
    opt, own, warm = O.pick(rng, "fg", "f"), bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    log = []
    D = dict(k="Poly", c4=vec(c4), c2=vec(c2), c1=vec(c1))
    R.name = "Nonlinear.%s%s" % (opt, ".warm" if warm else "")
    R.ops = [D]
    x0 = O.rvec(rng, n)
    ok, op = R.call("constructor", lambda: mknonlinear(c4, c2, c1, R, log, opt, own)(x0.copy(), niter=50, warm=warm))
    if not ok:
        return
    F_ = O.F(R.name, D, None, (n,), tol=1e-10, vtol=1e-10)
    start = x0
    for j in range(4):
        x, tau = O.rvec(rng, n) * 2, float(O.pick(rng, 0.25, 0.5, 1.0, 3.0))
        R.val(F_, op, x)
        g = R.grad(F_, op, x)
        derivative(R, op, g, x, rng, False)
        del log[:]
        y = R.prox(F_, op, x, tau, tol=2e-5)
        R.ops.append(dict(k="Near", f=D, y=vec(x), tau=num(tau)))
        o = len(R.ops)
        for e in log[:13] + log[13:][-4:]:
            if e[0] == "start":
                R.same("start of the optimiser", vec(e[1]), vec(start), 0.0)
            elif e[0] == "f":
                R.ev.append({"e": "val", "o": o, "x": vec(e[1]), "v": num(e[2]), "tol": "1e-10"})
            else:
                R.ev.append({"e": "grad", "o": o, "x": vec(e[1]), "y": vec(e[2]), "tol": "1e-10", "ser": False})
        if y is None:
            return
        if warm:
            start = np.array(y, copy=True)
        if j == 2:
            R.dual(F_, op, x, tau, tol=2e-5)
            if warm:
                start = np.array(op.x0, copy=True)


def C06(tier, seed):
    k = {"quick": 1, "thorough": 8}[tier]
    todo = []
    for fam in SMOOTH:
        for i in range(24 * k):
            todo.append(("leaf", lambda R, rng, fam=fam: leafcase(R, fam(rng), rng)))
    sm = [s for s in algebra.shapes() if s[0] == "loss" and len(s) > 1 and set(s[1:]) <= {"add", "sub", "post", "pre", "vstack", "restr"}]
    for s in sm * k:
        todo.append(("comp", lambda R, rng, s=s: compcase(R, s, rng)))
    for i in range(60 * k):
        todo.append(("bil", bilcase))
    for i in range(30 * k):
        todo.append(("nl", nlcase))
    cs = []
    for i, (nm, body) in enumerate(todo):
        def fn(i=i, body=body):
            R = Rec()
            R.name = "?"
            body(R, seeds(seed, "C06", i))
            t = R.trace()
            t["name"] = R.name
            return t
        cs.append(("C06.%s.%d" % (nm, i), fn))
    return cs
