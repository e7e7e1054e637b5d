"""Histories on single operators: C01 (convex), C02 (sets), C03 (non-convex), C04 (Moreau)."""
import numpy as np
import ops as O
from core import Rec, num, out, vec

N = {"quick": 2, "thorough": 12}


def seeds(seed, prop, i):
    return np.random.default_rng([seed, int(prop[1:]), i])


def fam_cases(prop, tier, seed, fams, per, npts, body):
    cs = []
    for k, fam in enumerate(fams):
        for i in range(per * N[tier]):
            def fn(k=k, i=i, fam=fam):
                rng = seeds(seed, prop, 1000 * (k + 1) + i)
                F_ = fam(rng)
                R = Rec([F_.desc])
                R.name = F_.name
                body(R, F_, rng, npts)
                t = R.trace()
                t["name"] = F_.name
                return t
            cs.append(("%s.%s.%d" % (prop, fam.__name__, i), fn))
    return cs


def body_prox_val(R, F_, rng, npts):
    ok, op = R.call("constructor", F_.make)
    if not ok:
        return
    for j in range(npts):
        x = F_.point(rng, j)
        R.prox(F_, op, x, F_.tau(rng))
        if F_.val:
            R.val(F_, op, x)
        if j == 3 and F_.dual and F_.kind == "convex":
            R.dual(F_, op, x, F_.tau(rng))


def body_set(R, F_, rng, npts):
    op = pr = None
    if F_.make is not None:
        ok, op = R.call("constructor", F_.make)
        if not ok:
            return
    if F_.proj is not None:
        ok, pr = R.call("constructor", F_.proj)
        if not ok:
            return
    for j in range(npts):
        x = F_.point(rng, j)
        y = None
        if op is not None:
            y = R.prox(F_, op, x, F_.tau(rng))
            R.inn(F_, op, x)
            if y is not None and np.shape(np.asarray(y)) == np.shape(x):
                # the projection is a fixed point and a member (to the stopping accuracy)
                z = np.asarray(y)
                R.prox(F_, op, z, F_.tau(rng))
                R.inn(F_, op, z, tight=max(10 * F_.tol, 1e-12) if F_.tol > 1e-10 and F_.name.split(".")[0] not in TIGHTSETS else F_.tight)
        if pr is not None:
            ok, y = R.call("projection", lambda: pr(R.d(x, F_)))
            if ok:
                R.ev.append({"e": "prox", "o": 1, "x": vec(x), "tau": "1.0", "y": out(y, F_.cx), "tol": num(F_.tol)})
                if F_.cert is not None:
                    R.ev[-1]["cert"] = F_.cert(x, 1.0)


def f32_cases(prop, tier, seed, fams, per, npts, body):
    return fam_cases(prop, tier, seed + 500, [O.f32(f) for f in fams if f not in (O.TV_, O.Affine_, O.Inter_, O.SVP_, O.QERL2_)], per, npts, body)


# membership is evaluated with a tolerance finer than the projection's accuracy
TIGHTSETS = {"EuclideanBall", "HalfSpace", "Box", "AffineSet", "Simplex", "Intersection", "L1Ball", "NuclearBall", "Hankel"}


def body_nc(R, F_, rng, npts):
    ok, op = R.call("constructor", F_.make)
    if not ok:
        return
    for j in range(npts):
        x = F_.point(rng, j)
        R.prox(F_, op, x, F_.tau(rng))
        R.val(F_, op, x)


def moreau_ok(F_):
    return F_.dual and F_.make is not None


def body_moreau(R, F_, rng, npts):
    ok, op = R.call("constructor", F_.make)
    if not ok:
        return
    ok, adj = R.call("adjoint view", lambda: op.H)
    ok, dd = R.call("double adjoint view", lambda: op.H.H)
    for j in range(npts):
        x, tau = F_.point(rng, j), F_.tau(rng)
        if F_.maxtau is not None and not (1 / F_.maxtau < tau < F_.maxtau):
            tau = 1.0
        p = R.prox(F_, op, x, tau)
        d = R.dual(F_, op, x / tau, 1.0 / tau)
        if p is not None and d is not None:
            R.moreau(F_, x, tau, p, d)
        if adj is not None and j % 2 == 0:
            okc, a = R.call("adjoint prox", lambda: adj.prox(x.copy(), tau))
            okd, b = R.call("proxdual", lambda: op.proxdual(x.copy(), tau))
            if okc and okd:
                R.same("adjoint view prox", out(a, F_.cx), out(b, F_.cx), F_.tol)
            okc, a = R.call("adjoint proxdual", lambda: adj.proxdual(x.copy(), tau))
            if okc and p is not None:
                R.same("adjoint view proxdual", out(a, F_.cx), out(p, F_.cx), F_.tol)
            okc, a = R.call("double adjoint prox", lambda: dd.prox(x.copy(), tau))
            if okc and p is not None:
                R.same("double adjoint prox", out(a, F_.cx), out(p, F_.cx), F_.tol)
    if not F_.grad and F_.name[:2] != "TV":
        # envelope gradient
        x = F_.point(rng)
        sm = op.sigmame
        y = R.prox(F_, op, x, sm)
        ok, g = R.call("envelope gradient", lambda: op.grad(x.copy()))
        if ok and y is not None:
            R.same("envelope gradient", out(g, F_.cx), out((x - np.asarray(y).reshape(x.shape)) / sm, F_.cx), F_.tol)
        op.sigmame = 0.5
        y = R.prox(F_, op, x, 0.5)
        ok, g = R.call("envelope gradient", lambda: op.grad(x.copy()))
        if ok and y is not None:
            R.same("envelope gradient 0.5", out(g, F_.cx), out((x - np.asarray(y).reshape(x.shape)) / 0.5, F_.cx), F_.tol)


def C01(tier, seed):
    return fam_cases("C01", tier, seed, O.CONVEX, 18, 9, body_prox_val) + f32_cases("C01", tier, seed, O.CONVEX, 6, 9, body_prox_val)


def C02(tier, seed):
    return fam_cases("C02", tier, seed, O.SETS, 16, 9, body_set) + f32_cases("C02", tier, seed, O.SETS, 6, 9, body_set)


def C03(tier, seed):
    return fam_cases("C03", tier, seed, O.NONCONVEX, 18, 12, body_nc) + f32_cases("C03", tier, seed, O.NONCONVEX, 6, 9, body_nc)


def C04(tier, seed):
    return fam_cases("C04", tier, seed, O.ALLOPS + [O.Custom_] * 6, 7, 6, body_moreau)
