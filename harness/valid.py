"""C07: every request of the Refusals specification, made to the library."""
import json
import re
import numpy as np
import pylops
import pyproximal as pp
from pyproximal.optimization.pnp import _Denoise
from pyproximal.optimization import primal as pr
from pyproximal.utils.bilinear import LowRankFactorizedMatrix
import algebra
import ops as O
from core import Rec, num, run_tlc, vec
from opchecks import seeds

_cases = None


def cases():
    global _cases
    if _cases is None:
        r = run_tlc("Valid", "Valid.cfg", want_override=False)
        _cases = []
        for ln in r.prints:
            m = re.match(r'<<"CASE", "(.*)">>$', ln)
            if m:
                _cases.append(json.loads(m.group(1).replace('\\"', '"')))
        assert len(_cases) == r.states and r.states > 500
        _cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return _cases


def arg(t, rng):
    return {"array": lambda: O.rvec(rng, 3), "carray": lambda: O.rvec(rng, 3, True), "list": lambda: [1.0, 2.0, 3.0], "tuple": lambda: (1.0, 2.0, 3.0),
            "float": lambda: 1.5, "npfloat": lambda: np.float64(1.5), "int": lambda: 2, "str": lambda: "abc", "none": lambda: None}[t]()


def scalar(c):
    v = c["val"]
    return {"float": lambda: float(v), "npfloat64": lambda: np.float64(v), "npfloat32": lambda: np.float32(v), "zerod": lambda: np.array(float(v)),
            "int": lambda: int(v), "npint": lambda: np.int64(v)}[c["form"]]()


def request(R, c, rng):
    """make one request; what is accepted must also work"""
    w = c["what"]
    x3 = O.rvec(rng, 3)
    log = []
    cb = lambda *a: log.append(1)  # noqa: E731
    calls = lambda: len(log)  # noqa: E731
    use = lambda op, n=3: (op.prox(O.rvec(rng, n), 0.7), op)[1]  # noqa: E731
    f = pp.L1(sigma=0.5)
    if w in ("Log", "ETP", "Geman"):
        kw = bool(rng.integers(0, 2))
        s, g = float(c["sigma"]), float(c["gamma"])
        R.make(c, lambda: use(getattr(pp, w)(sigma=s, gamma=g) if kw else getattr(pp, w)(s, g)))
    elif w == "Log1":
        R.make(c, lambda: use(pp.Log1(0.5, delta=float(c["delta"]))))
    elif w == "SCAD":
        R.make(c, lambda: use(pp.SCAD(float(c["sigma"]), float(c["a"]))))
    elif w == "L2":
        A = O.rmat(rng, 4, 3)
        kw = dict(Op=None if c["op"] == "no" else pylops.MatrixMult(A) if c["op"] == "dense" else O.Implicit(A), b=O.rvec(rng, 3 if c["op"] == "no" else 4))
        R.make(c, lambda: use(pp.L2(solver=None if c["solver"] == "none" else c["solver"], **kw)))
    elif w == "Quadratic":
        A = O.rmat(rng, c["rows"], c["cols"])
        op = O.Implicit(A) if c["implicit"] else pylops.MatrixMult(A)
        R.make(c, lambda: pp.Quadratic(Op=op, b=O.rvec(rng, c["cols"])))
    elif w == "Simplex":
        d = {0: None, 1: (6,), 2: (2, 3), 3: (1, 2, 3), 4: (1, 2, 3, 1)}[c["ndims"]]
        R.make(c, lambda: use(pp.Simplex(6, 1.0, dims=d, engine=c["engine"]), 6))
    elif w == "VStack":
        kw = {}
        if c["nn"]:
            kw["nn"] = [2, 3]
        if c["restr"]:
            kw["restr"] = [pylops.Restriction(5, [0, 1]), pylops.Restriction(5, [2, 3, 4])]
        R.make(c, lambda: use(pp.VStack([pp.L1(), pp.L2()], **kw), 5))
    elif w in ("VStackSize", "VStackCount"):
        by = c.get("by", "restr")
        k = c.get("ops", 2)
        fs = [pp.L2(sigma=float(i + 1)) for i in range(k)]
        if by == "nn":
            v = pp.VStack(fs, nn=[2, 3])
            n = 5
        else:
            j = c.get("restr", 2)
            n = 2 * j
            v = pp.VStack(fs, restr=[pylops.Restriction(n, [2 * i, 2 * i + 1]) for i in range(j)])
        x = O.rvec(rng, n + c.get("off", 0))
        R.make(c, {"call": lambda: v(x), "prox": lambda: v.prox(x, 1.0), "proxdual": lambda: v.proxdual(x, 1.0), "grad": lambda: v.grad(x)}[c["map"]])
    elif w == "Sum":
        R.make(c, lambda: use(pp.Sum([pp.L1(0.5 + i) for i in range(c["n"])], use_parallel=c["parallel"])))
    elif w in ("InterProx", "InterProj"):
        ps = [pp.projection.BoxProj(-1.0 - i, 1.0) for i in range(c["n"])]
        if w == "InterProx":
            R.make(c, lambda: use(pp.GenericIntersectionProx(ps, use_parallel=c["parallel"])))
        else:
            R.make(c, lambda: pp.projection.GenericIntersectionProj(ps, use_parallel=c["parallel"])(x3))
    elif w == "affine_addition":
        R.make(c, lambda: use(f.affine_addition(arg(c["arg"], rng))) if c["arg"] != "carray" else f.affine_addition(arg("carray", rng)))
    elif w == "plus":
        R.make(c, lambda: f + arg(c["arg"], rng))
    elif w == "postcomposition":
        R.make(c, lambda: use(f.postcomposition(arg(c["arg"], rng))))
    elif w == "times":
        R.make(c, lambda: use(arg(c["arg"], rng) * f))
    elif w == "precomposition":
        R.make(c, lambda: f.precomposition(arg(c["a"], rng), arg(c["b"], rng)))
    elif w in ("PG", "GPG"):
        acc = None if c["acc"] == "none" else c["acc"]
        kw = dict(niter=3, acceleration=acc, callback=cb)
        if w == "PG":
            kw.update(O.pick(rng, dict(tau=0.5), dict(tau=None), dict(tau=0.5, backtracking=True)))
            R.make(c, lambda: pr.ProximalGradient(pp.L2(b=x3.copy()), f, x0=np.zeros(3), **kw), calls)
        else:
            R.make(c, lambda: pr.GeneralizedProximalGradient([pp.L2(b=x3.copy())], [f, pp.L1(0.2)], x0=np.zeros(3), tau=0.5, **kw), calls)
    elif w == "GPGWeights":
        wt = rng.uniform(0.2, 1.0, c["len"])
        if c["len"]:
            wt = wt / wt.sum() * float(c["sum"])
        R.make(c, lambda: pr.GeneralizedProximalGradient([pp.L2(b=x3.copy())], [pp.L1(0.2 + i) for i in range(c["n"])], x0=np.zeros(3), tau=0.5, niter=3,
                                                         weights=O.pick(rng, wt, list(wt)), callback=cb), calls)
    elif w == "GPGDefault":
        R.make(c, lambda: pr.GeneralizedProximalGradient([pp.L2(b=x3.copy())], [pp.L1(0.2 + i) for i in range(c["n"])], x0=np.zeros(3), tau=0.5, niter=3), calls)
    elif w in ("HQS", "ADMM"):
        x0, z0 = (O.rvec(rng, 3) if c["x0"] else None), (O.rvec(rng, 3) if c["z0"] else None)
        R.make(c, lambda: getattr(pr, w)(pp.L2(b=x3.copy()), f, x0=x0, z0=z0, tau=0.5, niter=3, gfirst=c["first"], callback=cb), calls)
    elif w in ("ADMML2", "LinearizedADMM"):
        A = O.rmat(rng, 4, 3)
        x0, z0 = (O.rvec(rng, 3) if c["x0"] else None), (O.rvec(rng, 4) if c["z0"] else None)
        if w == "ADMML2":
            M, b = O.rmat(rng, 5, 3), O.rvec(rng, 5)
            R.make(c, lambda: pr.ADMML2(f, pylops.MatrixMult(M), b, pylops.MatrixMult(A), x0=x0, z0=z0, tau=0.5, niter=3, gfirst=c["first"], callback=cb), calls)
        else:
            R.make(c, lambda: pr.LinearizedADMM(pp.L2(b=x3.copy()), f, pylops.MatrixMult(A), x0=x0, z0=z0, tau=0.5, mu=0.01, niter=3, callback=cb), calls)
    elif w in ("lx", "ly", "LowRankMatvec"):
        n, m, r = (c["n"], c["m"], 2) if "n" in c else (2, 3, 1)
        X, Y = O.rmat(rng, n, r), O.rmat(rng, r, m)
        op = pylops.MatrixMult(O.rmat(rng, 4, n * m)) if c.get("op") else None
        H = LowRankFactorizedMatrix(X, Y, O.rvec(rng, 4 if op is not None else n * m), Op=op)
        if w == "LowRankMatvec":
            R.make(c, lambda: H.matvec(O.pick(rng, X, Y).ravel()))
        else:
            R.make(c, lambda: getattr(H, w)((X if w == "lx" else Y).ravel()))
    elif w == "Abstract":
        class Mine(pp.ProxOperator):
            pass
        R.make(c, lambda: Mine(None, False)(x3))
    else:
        raise AssertionError(w)


def steps(R, op, x, forms, ser=(True, True), o=1):
    for c in forms:
        if c["form"] == "array":
            t = np.ones(x.size)
            t[{"all": slice(None), "first": 0, "last": -1}[c["pos"]]] = float(c["val"])
            t = t.reshape(x.shape)
        else:
            t = scalar(c)
        m = getattr(op, c["map"])
        R.step((lambda: m(x.copy(), t)) if c["how"] == "pos" else (lambda: m(x.copy(), tau=t)), t, o, ser[0] if c["map"] == "prox" else ser[1])


def leaf(R, fam, rng, forms):
    F_ = fam(rng)
    R.ops, R.name = [F_.desc], F_.name
    ok, op = R.call("constructor", F_.make)
    if not ok:
        return
    ser = (True, True)
    sched = isinstance(F_, O.Sched)
    if sched and F_.desc["k"] == "Sched" and F_.desc["f"]["k"] == "L1" and F_.desc["f"]["w"] == 1 and all(v == "0" for v in F_.desc["f"]["g"]):
        ser = (True, False)
        forms = [c for c in forms if c["map"] == "prox" or float(c["val"]) <= 0]
    forms = [forms[i] for i in rng.permutation(len(forms))]
    k = max(1, len(forms) // 4)
    for lo in range(0, len(forms), k):
        steps(R, op, F_.point(rng, 8), forms[lo:lo + k], ser)
        x, tau = F_.point(rng), F_.tau(rng)
        if sched and not F_.exact:
            R.call("prox", lambda: op.prox(x.copy(), tau))
            break
        R.prox(F_, op, x, tau)


def extra(rng):
    """operators outside the families"""
    class Quartic(pp.Nonlinear):
        def fun(self, x):
            return float((x ** 2).sum() / 2)

        def grad(self, x):
            return x

        def optimize(self):
            return self.y / (1 + self.tau)

    n = 4
    Q = algebra.orthmat(rng, n, False)
    return {"Nonlinear": lambda: Quartic(np.zeros(n)),
            "Orthogonal": lambda: pp.Orthogonal(pp.L1(0.5), pylops.MatrixMult(Q)),
            "VStack": lambda: pp.VStack([pp.L1(0.5), pp.Box(-1, 1)], nn=[1, 3]),
            "VStack.restr": lambda: pp.VStack([pp.L1(0.5), pp.L2()], restr=[pylops.Restriction(n, [0, 2]), pylops.Restriction(n, [1, 3])]),
            "Sum1": lambda: pp.Sum([pp.L1()]), "Sum2": lambda: pp.Sum([pp.L1(), pp.L2()]), "Sum3": lambda: pp.Sum([pp.L1(), pp.L2(), pp.Box(-1, 1)]),
            "SumPar": lambda: pp.Sum([pp.L1(), pp.L2()], use_parallel=True),
            "Inter1": lambda: pp.GenericIntersectionProx([pp.projection.BoxProj(-1, 1)]),
            "Inter2": lambda: pp.GenericIntersectionProx([pp.projection.BoxProj(-1, 1), pp.projection.EuclideanBallProj(0.0, 1.0)]),
            "Inter3": lambda: pp.GenericIntersectionProx([pp.projection.BoxProj(-1, 1)] * 3, use_parallel=True),
            "Denoise": lambda: _Denoise(lambda x, t: x / (1 + t), (2, 2)),
            "Chain": lambda: pp.L1(0.5).chain(pp.Box(-1, 1)),
            "times": lambda: pp.L2() * pp.L1(0.5),
            "Adjoint": lambda: pp.L1(0.5).H, "Adjoint2": lambda: pp.Huber(0.5).H.H,
            "Shifted": lambda: pp.L1() + np.ones(n), "Scaled": lambda: 2 * pp.L1(), "Pre": lambda: pp.L1().precomposition(2.0, 1.0)}


EXTRA = list(extra(np.random.default_rng(0)))


def extracase(R, nm, rng, forms):
    ok, op = R.call("constructor", extra(rng)[nm])
    R.name, R.ops = nm, [{"k": "Zero"}]
    if ok:
        x = rng.normal(size=4)
        with np.errstate(all="ignore"):
            a = vec(op.prox(x.copy(), 0.7))
            steps(R, op, x, forms, (False, False))
            R.keep("unchanged by refused calls", a, vec(op.prox(x.copy(), 0.7)))


def composite(R, shape, rng, forms):
    R.name = "-".join(shape)
    ok, tm = R.call("building", lambda: algebra.Term(R, shape, rng))
    if not ok:
        return
    R.ops = [tm.t.d]
    forms = [forms[i] for i in rng.permutation(len(forms))[:24]]
    steps(R, tm.t.op, tm.pt(tm.t.n, 2), forms, (False, False))


def C07(tier, seed):
    k = {"quick": 1, "thorough": 6}[tier]
    reqs = [c for c in cases() if c["what"] != "step"]
    forms = [c for c in cases() if c["what"] == "step"]
    todo = []
    for c in reqs:
        for i in range(k):
            todo.append(("request." + c["what"], lambda R, rng, c=c: (setattr(R, "name", c["what"]), request(R, c, rng))))
    for fam in O.ALLOPS + O.SCHEDS:
        for i in range(2 * k):
            todo.append(("step." + fam.__name__, lambda R, rng, fam=fam: leaf(R, fam, rng, forms)))
    for nm in EXTRA:
        for i in range(k):
            todo.append(("step." + nm, lambda R, rng, nm=nm: extracase(R, nm, rng, forms)))
    S = algebra.shapes()
    for s in [s for s in S if len(s) <= (3 if tier == "quick" else 4)]:
        todo.append(("step.term", lambda R, rng, s=s: composite(R, s, rng, forms)))
    cs = []
    for i, (nm, body) in enumerate(todo):
        def fn(i=i, body=body):
            R = Rec()
            R.name = "?"
            body(R, seeds(seed, "C07", i))
            t = R.trace()
            t["name"] = R.name
            return t
        cs.append(("C07.%s.%d" % (nm, i), fn))
    return cs
