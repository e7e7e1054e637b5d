"""C09: the caller's arrays before and after every call, and after writing on the results."""
import contextlib
import hashlib
import inspect
import numpy as np
import pylops
import pyproximal as pp
import algebra
import ops as O
import solvers as S
from core import Rec, num, out, vec
from opchecks import seeds


def dig(a):
    return hashlib.sha1(("%s%s" % (a.dtype, a.shape)).encode() + np.ascontiguousarray(a).tobytes()).hexdigest()[:16]


def arrays(o, depth=0):
    """the arrays inside an argument"""
    if isinstance(o, np.ndarray):
        if o.dtype != object and o.size:
            yield o
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from arrays(v, depth)
    elif isinstance(o, dict):
        for v in o.values():
            yield from arrays(v, depth)
    elif isinstance(o, pylops.LinearOperator) and depth < 2:
        for k in ("A", "M", "iava"):
            if isinstance(getattr(o, k, None), np.ndarray):
                yield getattr(o, k)


class Caller:
    """the caller's memory and the history seen from it"""

    def __init__(self):
        self.arr, self.names, self.ev, self.R, self.k = [], [], [], Rec(), 0
        self.R.ev = self.ev

    def hold(self, what, *objs):
        new = []
        for o in objs:
            for a in arrays(o):
                if not any(a is b for b in self.arr):
                    new.append(a)
        for a in new:
            if any(np.shares_memory(a, b) for b in self.arr):      # a view of something already held
                continue
            self.arr.append(a)
            self.names.append("%s %s" % (what, a.shape))
        self.flush()

    def flush(self):
        k = sum(len(e["mem"]) for e in self.ev if e["e"] == "hold")
        if k < len(self.arr):
            self.ev.append({"e": "hold", "mem": [dig(a) for a in self.arr[k:]]})

    def look(self):
        return [dig(a) for a in self.arr]

    def lib(self, what):
        self.flush()
        self.ev.append({"e": "lib", "what": what, "names": list(self.names), "mem": self.look()})

    def call(self, what, fn):
        ok, r = self.R.call(what, fn)
        self.lib(what)
        return ok, r

    def scribble(self, what, r, free=()):
        """write on a result; False when there is nothing to write on"""
        hit = False
        fr = [i + 1 for i, a in enumerate(self.arr) if any(a is b for b in free)]
        for a in results(r):
            if a.size and a.flags.writeable:
                self.k += 1
                a[...] = True if a.dtype.kind == "b" else np.nan if a.dtype.kind in "fc" and self.k % 2 else 12345
                hit = True
        self.ev.append({"e": "scribble", "what": what, "names": list(self.names), "mem": self.look(), "free": fr})
        return hit

    @contextlib.contextmanager
    def watching(self):
        """constructors of the library hand their array arguments to the caller's memory"""
        saved = []

        def wrap(mod, nm):
            c = getattr(mod, nm)

            def f(*a, **k):
                self.hold("argument of " + nm, a, k)
                r = c(*a, **k)
                return r
            saved.append((mod, nm, c))
            setattr(mod, nm, f)
        for mod in (pp, pp.projection):
            for nm in dir(mod):
                if isinstance(getattr(mod, nm), type) and getattr(mod, nm).__module__.startswith("pyproximal") and nm != "ProxOperator":
                    wrap(mod, nm)
        wrap(S, "LowRankFactorizedMatrix")
        try:
            yield
        finally:
            for mod, nm, c in saved:
                setattr(mod, nm, c)

    def trace(self, name):
        return {"name": name, "c": {"alg": "none", "acc_tol": "0"}, "ev": self.ev, "ops": [{"k": "Zero"}]}


def results(r):
    if isinstance(r, np.ndarray):
        yield r
    elif isinstance(r, (tuple, list)):
        for v in r:
            yield from results(v)


def flat(r):
    f = []
    for a in (results(r) if not np.isscalar(r) else [np.asarray(r)]):
        f += vec(a)
    return f


def use(C, what, fn, mk, tol, again=True):
    """fn(x) twice on the caller's array x, writing on the first result in between"""
    x = mk()
    C.hold("point", x)
    ok, r = C.call(what, lambda: fn(x))
    if not ok:
        return
    first = flat(r)
    rr = list(results(r))
    # a map that returned its input: writing on the result is writing on the point
    free = [x] if any(np.shares_memory(a, x) for a in rr) else []
    if free and not np.array_equal(np.asarray(rr[0]).ravel(), np.asarray(x).ravel(), equal_nan=True):
        free = []
    C.scribble(what, r, free)
    if free:
        x = mk()
        C.hold("point", x)
    if again:
        ok, r = C.call(what, lambda: fn(x))
        if ok:
            C.ev.append({"e": "again", "what": what, "a": first, "b": flat(r), "tol": num(max(tol, 1e-12) * 10)})


def op_case(F_, rng):
    C = Caller()
    op = pr = None
    with C.watching():
        if F_.make is not None:
            ok, op = C.call("constructor", F_.make)
            if not ok:
                return C
        if F_.proj is not None:
            ok, pr = C.call("constructor", F_.proj)
    again = not isinstance(F_, O.Sched)
    cert, F_.cert = F_.cert, None
    seq = ["prox", "prox", "proxdual", "value", "grad", "adjoint", "array", "prox"]
    for j, what in enumerate(seq):
        x0, tau = F_.point(rng, int(rng.integers(0, 9))), F_.tau(rng)
        mk = lambda: x0.copy()  # noqa: E731
        if op is not None:
            if what == "prox":
                use(C, "prox", lambda x: op.prox(x, tau), mk, F_.tol, again)
            elif what == "proxdual":
                use(C, "proxdual", lambda x: op.proxdual(x, 1.0 / tau), mk, F_.tol, again)
            elif what == "value":
                use(C, "evaluation", lambda x: float(op(x)), mk, 1e-9, again)
            elif what == "grad":
                use(C, "grad", lambda x: op.grad(x), mk, F_.tol, again)
            elif what == "adjoint":
                use(C, "adjoint prox", lambda x: op.H.prox(x, 1.0 / tau), mk, F_.tol, again)
            elif F_.kind != "set" and F_.n > 1:
                x, t = mk(), np.full(F_.shape, tau)
                C.hold("point", x)
                C.hold("step", t)
                for nm, fn in (("prox with an array step", lambda: op.prox(x, t)), ("proxdual with an array step", lambda: op.proxdual(x, t))):
                    try:
                        fn()
                    except Exception:  # noqa: BLE001   (steps of this form need not be supported)
                        pass
                    C.lib(nm)
        if pr is not None and what in ("prox", "grad"):
            use(C, "projection", lambda x: pr(x), mk, F_.tol, again)
    F_.cert = cert
    return C


NONLIN = pp.Nonlinear


def Poly(b):
    class P(NONLIN):
        def fun(self, x):
            return float((x ** 2 / 2 - b * x).sum())

        def grad(self, x):
            return x - b

        def optimize(self):
            z = self.x0.copy()
            for _ in range(60):
                z = z - self.tau / (1 + self.tau) * 0.7 * self._gradprox(z, self.tau)
            return z
    return P


def alias_fam(rng):
    """operators whose linear operator hands back the very array it is given"""
    n = int(rng.integers(1, 5))
    k = O.pick(rng, "L2", "L2q", "Quad", "Orth", "Orthb", "Affine", "VStack", "L2warm", "NonL", "NonL")
    s = O.sigma_(rng)
    b, q = O.rvec(rng, n), O.rvec(rng, n)
    if k in ("L2", "L2q", "L2warm"):
        sv = O.pick(rng, "legacy", "cg", "cgls")
        return O.F("L2.alias." + sv, dict(k="Zero"), lambda: pp.L2(Op=O.Alias(n), b=b.copy(), q=q.copy() if k == "L2q" else None, sigma=s, niter=30, warm=k == "L2warm", solver=sv), n, tol=1e-5, grad=True)
    if k == "Quad":
        return O.F("Quadratic.alias", dict(k="Zero"), lambda: pp.Quadratic(Op=O.Alias(n), b=b.copy(), niter=30), n, tol=1e-5, grad=True)
    if k == "NonL":
        x0, warm = O.rvec(rng, n), bool(rng.integers(0, 2))
        return O.F("Nonlinear" + (".warm" if warm else ""), dict(k="Zero"), lambda: Poly(b)(x0.copy(), warm=warm), n, tol=1e-6, grad=True, taus=[0.25, 0.5, 1.0, 2.0])
    if k == "Affine":
        return O.F("AffineSet.alias", dict(k="Zero"), lambda: pp.AffineSet(O.Alias(n), b.copy(), 50), n, tol=1e-6, kind="set",
                   proj=lambda: pp.projection.AffineSetProj(O.Alias(n), b.copy(), 50))
    if k == "VStack":
        return O.F("VStack.alias", dict(k="Zero"), lambda: pp.VStack([pp.L2(b=b.copy(), sigma=s), pp.L2(Op=O.Alias(n), b=q.copy(), niter=30)], nn=[n, n]), 2 * n, tol=1e-5, grad=True)
    inner = O.pick(rng, lambda: pp.L1(s), lambda: pp.EuclideanBall(0.0, 2.0), lambda: pp.L2(b=b.copy()), lambda: pp.Box(-1.0, 1.0))
    kw = dict(b=q.copy()) if k == "Orthb" else {}
    part = dict(partial=True, alpha=1.0) if rng.random() < 0.4 else {}
    return O.F("Orthogonal.alias", dict(k="Zero"), lambda: pp.Orthogonal(inner(), O.Alias(n), **kw, **part), n, tol=1e-10)


def term_case(shape, rng):
    C, R = Caller(), Rec()
    with C.watching():
        ok, tm = C.R.call("building", lambda: algebra.Term(R, shape, rng))
    if not ok:
        return C
    for a, _ in tm.held:
        C.hold("argument of a combinator", a)
    op = tm.t.op
    for what in ("prox", "proxdual", "value", "grad", "prox"):
        x0 = tm.pt(tm.t.n)
        tau = float(O.pick(rng, 0.5, 1.0, 2.0))
        fn = {"prox": lambda x: op.prox(x, tau), "proxdual": lambda x: op.proxdual(x, tau), "value": lambda x: op(x) * 1.0, "grad": lambda x: op.grad(x)}[what]
        if what == "value" and not (tm.t.val or tm.t.inn) or what == "grad" and not tm.t.grad:
            continue
        use(C, what, fn, lambda: x0.copy(), 1e-8)
    return C


def bil_case(rng):
    C = Caller()
    H, _ = S.bilin(rng, rng.random() < 0.4)
    with C.watching():
        ok, op = C.call("constructor", H.make)
    if not ok:
        return C
    for what in ("evaluation", "gradx", "grady", "grad", "lx", "ly", "updatex", "updatey", "updatexy", "gradx"):
        x, y = O.rvec(rng, H.n * H.r), O.rvec(rng, H.r * H.m)
        if what == "evaluation":
            use(C, what, lambda v: float(op(v, y)), lambda: x.copy(), 1e-12)
        elif what == "gradx":
            use(C, what, lambda v: op.gradx(v), lambda: x.copy(), 1e-12)
        elif what == "grady":
            use(C, what, lambda v: op.grady(v), lambda: y.copy(), 1e-12)
        elif what == "grad":
            use(C, what, lambda v: op.grad(v), lambda: np.r_[x, y], 1e-12)
        elif what == "lx":
            if H.Op is None:
                use(C, what, lambda v: float(op.lx(v)), lambda: x.copy(), 1e-12)
        elif what == "ly":
            if H.Op is None:
                use(C, what, lambda v: float(op.ly(v)), lambda: y.copy(), 1e-12)
        else:
            v = {"updatex": x, "updatey": y, "updatexy": np.r_[x, y]}[what]
            C.hold("factor", v)
            C.call(what, lambda: getattr(op, what)(v))
    return C


STARTS = ("x0", "y0", "z0")     # a proximal map that returns its input may return the starting point


def solver_case(body, rng, niter, tol):
    C = Caller()
    tl = [1e-9]

    def rec(name, c, call, cx, acc_tol, limit, ncx):
        C.name = name
        tl[0] = max(acc_tol, 1e-9) * 10
        C.R.LIMIT = limit
        log = S.Log(cx)
        def go():
            try:
                return S.quiet(lambda: call(log), True)
            except ZeroDivisionError:       # a zero factor: no Lipschitz constant to divide by
                if c["alg"] not in ("PALM", "iPALM"):
                    raise
        C.R.call("solver", go)
        return {"name": name, "c": dict(c, acc_tol="0"), "ev": []}, log, None
    old = S.Solver.__call__

    def spy(self, *a, **k):
        if S.Solver.depth:
            return old(self, *a, **k)
        C.hold("argument of " + self.__name__, a, k)
        r = old(self, *a, **k)
        C.lib(self.__name__)
        keep = [v.copy() if isinstance(v, np.ndarray) else v for v in (r if isinstance(r, tuple) else (r,))]
        first = flat(r)
        ba = inspect.signature(self.fn).bind(*a, **k).arguments
        starts = [ba[q] for q in STARTS if isinstance(ba.get(q), np.ndarray)]
        free = [v for v in starts if any(v is w for w in results(r))]
        C.scribble(self.__name__, r, free)
        if not free:
            r2 = old(self, *a, **k)
            C.lib(self.__name__)
            C.ev.append({"e": "again", "what": self.__name__, "a": first, "b": flat(r2), "tol": num(tl[0])})
        return tuple(keep) if isinstance(r, tuple) else keep[0]
    oop = S.op_

    def op_(A, imp=False, dt=None):
        C.hold("matrix", A)
        return oop(A, imp, dt)
    S.Plan.cur = S.Plan(niter, tol, rec)
    S.Solver.__call__, S.op_ = spy, op_
    try:
        with C.watching():
            body(rng, 0)
    finally:
        S.Plan.cur = None
        S.Solver.__call__, S.op_ = old, oop
    return C


SOLVERS = [S.pp_, S.pg_, S.pgv_, S.aa_, S.gpg_, S.tw_, S.hqs_, S.admm_, S.admml2_, S.ladmm_, S.dr_, S.ppxa_, S.cadmm_, S.pd_, S.apd_, S.seg_, S.palm_, S.breg_, S.pnp_, S.sr3_]


def C09(tier, seed):
    N = {"quick": 1, "thorough": 12}[tier]
    cs = []

    def add(nm, fn):
        def run():
            C, name = fn()
            return C.trace(name)
        cs.append(("C09." + nm, run))
    fams = O.ALLOPS + [O.Hyper_] + O.SCHEDS + [alias_fam] * 4
    for k, fam in enumerate(fams):
        for i in range(5 * N):
            def fn(k=k, i=i, fam=fam):
                rng = seeds(seed, "C09", 1000 * (k + 1) + i)
                F_ = fam(rng)
                return op_case(F_, rng), F_.name
            add("%s.%d.%d" % (fam.__name__, k, i), fn)
    sh = [s for s in algebra.shapes() if len(s) <= 3]
    for j in range(2 * N):
        for i, s in enumerate(sh):
            if (i + j) % 2 or tier == "thorough":
                add("term.%d.%d" % (i, j), lambda s=s, i=i, j=j: (term_case(s, seeds(seed, "C09", 500000 + 1000 * j + i)), "-".join(s)))
    for i in range(40 * N):
        add("bilinear.%d" % i, lambda i=i: (bil_case(seeds(seed, "C09", 700000 + i)), "LowRankFactorizedMatrix"))
    for k, body in enumerate(SOLVERS):
        for i in range(30 * N):
            def fn(k=k, i=i, body=body):
                rng = seeds(seed, "C09", 800000 + 1000 * k + i)
                C = solver_case(body, rng, [1, 3, 4][i % 3], body.__name__ in ("pp_", "pg_", "aa_", "ppxa_", "cadmm_", "apd_", "breg_") and i % 5 == 4)
                return C, getattr(C, "name", body.__name__)
            add("%s.%d" % (body.__name__, i), fn)
    return cs
