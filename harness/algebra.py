"""C05: every term shape of the Algebra specification, realised with the real combinators."""
import re
import numpy as np
import pylops
import pyproximal as pp
import ops as O
from core import Rec, mat, num, out, run_tlc, vec
from opchecks import seeds

_shapes = None


def shapes():
    """every shape the specification reaches, in a fixed order"""
    global _shapes
    if _shapes is None:
        r = run_tlc("Algebra", "AlgebraShapes.cfg", want_override=False)
        s = set()
        for ln in r.prints:
            m = re.match(r'<<"SHAPE", <<(.*)>>>>', ln)
            if m:
                s.add(tuple(re.findall(r'"(\w+)"', m.group(1))))
        assert len(s) == r.states
        _shapes = sorted(s, key=lambda t: (len(t), t))
    return _shapes


def pen(rng, cx):
    if cx:
        while True:
            f = O.pick(rng, O.L1_, O.Euclid_, O.HuberC_)(rng)
            if f.cx:
                return f
    while True:
        f = O.pick(rng, O.L1_, O.Euclid_, O.L21_, O.Huber_, O.HuberC_, O.Nuclear_)(rng)
        if not f.cx and len(f.shape) == 1 and f.dtype == "float64" and f.name != "Nuclear.w" and f.n <= 4:
            f.loss = False
            return f


def loss(rng, cx):
    while True:
        if cx:
            f = O.L2_(rng, ["cxb", "densecx"])
        else:
            f = O.pick(rng, lambda r: O.L2_(r, ["none", "b", "bq", "q", "dense"]), O.Quad_, O.Conv_)(rng)
        if f.cx == cx and f.n <= 4 and "impl" not in f.name and f.desc.get("qgrad", True):
            return f


def aset(rng, cx):
    while True:
        f = O.pick(rng, O.Ball_, O.L1Ball_)(rng) if cx else O.pick(rng, O.Box_, O.Ball_, O.Half_, O.Simplex_, O.L1Ball_)(rng)
        if f.cx == cx and not (f.desc["k"] == "Simplex" and (f.desc["multi"] or f.tol > 1e-8)) and f.n <= 4:
            return f


CLS = {"pen": pen, "loss": loss, "set": aset}


def orthmat(rng, n, cx):
    t = int(rng.integers(0, 4))
    if t == 0:
        return np.eye(n)[rng.permutation(n)] * rng.choice([-1.0, 1.0], n)
    a = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cx else 0)
    return np.linalg.qr(a)[0]


class T:
    """a term: real operator, descriptor, dimension, what is claimed about it"""

    def __init__(self, op, d, n, val, inn, grad):
        self.op, self.d, self.n, self.val, self.inn, self.grad = op, d, n, val, inn, grad


def cidx(ix, cx):
    return [int(i) + 1 for i in ix] if not cx else [int(c) for i in ix for c in (2 * i + 1, 2 * i + 2)]


class Term:
    def __init__(self, R, shape, rng):
        self.R, self.rng, self.parts, self.held, self.orig = R, rng, [], [], []
        self.tol = 1e-8
        self.cx = rng.random() < 0.3 and "add" not in shape and "sub" not in shape
        self.dt = "complex128" if self.cx else "float64"
        self.t = self.leaf(shape[0])
        self.cls = shape[0]
        for w in shape[1:]:
            self.wrap(w)

    def hold(self, a):
        """an array handed to the library"""
        if isinstance(a, np.ndarray):
            self.held.append((a, a.copy()))
        return a

    def part(self, op, n):
        """remember how a part behaves before it is used"""
        x = self.pt(n)
        self.parts.append((op, x, self.behaviour(op, x)))

    def behaviour(self, op, x):
        r = []
        with np.errstate(all="ignore"):
            for f in (lambda: op.prox(x.copy(), 0.7), lambda: op.proxdual(x.copy(), 1.3), lambda: op(x.copy()), lambda: op.grad(x.copy()) if op.hasgrad else 0.0):
                try:
                    r += ["|"] + vec(f())
                except Exception as e:  # noqa: BLE001
                    r += ["|", type(e).__name__]
        return r

    def pt(self, n, j=None):
        rng = self.rng
        j = int(rng.integers(0, 6)) if j is None else j
        x = [np.zeros(n), rng.integers(-4, 5, n) * 0.5, rng.normal(size=n), rng.normal(size=n) * 4, rng.integers(-6, 7, n) * 0.25, rng.normal(size=n) * 0.3][j % 6]
        if self.cx:
            x = x + 1j * rng.permutation(x)
        return x.astype(self.dt)

    def leaf(self, cls):
        f = CLS[cls](self.rng, self.cx)
        self.tol = max(self.tol, f.tol * 20)
        op = f.make()
        t = T(op, f.desc, f.n, cls != "set", cls == "set", cls == "loss")
        self.part(op, f.n)
        return t

    def wrap(self, w):
        rng, t, cx = self.rng, self.t, self.cx
        f, n = t.op, t.n
        self.part(f, n)
        if w in ("add", "sub"):
            v = self.hold(O.rvec(rng, n))
            op = O.pick(rng, lambda: f + v, lambda: f.affine_addition(v))() if w == "add" else f - v
            d = dict(k="Add", f=t.d, v=vec(v if w == "add" else -v))
            self.t = T(op, d, n, t.val, False, t.grad)
        elif w == "post":
            s = O.pick(rng, 2, 3, 1, 0.5, 2.0, O.r3(rng, 0.2, 3.0), np.float64(1.5))
            op = O.pick(rng, lambda: s * f, lambda: f.postcomposition(float(s)))()
            self.t = T(op, dict(k="Post", f=t.d, s=num(s)), n, t.val, False, t.grad)
        elif w == "pre":
            a = O.pick(rng, 2.0, -1.0, 0.5, O.r3(rng, 0.3, 2.0), -O.r3(rng, 0.3, 2.0))
            b = self.hold(O.rvec(rng, n, cx)) if rng.random() < 0.7 else float(rng.integers(-3, 4)) * 0.5
            op = f.precomposition(a, b)
            B = np.broadcast_to(np.asarray(b, dtype=self.dt), n)
            self.t = T(op, dict(k="Pre", f=t.d, a=num(a), b=vec(B)), n, t.val, t.inn, t.grad)
        elif w in ("orth", "part"):
            al = 1.0
            if w == "orth":
                Q, m = orthmat(rng, n, cx), n
                kw = {} if rng.random() < 0.7 else dict(partial=True, alpha=1.0)
            else:
                m = n + int(rng.integers(0, 3)) if n < 5 else n
                al = O.pick(rng, 1.0, 4.0, 0.25, O.r3(rng, 0.3, 3.0))
                Q = orthmat(rng, m, cx)[:n] * np.sqrt(al)
                kw = dict(partial=True, alpha=al)
            b = self.hold(O.rvec(rng, n, cx)) if rng.random() < 0.6 else None
            if b is not None or rng.random() < 0.5:
                kw["b"] = b
            QO = O.pick(rng, lambda: pylops.MatrixMult(Q.astype(self.dt), dtype=self.dt), lambda: O.Implicit(Q.astype(self.dt)))()
            op = pp.Orthogonal(f, QO, **kw)
            self.t = T(op, dict(k="Orth", f=t.d, Q=mat(Q.astype(self.dt)), b=vec(np.zeros(n, self.dt) if b is None else b), alpha=num(al)), m, t.val, t.inn, False)
        elif w == "adj":
            self.t = T(f.H, dict(k="Adj", f=t.d), n, False, False, False)
        elif w == "chain":
            # a companion of the same size
            while True:
                g = CLS[O.pick(rng, "pen", "loss", "set")](rng, cx)
                if g.n == n:
                    break
                if n > 4:
                    s = O.sigma_(rng)
                    g = O.F("L1", dict(k="L1", sig=[num(s)] * n, g=["0"] * (2 * n if cx else n), w=2 if cx else 1), lambda: pp.L1(sigma=s), n, tol=1e-10)
                    break
            self.tol = max(self.tol, g.tol * 20)
            gop = g.make()
            self.part(gop, n)
            k = int(rng.integers(0, 3))
            if k == 1 and type(gop) is type(f):
                k = 0
            if k == 0:
                op, d = f.chain(gop), dict(k="Chain", f=t.d, g=g.desc)
            elif k == 1:
                op, d = f * gop, dict(k="Chain", f=g.desc, g=t.d)      # the right factor first
            else:
                op, d = gop.chain(f), dict(k="Chain", f=g.desc, g=t.d)
            self.t = T(op, d, n, False, False, False)
        else:
            comps = [t]
            for _ in range(1 if n > 4 else int(rng.integers(1, 3))):
                comps.insert(int(rng.integers(0, len(comps) + 1)), self.leaf("loss" if t.grad else O.pick(rng, "pen", "loss", "set")))
            N = sum(c.n for c in comps)
            fs = [c.op for c in comps]
            if w == "vstack":
                cuts = np.cumsum([0] + [c.n for c in comps])
                idx = [np.arange(cuts[i], cuts[i + 1]) for i in range(len(comps))]
                op = pp.VStack(fs, nn=[c.n for c in comps])
            else:
                p = rng.permutation(N)
                idx, lo = [], 0
                for c in comps:
                    idx.append(p[lo:lo + c.n] if rng.random() < 0.5 else np.sort(p[lo:lo + c.n]))
                    lo += c.n
                op = pp.VStack(fs, restr=[pylops.Restriction(N, i.copy(), dtype=self.dt) for i in idx])
            self.t = T(op, dict(k="VStack", fs=[c.d for c in comps], idx=[cidx(i, cx) for i in idx]), N, all(c.val for c in comps), False,
                       all(c.grad for c in comps))


def case(shape, rng):
    R = Rec()
    R.name = "-".join(shape)
    ok, tm = R.call("building " + R.name, lambda: Term(R, shape, rng))
    if not ok:
        return R
    t = tm.t
    R.ops = [t.d]
    F_ = O.F(R.name, t.d, None, (t.n,), cx=tm.cx, dtype=tm.dt, tol=tm.tol, vtol=tm.tol, tight=-1e-6, loose=1e-6)
    for op, x, before in tm.parts:
        R.keep("building left the parts alone", before, tm.behaviour(op, x))
    for j in range(5):
        x = tm.pt(t.n, j)
        tau = float(rng.choice([0.25, 0.5, 1.0, 2.0, O.r3(rng, 0.1, 3)]))
        R.prox(F_, t.op, x, tau)
        if j in (1, 2):
            R.dual(F_, t.op, x, tau)
        if t.val:
            R.val(F_, t.op, x)
        if t.inn:
            R.inn(F_, t.op, x)
        if t.grad:
            R.grad(F_, t.op, x)
    for op, x, before in tm.parts:
        R.keep("using left the parts alone", before, tm.behaviour(op, x))
    for a, b in tm.held:
        R.keep("arguments", vec(b), vec(a))
    return R


def C05(tier, seed):
    S = shapes()
    rng = np.random.default_rng([seed, 5])
    small = [s for s in S if len(s) <= 3]
    deep = [s for s in S if len(s) == 4]
    if tier == "quick":
        todo = small * 2 + [deep[i] for i in rng.permutation(len(deep))[:500]]
    else:
        todo = small * 6 + deep * 2
        # deeper terms: a reachable shape continued by the combinators of another
        for _ in range(2000):
            todo.append(deep[int(rng.integers(0, len(deep)))] + deep[int(rng.integers(0, len(deep)))][1:][:int(rng.integers(1, 4))])
    cs = []
    for i, s in enumerate(todo):
        def fn(i=i, s=s):
            R = case(s, seeds(seed, "C05", i))
            t = R.trace()
            t["name"] = R.name
            return t
        cs.append(("C05.%d.%s" % (i, "-".join(s)), fn))
    return cs
