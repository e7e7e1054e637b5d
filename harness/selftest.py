"""C19: the Moreau and gradient self-tests on operators that are right or wrong in chosen entries."""
import contextlib
import io
import numpy as np
import pyproximal as pp
from pyproximal.utils.bilinear import BilinearOperator
from pyproximal.utils.gradtest import gradtest_bilinear, gradtest_proximal
from pyproximal.utils.moreau import moreau
from core import Rec, num, vec
from ops import pick, rvec
from opchecks import seeds


class Maps(pp.ProxOperator):
    """prox(x, t) = a x + t c and proxdual(y, s) = b y + s e"""

    def __init__(self, a, b, c, e):
        super().__init__(None, False)
        self.k = (a, b, c, e)

    def prox(self, x, tau):
        return self.k[0] * x + tau * self.k[2]

    def proxdual(self, x, tau):
        return self.k[1] * x + tau * self.k[3]


class OneMap(pp.ProxOperator):
    """one of the two maps; the other is the inherited one"""

    def __init__(self, a, c, dual):
        super().__init__(None, False)
        self.k = (a, c)
        if dual:
            self.proxdual = self._own
        else:
            self.prox = self._own

    def _own(self, x, tau):
        return self.k[0] * x + tau * self.k[1]


class Quad(pp.ProxOperator):
    """f(z) = sum h z^2/2 + a z over the real coordinates of z, with gradient g"""

    def __init__(self, h, a, g):
        super().__init__(None, True)
        self.h, self.a, self.g = h, a, g

    def __call__(self, x):
        z = np.array([float(v) for v in vec(x)])
        return float(np.sum(self.h[:z.size] * z * z / 2 + self.a[:z.size] * z))

    def grad(self, x):
        return join(self.g, np.iscomplexobj(x))


def join(g, cx):
    return g[0::2] + 1j * g[1::2] if cx else g.copy()


class Bil(BilinearOperator):
    """the same in two factors"""

    def __init__(self, h, a, g, x, y):
        super().__init__()
        self.h, self.a, self.g, self.x, self.y = h, a, g, x, y
        self.sizex, self.sizey = x.size, y.size
        self.cx = np.iscomplexobj(x)

    def __call__(self, x, y=None):
        if y is None:
            x, y = x[:self.sizex], x[self.sizex:]
        z = np.array([float(v) for v in vec(np.r_[np.ravel(x), np.ravel(y)])])
        return float(np.sum(self.h * z * z / 2 + self.a * z))

    def gradx(self, x):
        return join(self.g, self.cx)[:self.sizex]

    def grady(self, y):
        return join(self.g, self.cx)[self.sizex:]

    def grad(self, x):
        return join(self.g, self.cx)

    def lx(self, x):
        return 1.0

    ly = lx


def verdict(R, what, fn, raises):
    """the verdict as returned or raised; any other exception is unexpected"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = fn()
        return "True" if r is True or (isinstance(r, np.bool_) and bool(r)) else "False" if r is False or isinstance(r, np.bool_) else repr(type(r))
    except (ValueError, AssertionError) as e:
        return type(e).__name__ if raises else "raised " + type(e).__name__
    except Exception as e:  # noqa: BLE001
        R.boom("%s in %s" % (type(e).__name__, what))
        return "boom"


def moreau_case(rng):
    n = int(rng.integers(1, 5))
    tau = float(pick(rng, 1.0, 0.5, 2.0, 0.1, round(float(rng.uniform(0.1, 4)), 3)))
    R = Rec()
    a, c = rvec(rng, n), rvec(rng, n)
    b, e = 1.0 - a, -tau * c            # right maps: a x + tau c + b x + e = x
    kind = pick(rng, "right", "entry", "entry", "one", "scale", "sign", "swap")
    tol = float(pick(rng, 1e-5, 1e-5, 1e-3, 1e-8, 0.1))
    j = int(rng.integers(n))
    if kind == "entry":
        e[j] += float(pick(rng, 0.5, 0.99, 2.0, 100.0, -0.5, -2.0, -100.0, 1e4)) * tol
    elif kind == "scale":
        b[j] += float(pick(rng, 1e-3, 0.1, 3 * tol))
    elif kind == "sign":                 # the sum is the point with some signs turned
        m = rng.random(n) < 0.5
        m[j] = True
        b, e = np.where(m, -1.0, 1.0) - a, -tau * c
    elif kind == "swap":                 # the sum is zero, twice the point, the opposite half, ...
        b = float(pick(rng, 0.0, 2.0, 0.5, -0.5)) - a
    T = dict(a=vec(a), b=vec(b), c=vec(c), e=vec(e))
    if kind == "one":
        op = OneMap(a, c, rng.random() < 0.5)
        if op.prox == op._own:
            T["b"], T["e"] = vec(1.0 - a), vec(-tau * c)
        else:                            # proxdual(y, s) = a y + s c is the given one
            T["b"], T["e"] = vec(a), vec(c)
            T["a"], T["c"] = vec(1.0 - a), vec(-c / tau)
    else:
        op = Maps(a, b, c, e)
    ev = []
    for i in range(6):
        x = rvec(rng, n) * float(pick(rng, 1.0, 1.0, 100.0))
        x0 = x.copy()
        raises = bool(rng.random() < 0.5)
        kw = {}
        if tol != 1e-5 or rng.random() < 0.5:
            kw["tol"] = tol
        if not raises or rng.random() < 0.5:
            kw["raiseerror"] = raises
        if rng.random() < 0.3:
            kw["verb"] = True
        got = verdict(R, "moreau", lambda: moreau(op, x, tau, **kw), raises)
        ev.append({"e": "mtest", "x": vec(x0), "tau": num(tau), "tol": num(tol), "raises": raises, "got": got})
        ev.append({"e": "keep", "why": "the Moreau test changes the point", "a": vec(x0), "b": vec(x)})
    return {"name": "moreau." + kind, "c": T, "ev": ev + R.ev}


def grad_case(rng, bil, N):
    n = int(rng.integers(1, 4))
    m = int(rng.integers(1, 4)) if bil else 0
    cx = bool(rng.random() < 0.4)
    w = 2 if cx else 1
    drawn = not bil and rng.random() < 0.35                        # the point is drawn by the helper
    flag = cx and (drawn or bool(rng.random() < 0.6))              # complexflag
    N_ = (n + m) * w
    h = np.zeros(N_) if drawn else np.round(rng.uniform(-2, 2, N_), 2)
    a = np.round(rng.uniform(-3, 3, N_), 2)
    z = np.zeros(N_) if drawn else np.round(rng.normal(size=N_) * 2, 2)
    delta = float(pick(rng, 1e-6, 1e-6, 1e-4, 1e-3))
    q = a + h * z
    g = q.copy()
    mode = pick(rng, "atol", "atol", "rtol", "both")
    atol = {"atol": float(pick(rng, 1e-2, 0.1)), "rtol": 1e-21, "both": 1e-2}[mode]
    rtol = {"atol": 1e-6, "rtol": float(pick(rng, 0.05, 0.2)), "both": 0.1}[mode]
    slack = atol + rtol * np.abs(g)
    kind = pick(rng, "right", "entry", "entry", "entry", "all", "near")
    if kind == "entry":
        j = int(rng.integers(N_))
        g[j] += float(pick(rng, 2.0, -2.0, 50.0, 5.0)) * max(slack[j], 0.01)
    elif kind == "all":
        g = g + np.where(rng.random(N_) < 0.5, 1, -1) * 3 * np.maximum(slack, 0.01)
    elif kind == "near":
        g = g + rng.uniform(-0.8, 0.8, N_) * slack
    x = join(z[:n * w], cx)
    y = join(z[n * w:], cx)
    draw = [bool(i % 2 == 0 or (flag if bil or drawn else True)) if cx else True for i in range(N_)]
    T = dict(h=vec(h), a=vec(a), g=vec(g), z=vec(z), delta=num(delta), rtol=num(rtol), atol=num(atol), draw=draw)
    op = Bil(h, a, g, x, y) if bil else Quad(h, a, g)
    R, ev = Rec(), []
    kw = {}
    if delta != 1e-6 or rng.random() < 0.5:
        kw["delta"] = delta
    kw["atol"] = atol
    if mode != "atol" or rng.random() < 0.5:
        kw["rtol"] = rtol
    if flag:
        kw["complexflag"] = True
    np.random.seed(int(rng.integers(2**31)))
    for i in range(N):
        raises = bool(i % 3 == 0)
        k = dict(kw)
        if not raises or i % 2:
            k["raiseerror"] = raises
        if i % 7 == 0:
            k["verb"] = True
        x0, y0 = x.copy(), y.copy()
        if bil:
            got = verdict(R, "gradtest_bilinear", lambda: gradtest_bilinear(op, **k), raises)
            same = vec(np.ravel(op.x)) == vec(x0) and vec(np.ravel(op.y)) == vec(y0)
        elif drawn:
            got = verdict(R, "gradtest_proximal", lambda: gradtest_proximal(op, n, **k), raises)
            same = True
        else:
            got = verdict(R, "gradtest_proximal", lambda: gradtest_proximal(op, n, x=x, **k), raises)
            same = vec(x) == vec(x0)
        e = {"e": "gtest", "raises": raises, "got": got}
        if got == "boom":
            break
        if i < 12 or e not in ev:       # equal verdicts add nothing to a history
            ev.append(e)
        if not same:
            ev.append({"e": "keep", "why": "the gradient test changes the point or the operator", "a": ["0"], "b": ["1"]})
            break
    ev.append({"e": "done"})
    return {"name": ("bilinear." if bil else "drawn." if drawn else "proximal.") + kind, "c": T, "ev": ev + R.ev}


def C19(tier, seed):
    n = {"quick": 150, "thorough": 1500}[tier]
    cs = []
    for i in range(2 * n):
        cs.append(("C19.moreau.%d" % i, lambda i=i: moreau_case(seeds(seed, "C19", i))))
    for i in range(n):
        cs.append(("C19.proximal.%d" % i, lambda i=i: grad_case(seeds(seed, "C19", 100000 + i), False, 300)))
        cs.append(("C19.bilinear.%d" % i, lambda i=i: grad_case(seeds(seed, "C19", 200000 + i), True, 400)))
    return cs
