"""C08: every call history of the History specification, replayed on pairs of instances."""
import json
import re
import numpy as np
import ops as O
from core import Rec, num, out, run_tlc, vec
from opchecks import seeds

_h = {}


def histories(depth):
    """(dser, gser) -> histories, from TLC"""
    if depth not in _h:
        r = run_tlc("History", "History%d.cfg" % depth, want_override=False)
        d = {}
        for ln in r.prints:
            m = re.match(r'<<"HIST", "(.*)">>$', ln)
            if m:
                e = json.loads(m.group(1).replace('\\"', '"'))
                d.setdefault((e["d"], e["g"]), []).append(e["h"])
        for v in d.values():
            v.sort()
        assert len(d) == 4 and all(len(v) == 7 * 14 ** (depth - 1) for v in d.values())
        _h[depth] = d
    return _h[depth]


def flags(F_):
    """does the conjugate, does the gradient go through the proximal map"""
    if isinstance(F_, O.Sched) and not F_.wrapped:
        d = F_.desc
        while d["k"] == "Sched":
            d = d["f"]
        if d["k"] == "L1" and d["w"] == 1 and all(v == "0" for v in d["g"]):
            return False, True
        return True, not F_.grad
    return True, True


class Inst:
    def __init__(self, F_, op, o, rng):
        self.F, self.op, self.o, self.rng = F_, op, o, rng
        self.x1 = F_.point(rng, int(rng.integers(1, 9)))
        t = [F_.tau(rng), F_.tau(rng)]
        while t[1] == t[0]:
            t[1] = t[1] * 0.8
        self.t = t


def act(R, I, a, n):
    F_, op, o, rng = I.F, I.op, I.o, I.rng
    sched = isinstance(F_, O.Sched)
    exact = not sched or F_.exact

    def nth(what, fn, ref):
        ok, y = R.call(what, fn)
        if ok:
            R.ev.append({"e": "nth", "o": o, "n": n, "a": out(y, F_.cx), "b": out(ref(F_.const(n)), F_.cx), "tol": "1e-12"})
    if a in "pqr":
        x = I.x1 if a == "r" else F_.point(rng)
        tau = I.t[1] if a == "q" else I.t[0]
        if exact:
            R.prox(F_, op, x, tau, o)
        else:
            nth("prox", lambda: op.prox(x.copy(), tau), lambda f: f.prox(x.copy(), tau))
    elif a == "d":
        tau = 1.0 / I.t[0]
        x = F_.cast(F_.point(rng) * tau)
        ser = flags(F_)[0]
        if exact and F_.dual:
            R.dual(F_, op, x, tau, o, ser=ser)
        elif not exact:
            nth("proxdual", lambda: op.proxdual(x.copy(), tau), lambda f: f.proxdual(x.copy(), tau))
        else:                                       # nothing is claimed about the result; the call must not matter
            R.call("proxdual", lambda: op.proxdual(x.copy(), tau))
            R.ev.append({"e": "step", "o": o, "tau": [num(tau)], "got": "ok", "ser": ser})
    elif a == "v":
        x = F_.point(rng)
        if F_.desc.get("multi") or F_.desc["k"] == "QERL2":       # (see known_findings.json)
            R.call("evaluation", lambda: op(x.copy()))
        elif F_.kind == "set":
            R.inn(F_, op, x, o)
        elif F_.val:
            R.val(F_, op, x, o)
        else:
            R.call("evaluation", lambda: op(x.copy()))
    elif a == "g":
        x = F_.point(rng, int(rng.integers(4, 9)))
        if getattr(F_, "wrapped", False):
            R.ev.append({"e": "step", "o": o, "tau": ["1.0"], "got": "ok", "ser": True})
            R.call("prox", lambda: op.prox(x.copy(), 1.0))
        elif F_.grad:
            if F_.desc["k"] != "Euclid" or np.linalg.norm(x) > 1e-6:
                R.grad(F_, op, x, o, tol=max(F_.tol, 1e-9), ser=False)
        elif not exact:
            nth("gradient", lambda: op.grad(x.copy()), lambda f: f.grad(x.copy()))
        elif F_.dtype == "float32":
            R.call("gradient", lambda: op.grad(x.copy()))
        else:
            R.egrad(F_, op, x, o)
    else:
        R.step(lambda: op.prox(F_.point(rng), -0.5), -0.5, o)


def replay(R, fam, h, rng):
    F1 = fam(rng)
    twin = rng.random() < 0.5
    F2 = F1 if twin else fam(rng)
    h = h(F1) if callable(h) else h
    if flags(F1) != flags(F2):
        F2 = F1
    if F1.desc["k"] == "TV" and not isinstance(F1, O.Sched):
        F1.tol = F2.tol = 1e-4
    R.ops, R.name = [F1.desc, F2.desc], F1.name
    I = []
    for o, F_ in ((1, F1), (2, F2)):
        ok, op = R.call("constructor", F_.make)
        if not ok:
            return
        I.append(Inst(F_, op, o, rng))
    for a, i, n in h:
        act(R, I[i - 1], a, n)


def C08(tier, seed):
    H3 = histories(3)
    H4 = histories(4) if tier != "quick" else None
    todo = []
    for fam in O.SCHEDS + [O.STATEFUL, O.STATEFUL]:
        k = {"quick": 240, "thorough": 900}[tier]
        for i in range(k):
            todo.append((fam, True))
    for fam in O.ALLOPS:
        for i in range({"quick": 16, "thorough": 120}[tier]):
            todo.append((fam, False))
    cs = []
    for i, (fam, deep) in enumerate(todo):
        def fn(i=i, fam=fam):
            R = Rec()
            R.name = "?"
            rng = seeds(seed, "C08", i)
            # two histories of three calls in a row, or one (thorough: of four)

            def h(F_):
                fl = flags(F_)
                if H4 is not None and rng.random() < 0.7:
                    return H4[fl][int(rng.integers(0, len(H4[fl])))]
                s = H3[fl]
                a, b = s[int(rng.integers(0, len(s)))], s[int(rng.integers(0, len(s)))]
                last = {1: 0, 2: 0}
                for e in a:
                    last[e[1]] = e[2]
                return a + [[e[0], e[1], e[2] + last[e[1]]] for e in b]     # (counts add up)
            replay(R, fam, h, rng)
            t = R.trace()
            t["name"] = R.name
            return t
        cs.append(("C08.%s.%d" % (fam.__name__, i), fn))
    return cs
