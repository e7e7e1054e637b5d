"""C17: every environment of the Protocol specification, realised with every solver."""
import re
import numpy as np
import solvers as S
from core import Rec, num, run_tlc
from opchecks import seeds

BODIES = [S.pp_, S.pg_, S.apg_, S.pgv_, S.aa_, S.gpg_, S.tw_, S.hqs_, S.admm_, S.admml2_, S.ladmm_, S.dr_, S.ppxa_, S.cadmm_, S.pd_, S.apd_, S.seg_, S.palm_, S.breg_, S.pnp_]
TOL = {"pp_", "pg_", "apg_", "pgv_", "aa_", "ppxa_", "cadmm_", "apd_", "breg_"}
_envs = None


def envs():
    """(limit, met) -> {(show, cb): iterations}, from TLC"""
    global _envs
    if _envs is None:
        r = run_tlc("Protocol", "Protocol.cfg", want_override=False)
        _envs = {}
        for ln in r.prints:
            m = re.match(r'<<"ENV", (\d+), (\d+), (\w+), (\w+), (\d+)>>', ln)
            if m:
                _envs.setdefault((int(m.group(1)), int(m.group(2))), {})[(m.group(3) == "TRUE", m.group(4) == "TRUE")] = int(m.group(5))
        assert len(_envs) > 20 and all(len(v) == 4 for v in _envs.values())
    return _envs


def rec_for(rng, met, outcome):
    def rec(name, c, call, cx, acc_tol, limit, ncx):
        R = Rec()
        R.LIMIT = limit
        over0 = {}

        def run(cb=True, **over):
            log = S.Log(cx)
            S.Solver.over = dict(over0, **over)
            if not cb:
                S.Solver.over["callback"] = None
            try:
                ok, r = R.call("solver", lambda: S.quiet(lambda: call(log), True))
            finally:
                S.Solver.over = {}
            return ok, log, (S.flat_(r, cx, ncx) if ok else None)
        nm = name.split("(")[0]
        pnp = nm == "PlugAndPlay"
        if met and c.get("tol", "none") != "none":
            # a tolerance first met at the wanted iteration, as far as one exists
            lo, hi, best = -14.0, 3.0, None
            if met > c["niter"]:
                best = 1e-13
            else:
                for _ in range(30):
                    mid = (lo + hi) / 2
                    over0["tol"] = 10.0 ** mid
                    ok, log, r = run(show=False)
                    if not ok:
                        break
                    if len(log.it) == met:
                        best = 10.0 ** mid
                        break
                    lo, hi = (mid, hi) if len(log.it) > met else (lo, mid)
                if best is None:
                    best = 10.0 ** hi
            over0["tol"] = best
            c = dict(c, tol=num(best))
        R.ev = []
        ok, log, ret = run(show=False)
        ev = [{"e": "it", "obs": o} for o in log.it]
        if ok:
            ev.append({"e": "end", "ret": ret})
            if log.it:
                j = 2 if (len(log.it[-1]) > 1 and len(ret) > 1) else 1
                ev.append({"e": "keep", "why": "returned is the last reported", "a": ret[:j], "b": log.it[-1][:j]})
            if not met and c.get("tol", "none") == "none":
                ev.append({"e": "keep", "why": "number of iterations", "a": [len(log.it)], "b": [outcome]})
            its, base = log.it, ret
            alts = [dict(show=True), dict(show=True, cb=False), dict(show=False, cb=False)]
            if "cb2" in c:
                k2 = "callbackz" if c["alg"] in ("HQS", "ADMM") else "callbacky"
                if not pnp and nm != "Bregman" and nm != "Segment":
                    alts.append({"show": False, k2: not c["cb2"]})
                    alts.append({"show": True, k2: not c["cb2"]})
            if nm == "TwIST":
                alts += [dict(show=False, returncost=not c["cost"]), dict(show=True, returncost=not c["cost"])]
            if nm == "PrimalDual":
                alts.append(dict(show=True, returny=not c["rety"]))
            for a in alts:
                a = dict(a)
                what = ", ".join("%s=%s" % (k, v) for k, v in sorted(a.items()))
                cb = a.pop("cb", True)
                ok, log, ret = run(cb=cb, **a)
                if not ok:
                    break
                j = 1 if "returncost" in a or "returny" in a else len(base)
                ev.append({"e": "alike", "why": "returned value depends on " + what, "a": ret[:j], "b": base[:j]})
                if cb:
                    j = 1 if any(k.startswith("callback") for k in a) else len(its[0]) if its else 1
                    ev.append({"e": "alike", "why": "iterates depend on " + what, "a": sum([i[:j] for i in log.it], []), "b": sum([i[:j] for i in its], [])})
        c = dict(c, acc_tol=num(acc_tol), w=2 if cx else 1)
        return {"name": name, "c": c, "ev": ev + R.ev}, log, None
    return rec


def run_one(body, rng, limit, met, outcome):
    S.Plan.cur = S.Plan(limit, met != 0, rec_for(rng, met, outcome))
    try:
        return body(rng, 0)
    finally:
        S.Plan.cur = None


def C17(tier, seed):
    cs = []
    reps = {"quick": 3, "thorough": 30}[tier]
    for k, body in enumerate(BODIES):
        for j, ((limit, met), o) in enumerate(sorted(envs().items())):
            if met and body.__name__ not in TOL:
                continue
            outs = set(o.values())
            assert len(outs) == 1
            for i in range(reps):
                cs.append(("C17.%s.%d.%d.%d" % (body.__name__, limit, met, i),
                           lambda k=k, body=body, limit=limit, met=met, o=outs.copy().pop(), i=i, j=j:
                           run_one(body, seeds(seed, "C17", 100000 * (k + 1) + 100 * j + i), limit, met, o)))
    return cs
