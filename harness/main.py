"""check PROP: run one property's check.  Exit 0: held; 1: VIOLATION printed; 2: machinery error."""
import collections
import hashlib
import json
import os
import sys
import time
import traceback

import core
from core import MachineryError, VERIF, run_cases, run_tlc, validate


def known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == prop]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import registry
    P = registry.PROPS[prop]
    states = trans = 0
    parts = []
    # 1. the design: invariants of the specification itself, checked exhaustively by TLC
    for mod, cfg, *want in P.mc(tier):
        r = run_tlc(mod, cfg, want_override=False, expect_violation=bool(want))
        if want:                # a weaker design, which the model must tell apart from the one in use
            if r.violated != want[0]:
                raise MachineryError("design model %s/%s does not violate %s" % (mod, cfg, want[0]))
            parts.append({"design_model": mod + "/" + cfg, "refuted": want[0], "wall_s": round(r.wall, 1)})
            continue
        if r.violated:
            raise MachineryError("design model %s/%s violates %s: the specification is wrong\n%s" % (mod, cfg, r.violated, r.out[-4000:]))
        if r.fails:
            raise MachineryError("design model %s/%s: %s" % (mod, cfg, r.fails[:5]))
        states += r.states
        trans += r.generated
        parts.append({"design_model": mod + "/" + cfg, "states": r.states, "transitions": r.generated, "wall_s": round(r.wall, 1)})
    # 2. histories of the real code, validated by the trace specifications
    ntr = nev = 0
    fails, samples, clauses = [], [], collections.Counter()
    for spec, gen in P.runs:
        cases = gen(tier, seed)
        tp = time.time()
        res = run_cases(cases, budget=400.0 / len(P.runs) if tier == "quick" else None)
        tp = time.time() - tp
        late = [c[0] for c, t in zip(cases, res) if t is None]
        if late:                # a tree on which the library is very much slower
            print("  %s: %d of %d histories of %s were dropped: the recorder's time is used up" % (prop, len(late), len(cases), gen.__name__))
            cases = [c for c, t in zip(cases, res) if t is not None]
            res = [t for t in res if t is not None]
        if not res:
            raise MachineryError("no history of %s was recorded in time" % gen.__name__)
        B = 3000
        tl = 0.0
        for lo in range(0, len(res), B):
            chunk = res[lo:lo + B]
            r = validate(spec, chunk)
            tl += r.wall
            states += r.states
            trans += r.generated
            for t, l, cl in r.fails:
                tr = chunk[t - 1]
                fails.append((cases[lo + t - 1][0], tr, l, cl, spec))
        ne = sum(len(t["ev"]) for t in res)
        for t in res:
            for e in t["ev"]:
                clauses[e["e"]] += 1
        ntr += len(res)
        nev += ne
        parts.append({"trace_spec": spec, "generator": gen.__name__, "traces": len(res), "events": ne, "dropped": len(late), "library_s": round(tp, 1), "tlc_s": round(tl, 1)})
        for i in (0, len(res) // 3, (2 * len(res)) // 3):
            t = res[i]
            samples.append({"case": cases[i][0], "what": t.get("name"), "ops": t.get("ops", t.get("c")), "events": t["ev"][:2]})
    # 3. verdict
    kn = known(prop)
    seen, viol = collections.OrderedDict(), []
    for case, tr, l, cl, spec in fails:
        for k in kn:
            if cl == k["clause"] and (not k.get("subject") or str(tr.get("name", "")).startswith(k["subject"])):
                seen[k["id"]] = (k, seen.get(k["id"], (k, 0))[1] + 1)
                break
        else:
            viol.append((case, tr, l, cl, spec))
    for k, c in seen.values():
        print("KNOWN-FINDING: property=%s %s [%d occurrences]" % (prop, k["what"], c))
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = set()
    for case, tr, l, cl, spec in viol:
        key = (tr.get("name"), cl)
        if key in shown or len(shown) >= 20:
            continue
        shown.add(key)
        h = hashlib.sha1(("%s %s %s %s %d" % (prop, tier, case, cl, seed)).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "case": case, "subject": tr.get("name"), "clause": cl, "event": l,
                       "trace_spec": spec, "trace": tr, "rerun": "VERIF_SEED=%d VERIF_TIER=%s ./check %s" % (seed, tier, prop)}, f, indent=1)
        print("  %s: clause \"%s\" fails at event %d of %s (%s)" % (prop, cl, l, case, tr.get("name")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ntr, "events_validated": nev,
                       "event_kinds": dict(clauses), "parts": parts, "samples": samples},
          "assumptions": P.assumptions, "wall_s": round(wall, 1), "violations": len(viol)}
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d traces, %d events, %d states, %d failing clauses (%d known), %.1fs" % (
        prop, tier, seed, ntr, nev, states, len(fails), len(fails) - len(viol), wall))
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    try:
        main()
    except MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        sys.exit(2)
