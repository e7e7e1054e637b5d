import sys, time, collections
from core import *
import importlib
def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    mods = [importlib.import_module(m) for m in os.environ.get("MODS", "opchecks").split(",")]
    gen = next(getattr(m, prop) for m in mods if hasattr(m, prop))
    t0 = time.time()
    cases = gen(tier, seed)
    res = run_cases(cases)
    t1 = time.time()
    print("cases", len(cases), "events", sum(len(t["ev"]) for t in res), "py %.1fs" % (t1 - t0))
    r = validate("OpTrace", res)
    print("tlc %.1fs states %d fails %d" % (r.wall, r.states, len(r.fails)))
    c = collections.Counter()
    ex = {}
    for t, l, cl in r.fails:
        key = (res[t-1].get("name"), cl[:100])
        c[key] += 1
        ex.setdefault(key, (cases[t-1][0], l, res[t-1]["ops"], res[t-1]["ev"][l-1]))
    for k, v in sorted(c.items(), key=str):
        print(v, k)
        e = ex[k]
        print("      ", e[0], e[1], str(e[2])[:200], str(e[3])[:400])
main()
