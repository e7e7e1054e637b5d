"""dbg2.py GEN-NAME TIER SEED: run one solver generator and show failures"""
import collections, json, os, sys
import core, solvers, protocol
from core import run_cases, validate
gen, tier, seed = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick", int(sys.argv[3]) if len(sys.argv) > 3 else 1
cs = (getattr(solvers, gen, None) or getattr(protocol, gen))(tier, seed)
pat = os.environ.get("PAT")
if pat:
    cs = [c for c in cs if pat in c[0]]
res = run_cases(cs)
import types
r = types.SimpleNamespace(fails=[], states=0, wall=0)
for lo in range(0, len(res), 3000):
    q = validate("SolverTrace", res[lo:lo + 3000])
    r.fails += [(t + lo, l, c) for t, l, c in q.fails]
    r.states += q.states
    r.wall += q.wall
print(len(res), "traces", r.states, "states", round(r.wall, 1), "s")
cnt = collections.Counter()
first = {}
for t, l, cl in r.fails:
    k = (res[t-1]["name"].split("(")[0], cl)
    cnt[k] += 1
    first.setdefault(k, (t, l))
for k, n in cnt.most_common():
    t, l = first[k]
    print(n, k, cs[t-1][0], "event", l, res[t-1]["name"])
    if os.environ.get("V"):
        print(json.dumps(res[t-1]["c"])[:1500]); print(res[t-1]["ev"][max(0,l-2):l+1])
