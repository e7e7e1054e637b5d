"""detect.py [ID...]: run each planted bug's own check against a scratch copy of /repo with the bug (VERIF_REPO)."""
import json, os, shutil, subprocess, sys, tempfile, re, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
props = os.environ.get("PROPS", "").split()


def one(i):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    wt = tempfile.mkdtemp(prefix="det-")
    r = wt + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        shutil.copy("/repo/pyproximal/version.py", r + "/pyproximal/version.py")
        subprocess.check_call(["git", "-C", r, "apply", "%s/seeded/%s/patch.diff" % (V, i)])
        out = []
        for p in props or [m["property"]]:
            q = subprocess.run([V + "/check", p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r), cwd=V)
            cl = sorted(set(re.findall(r'clause "([^"]*)"', q.stdout)))
            out.append("%s exit %d %s" % (p, q.returncode, cl[:4] if q.returncode < 2 else q.stdout[-300:] + q.stderr[-300:]))
        return i, "; ".join(out)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


with cf.ThreadPoolExecutor(2) as ex:
    for i, s in ex.map(one, ids):
        print("%-24s %s" % (i, s), flush=True)
