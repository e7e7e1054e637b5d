"""mkseed.py FILE...: make planted bugs of the definitions in FILE (Python; each calls bug(...)) under seeded/.
A bug is kept only if it edits original lines, the stable tests pass with it, and its demo passes
without and fails with it.  Works in a scratch copy that is removed afterwards."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = subprocess.check_output(["git", "-C", REPO, "log", "--format=%H", "--reverse"], text=True).split()[0]
DEMO_SH = '#!/bin/bash\n# run with cwd = the repository\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$d/demo.py"\n'
HEAD = "import sys, warnings\nwarnings.filterwarnings('ignore')\nimport numpy as np\nimport pylops\nimport pyproximal as pp\n\n\ndef done(bad):\n    sys.exit(1 if bad else 0)\n"
only = os.environ.get("ONLY", "").split() if os.environ.get("ONLY") else None


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def stable():
    with open("/opt/vp/BASELINE.json") as f:
        b = json.load(f)
    return b


def bug(id, prop, edits, demo, needs, breaks):
    if only and id not in only:
        return
    wt = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(wt, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", REPO, r])
        if os.path.exists(REPO + "/pyproximal/version.py"):
            shutil.copy(REPO + "/pyproximal/version.py", r + "/pyproximal/version.py")
        for path, old, new in edits:
            p = os.path.join(r, path)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                print(id, "FAIL: %d occurrences of %r" % (s.count(old), old))
                return
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", r, "diff"]).decode()
        # removed lines must be lines of the original repository
        orig = {}
        for path in {e[0] for e in edits}:
            orig[path] = run(["git", "-C", REPO, "show", BASE + ":" + path]).stdout.splitlines()
        for ln in diff.splitlines():
            if ln.startswith("-") and not ln.startswith("---") and ln[1:].strip() and not any(ln[1:] in o for o in orig.values()):
                print(id, "WARNING: line not in the original:", ln)
        d = os.path.join(wt, "demo")
        os.makedirs(d)
        open(d + "/demo.py", "w").write(HEAD + demo)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        a = run(["bash", d + "/demo.sh"], cwd=REPO, timeout=300)
        b = run(["bash", d + "/demo.sh"], cwd=r, timeout=300)
        if a.returncode != 0 or b.returncode == 0:
            print(id, "FAIL: demo %d without, %d with\n%s%s" % (a.returncode, b.returncode, a.stdout[-800:] + a.stderr[-1500:], b.stdout[-800:]))
            return
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "8", "pytests"], cwd=r, env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1"))
        if "unrecognized arguments: -n" in t.stderr:
            t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "pytests"], cwd=r, env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1"))
        last = (t.stdout.strip().splitlines() or ["?"])[-1]
        if t.returncode != 0:
            print(id, "FAIL: tests:", last, "\n".join(l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:600])
            return
        out = os.path.join(VERIF, "seeded", id)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        with open(out + "/meta.json", "w") as f:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        print(id, "ok:", last, "| demo with the patch:", (b.stdout.strip().splitlines() or b.stderr.strip().splitlines() or ["-"])[-1][:150])
    finally:
        shutil.rmtree(wt, ignore_errors=True)


for fn in sys.argv[1:]:
    exec(compile(open(fn).read(), fn, "exec"))
