"""Machinery shared by all checks: recording, running TLC, evidence, verdicts."""
import hashlib, json, os, pickle, re, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")
import pyproximal  # noqa: E402

if not os.path.abspath(pyproximal.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.exit("machinery error: pyproximal was not imported from " + REPO)

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- numbers
def num(v):
    return repr(float(v))


def vec(a):
    """flattened row-major; complex entries become re, im pairs"""
    a = np.asarray(a)
    if a.dtype == bool:
        a = a.astype(float)
    a = a.ravel()
    if np.iscomplexobj(a):
        b = np.empty(2 * a.size)
        b[0::2], b[1::2] = a.real, a.imag
        a = b
    return [repr(float(v)) for v in a]


def out(a, cx):
    """an observed result, as the coordinates of the space it must live in (a complex result
    for a real vector is not in that space)"""
    a = np.asarray(a)
    if a.dtype == object:
        return ["nan"]
    if cx:
        return vec(a.astype(complex))
    return vec(a)


def mat(m):
    m = np.asarray(m)
    if np.iscomplexobj(m):
        r = np.zeros((2 * m.shape[0], 2 * m.shape[1]))
        r[0::2, 0::2], r[0::2, 1::2], r[1::2, 0::2], r[1::2, 1::2] = m.real, -m.imag, m.imag, m.real
        m = r
    return [[repr(float(v)) for v in row] for row in m]


# ---------------------------------------------------------------- recording
class Hang(BaseException):
    pass


class Timeout:
    """a limit on the processor time of a call (a machine that is busy with other things is no hang)"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*_):
            raise Hang()
        self.old = signal.signal(signal.SIGPROF, h)
        signal.setitimer(signal.ITIMER_PROF, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


class Stop(Exception):
    """the history cannot be continued"""


def dress(x, k, whole=False):
    """the same array: of integers if it can be, contiguous, every other entry of a larger one, or with its axes laid out the other way round"""
    if whole and k % 4 != 1 and x.dtype == np.float64 and np.all(np.abs(x) < 2 ** 31) and np.all(x == np.rint(x)):
        return x.astype(np.int64)
    if k % 4 == 3 and x.size > 0:
        big = np.full((x.size, 2), np.nan, dtype=x.dtype)
        big[:, 0] = x.ravel()
        if x.ndim == 1:
            return big[:, 0]
        return np.array(x, order="F", copy=True)
    return x.copy()


class Rec:
    """one history: the descriptors of its instances and its events"""
    LIMIT = 30.0

    def __init__(self, ops=()):
        self.ops, self.ev, self.k = list(ops), [], 0

    def d(self, x, F=None):
        self.k += 1
        # (total variation refuses integers)
        return dress(x, self.k, F is not None and "'TV'" not in str(F.desc))

    def boom(self, what, o=1):
        self.ev.append({"e": "boom", "o": o, "what": re.sub(r'[^ -~]', ' ', what)[:300]})

    def call(self, what, fn):
        """(True, result), or (False, None) with the failure recorded"""
        try:
            with Timeout(self.LIMIT), np.errstate(all="ignore"):
                return True, fn()
        except Hang:
            self.boom("hang in " + what)
        except Exception as e:  # noqa: BLE001
            self.boom("%s in %s: %s" % (type(e).__name__, what, e))
        return False, None

    def prox(self, F, op, x, tau, o=1, tol=None, any_=False):
        ok, y = self.call("prox", lambda: op.prox(self.d(x, F), tau))
        if ok:
            self.ev.append({"e": "proxany" if any_ else "prox", "o": o, "x": vec(x), "tau": num(tau),
                            "y": out(y, F.cx), "tol": num(tol or F.tol)})
            if F.cert is not None and not any_:
                self.ev[-1]["cert"] = F.cert(x, tau)
        return y

    def dual(self, F, op, x, tau, o=1, tol=None, ser=False):
        ok, y = self.call("proxdual", lambda: op.proxdual(self.d(x, F), tau))
        if ok:
            # (the point of the operator itself is recovered by a difference)
            tol = (tol or F.tol) + (8e-7 if F.dtype == "float32" else 4e-15) * float(np.abs(x).max(initial=0.0)) / min(tau, 1.0)
            self.ev.append({"e": "dual", "o": o, "x": vec(x), "tau": num(tau), "y": out(y, F.cx),
                            "tol": num(tol), "ser": ser})
            if F.cert is not None:
                self.ev[-1]["cert"] = F.cert(x / tau, 1.0 / tau)
        return y

    def val(self, F, op, x, o=1, tol=None):
        ok, v = self.call("evaluation", lambda: op(self.d(x, F)))
        if ok:
            try:
                v = np.asarray(v)
                if v.size != 1 or (np.iscomplexobj(v) and abs(v.imag) > 1e-12 * (1 + abs(v))):
                    raise TypeError
                v = float(v.real.ravel()[0])
            except TypeError:
                self.boom("non-scalar value %r" % (v,), o)
                return None
            self.ev.append({"e": "val", "o": o, "x": vec(x), "v": num(v), "tol": num(tol or F.vtol)})
        return v

    def inn(self, F, op, x, o=1, tight=None, loose=None, cx=None):
        ok, v = self.call("membership", lambda: op(self.d(x, F)))
        if ok:
            if not isinstance(v, (bool, np.bool_)):
                self.boom("membership returned %r" % (v,), o)
                return None
            self.ev.append({"e": "in", "o": o, "x": vec(x), "v": bool(v), "tight": num(F.tight if tight is None else tight),
                            "loose": num(F.loose if loose is None else loose)})
        return v

    def grad(self, F, op, x, o=1, tol=None, ser=False):
        ok, y = self.call("grad", lambda: op.grad(self.d(x, F)))
        if ok:
            self.ev.append({"e": "grad", "o": o, "x": vec(x), "y": out(y, F.cx), "tol": num(tol or F.tol), "ser": ser})
        return y

    def egrad(self, F, op, x, o=1, tol=None):
        ok, y = self.call("envelope gradient", lambda: op.grad(self.d(x, F)))
        if ok:
            self.ev.append({"e": "egrad", "o": o, "x": vec(x), "env": num(op.sigmame), "y": out(y, F.cx), "tol": num(tol or F.tol)})
            if F.cert is not None:
                self.ev[-1]["cert"] = F.cert(x, float(op.sigmame))
        return y

    def step(self, fn, tau, o=1, ser=False):
        """a call with the given step"""
        try:
            with Timeout(self.LIMIT), np.errstate(all="ignore"):
                fn()
            got = "ok"
        except Hang:
            got = "hang"
        except Exception as e:  # noqa: BLE001
            got = type(e).__name__
        self.ev.append({"e": "step", "o": o, "tau": vec(tau), "got": got, "ser": ser})

    def make(self, c, fn, calls=lambda: 0):
        """a request of the specification's Cases"""
        r = None
        try:
            with Timeout(self.LIMIT), np.errstate(all="ignore"):
                r = fn()
            got = "ok"
        except Hang:
            got = "hang"
        except Exception as e:  # noqa: BLE001
            got = type(e).__name__
        self.ev.append({"e": "make", "o": 1, "c": c, "got": got, "calls": int(calls())})
        return r

    def moreau(self, F, x, tau, p, d, o=1, tol=None):
        self.ev.append({"e": "moreau", "o": o, "x": vec(x), "tau": num(tau), "p": out(p, F.cx), "d": out(d, F.cx),
                        "tol": num(tol or F.tol)})

    def same(self, why, a, b, tol=0.0, o=1):
        self.ev.append({"e": "same", "o": o, "why": why, "a": vec(a), "b": vec(b), "tol": num(tol)})

    def keep(self, why, a, b, o=1):
        self.ev.append({"e": "keep", "o": o, "why": why, "a": a, "b": b})

    def deriv(self, g, u, d, tol, o=1):
        self.ev.append({"e": "deriv", "o": o, "g": vec(g), "u": vec(u), "d": num(d), "tol": num(tol)})

    def leq(self, why, a, b, tol, o=1):
        self.ev.append({"e": "leq", "o": o, "why": why, "a": num(a), "b": num(b), "tol": num(tol)})

    def reject(self, fn, want, what=""):
        """fn must raise one of the named errors"""
        try:
            with Timeout(self.LIMIT), np.errstate(all="ignore"):
                fn()
            got = "no error"
        except Hang:
            got = "hang"
        except Exception as e:  # noqa: BLE001
            got = type(e).__name__
            names = [k.__name__ for k in type(e).__mro__]
            for w in want:
                if w in names:
                    got = w
                    break
        self.ev.append({"e": "reject", "o": 1, "want": list(want), "got": got, "what": what})

    def accept(self, fn, what=""):
        try:
            with Timeout(self.LIMIT), np.errstate(all="ignore"):
                r = fn()
            got = "ok"
        except Hang:
            r, got = None, "hang"
        except Exception as e:  # noqa: BLE001
            r, got = None, "%s: %s" % (type(e).__name__, re.sub(r'[^ -~]', ' ', str(e))[:120])
        self.ev.append({"e": "accept", "o": 1, "got": got, "what": what})
        return r

    def trace(self):
        return {"ops": self.ops or [{"k": "Zero"}], "c": {"alg": "none", "acc_tol": "0"}, "ev": self.ev}


# ---------------------------------------------------------------- running cases
def cpu(pid):
    """processor time of a worker"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def run_cases(cases, nproc=None, stall=120.0, idle=1200, budget=None):
    """cases: list of (name, fn) with fn() -> trace dict (or list of them).  Forked workers; a worker that makes no
    progress (a hang Python cannot interrupt: processor time beyond stall, or asleep for idle looks; or a crash) costs one boom event.
    When the budget (seconds) is used up the cases not done yet are dropped (None)."""
    t0 = time.time()
    nproc = nproc or min(8, os.cpu_count() or 1, max(1, len(cases)))
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    res = [None] * len(cases)
    todo = [list(range(i, len(cases), nproc)) for i in range(nproc)]

    def spawn(w, idx):
        pid = os.fork()
        if pid:
            return pid
        code = 0
        try:
            sys.stdout.flush()
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            for i in idx:
                with open(os.path.join(tmp, "cur%d" % w), "w") as f:
                    f.write(str(i))
                try:
                    t = cases[i][1]()
                except MachineryError:
                    raise
                except Exception:  # noqa: BLE001
                    t = ("error", traceback.format_exc())
                with open(os.path.join(tmp, "res%d" % i), "wb") as f:
                    pickle.dump(t, f)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 3
        os._exit(code)

    alive = {}
    for w in range(nproc):
        if todo[w]:
            alive[w] = [spawn(w, todo[w]), todo[w]]

    def collect(w):
        pid, idx = alive[w]
        done = [i for i in idx if os.path.exists(os.path.join(tmp, "res%d" % i))]
        return done

    try:
        last = {w: [0.0, 0, None, 0.0] for w in alive}       # processor time at the start of the case, looks without any, case
        while alive:
            time.sleep(0.05)
            if budget and time.time() - t0 > budget:
                break
            for w in list(alive):
                pid, idx = alive[w]
                p, st = os.waitpid(pid, os.WNOHANG)
                cf = os.path.join(tmp, "cur%d" % w)
                cur = open(cf).read() if os.path.exists(cf) else None
                now = cpu(pid)
                if cur != last[w][2]:
                    last[w] = [now, 0, cur, now]
                elif p == 0:
                    last[w][1] = last[w][1] + 1 if now - last[w][3] < 0.005 else 0
                    last[w][3] = now
                killed = False
                if p == 0 and (now - last[w][0] > stall or last[w][1] > idle):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    killed = True
                if p or killed:
                    rest = [i for i in idx if not os.path.exists(os.path.join(tmp, "res%d" % i))]
                    del alive[w]
                    if rest:
                        bad = rest[0]
                        r = Rec()
                        r.boom("hang outside Python" if killed else "worker died (status %s)" % st)
                        res[bad] = r.trace()
                        if len(rest) > 1:
                            alive[w] = [spawn(w, rest[1:]), rest[1:]]
                            last[w] = [0.0, 0, None, 0.0]
        for i in range(len(cases)):
            f = os.path.join(tmp, "res%d" % i)
            if os.path.exists(f):
                with open(f, "rb") as fh:
                    res[i] = pickle.load(fh)
            if isinstance(res[i], tuple) and res[i] and res[i][0] == "error":
                raise MachineryError("case %s: %s" % (cases[i][0], res[i][1]))
    finally:
        for pid, _ in alive.values():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        shutil.rmtree(tmp, ignore_errors=True)
    return res


# ---------------------------------------------------------------- TLC
def build_java():
    b = os.path.join(VERIF, "build")
    srcs = [os.path.join(VERIF, "java", f) for f in ("Num.java", "NumValue.java")]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    stamp = os.path.join(b, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(os.path.join(b, "Num.class")):
        return b
    os.makedirs(b, exist_ok=True)
    p = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", b] + srcs, capture_output=True, text=True)
    if p.returncode:
        raise MachineryError("javac: " + p.stderr)
    with open(stamp, "w") as f:
        f.write(h)
    return b


class TLCResult:
    def __init__(self):
        self.fails, self.states, self.generated, self.prints, self.wall, self.out = [], 0, 0, [], 0.0, ""
        self.violated, self.coverage = None, {}


def run_tlc(spec, cfg, env=None, workers=8, timeout=840, coverage=False, extra=(), expect_violation=False, heap="-Xmx8g", want_override=True):
    """run TLC on spec (a module name in spec/); raises MachineryError unless it finished normally"""
    b = build_java()
    md = tempfile.mkdtemp(prefix="verif-tlc-")
    e = dict(os.environ)
    e.update(env or {})
    sp = os.path.join(VERIF, "spec")
    if os.path.exists(cfg):
        cfgp = cfg
    else:
        cfgp = os.path.join(sp, cfg)
    cmd = ["java", "-XX:+UseParallelGC", heap, "-Xss64m", "-Djava.io.tmpdir=" + md, "-cp", b + ":" + JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", cfgp] + (["-coverage", "1"] if coverage else []) + list(extra) + [os.path.join(sp, spec + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=md)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on " + spec)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TLCResult()
    r.wall = time.time() - t0
    r.out = p.stdout
    for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', p.stdout):
        r.fails.append((int(m.group(1)), int(m.group(2)), m.group(3)))
    r.prints = [ln for ln in p.stdout.splitlines() if ln.startswith("<<")]
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    if m:
        r.generated, r.states = int(m.group(1)), int(m.group(2))
    if want_override and "Loading RAdd operator override" not in p.stdout:
        raise MachineryError("the arithmetic override was not loaded\n" + p.stdout[-2000:] + p.stderr[-2000:])
    m = re.search(r"Invariant (\w+) is violated|Temporal properties were violated|Temporal property (?:\w+) was violated|Action property (\w+)[^\n]* is violated", p.stdout)
    if m:
        r.violated = m.group(1) or m.group(2) or "temporal"
    if not r.violated and ("Model checking completed. No error has been found" not in p.stdout and "-simulate" not in extra):
        raise MachineryError("TLC did not finish on %s\n%s\n%s" % (spec, p.stdout[-3000:], p.stderr[-2000:]))
    if r.violated and not expect_violation and spec.endswith("Trace"):
        raise MachineryError("trace specification invariant violated: " + p.stdout[-3000:])
    return r


def tmpjson(obj):
    fd, path = tempfile.mkstemp(prefix="verif-tr-", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(obj, f)
    return path


def validate(spec, traces, workers=8, timeout=840, nstates=None):
    """traces through the trace specification; every trace must be consumed to its end"""
    path = tmpjson(traces)
    try:
        r = run_tlc(spec, spec + ".cfg", env={"TRACES": path}, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)
    want = sum(len(t["ev"]) + 1 for t in traces) if nstates is None else nstates
    if r.states != want:
        raise MachineryError("%s: %d states, %d expected: some history was not consumed\n%s" % (spec, r.states, want, r.out[-3000:]))
    return r
