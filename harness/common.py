"""Shared machinery of the checks: scratch space, TLC runs, verdicts, evidence."""
import atexit, json, os, re, resource, shutil, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/"
CP = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
T0 = time.time()

_scratch = None


def scratch():
    """One scratch directory per check run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf_", dir="/tmp")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def subdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


class MachineryError(Exception):
    pass


_specdir = None


def spec_classes():
    """Compile the Java overrides of module Float once per run."""
    global _specdir
    if _specdir is None:
        d = subdir("classes")
        r = subprocess.run(["javac", "-cp", TLA + "tla2tools.jar", "-d", d,
                            os.path.join(SPEC, "Float.java")], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac: " + r.stderr)
        _specdir = d
    return _specdir


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            self.generated = int(m[-1])
        self.ok = "No error has been found" in out or (rc == 0 and "Error:" not in out)

    def lines(self, tag):
        """Payloads printed by PrintT(tag \\o ...)"""
        res = []
        for ln in self.out.splitlines():
            if ln.startswith('"' + tag + " "):
                try:
                    res.append(json.loads(ln)[len(tag) + 1:])
                except ValueError:
                    res.append(ln[len(tag) + 2:-1])
        return res


def run_tlc(module, cfg_text, name, files=None, simulate=None, depth=None, seed=None,
            workers=1, timeout=600, heap="3g", extra=()):
    """Run TLC on /verif/spec/<module>.tla with the given configuration text."""
    d = subdir("tlc_" + name)
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".json"):
            shutil.copy(os.path.join(SPEC, f), d)
    for f in os.listdir(spec_classes()):
        shutil.copy(os.path.join(spec_classes(), f), d)
    for fn, text in (files or {}).items():
        with open(os.path.join(d, fn), "w") as h:
            h.write(text)
    with open(os.path.join(d, "run.cfg"), "w") as h:
        h.write(cfg_text)
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
           "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-config", "run.cfg"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    log = os.path.join(d, "tlc.log")
    with open(log, "w") as h:
        # a file, limited in size: a flood of output must not fill the memory
        p = subprocess.Popen(cmd, cwd=d, stdout=h, stderr=subprocess.STDOUT,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (2 ** 28, 2 ** 28)))
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            raise MachineryError("TLC timed out on " + module)
    with open(log, errors="replace") as h:
        res = TLCResult(h.read(), rc)
    res.dir = d
    return res


def tla(v):
    """Python value -> TLA+ constant expression for a .cfg file or module text."""
    if v is True: return "TRUE"
    if v is False: return "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v.replace("\\", "\\\\")
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def cfg(spec="Spec", constants=None, invariants=(), properties=(), deadlock=False, extra=""):
    out = ["SPECIFICATION " + spec]
    if constants:
        out.append("CONSTANTS")
        out += ["  %s = %s" % (k, v if isinstance(v, str) and v.startswith("@") is False and False else tla(v))
                for k, v in constants.items()]
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    for p in properties:
        out.append("PROPERTY " + p)
    out.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(out) + "\n" + extra


def fl(x):
    """A float as the string module Float reads."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return "nan"
    if x != x: return "nan"
    if x in (float("inf"), float("-inf")): return "inf" if x > 0 else "-inf"
    return repr(x)


def judge(module, events, name, constants=None, shards=8, timeout=800, spec="Spec"):
    """Let TLC judge recorded events (a list of cases; a case is a list of events).

    Cases are spread over parallel TLC processes.  Returns (list of
    (case index, event index, clause, detail)), generated states, steps)."""
    from concurrent.futures import ThreadPoolExecutor
    cases = [c for c in events]
    if not cases:
        return [], 0, 0
    n = max(1, min(shards, len(cases)))
    weights = [(len(json.dumps(c)), i) for i, c in enumerate(cases)]
    bins = [[0, []] for _ in range(n)]
    for w, i in sorted(weights, reverse=True):
        b = min(bins, key=lambda t: t[0])
        b[0] += w + 200
        b[1].append(i)

    def one(k):
        idx = sorted(bins[k][1])
        lines, back = [], []
        for i in idx:
            lines.append(json.dumps({"ev": "begin", "case": i}))
            back.append((i, -1))
            for j, e in enumerate(cases[i]):
                lines.append(json.dumps(e))
                back.append((i, j))
        r = run_tlc(module, cfg(spec=spec, constants=constants), "%s_%d" % (name, k),
                    files={"trace.ndjson": "\n".join(lines) + "\n"}, timeout=timeout)
        done = r.lines("DONE")
        bad = []
        if not done or int(done[-1]) != len(lines):
            # a record of a shape the specification gives no meaning to (a missing entry, a list too short)
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", r.out, re.M)
            if not at or not re.search(r"out of bounds|not in the domain|outside the domain|Attempted to ", r.out):
                raise MachineryError("TLC did not finish judging %s: %s" % (name, tail(r.out)))
            i, j = back[min(int(at[-1]), len(back)) - 1]
            why = re.search(r".*(?:out of bounds|domain|Attempted to ).*", r.out)
            bad.append((i, j, "failed", "record does not fit the specification: %s" % why.group(0)[:300]))
        for b in r.lines("BAD"):
            ln, clause, detail = (b.split(" ", 2) + ["", ""])[:3]
            i, j = back[int(ln) - 1]
            bad.append((i, j, clause, detail))
        return bad, r.generated, len(lines)

    bad, gen, steps = [], 0, 0
    with ThreadPoolExecutor(n) as ex:
        for b, g, s in ex.map(one, range(n)):
            bad += b
            gen += g
            steps += s
    bad = sorted(set(bad))
    return bad, gen, steps


def tail(s, n=40):
    keep = [l for l in s.splitlines() if not l.startswith("Loading ") and "module" not in l]
    return "\n".join(keep[-n:])[-4000:]


def work(jobs, timeout=400, procs=8, script="worker.py"):
    """Run jobs of worker.py, each in its own process; returns their results in order.

    A job that crashes or does not finish comes back as {"crash": text}."""
    from concurrent.futures import ThreadPoolExecutor
    env = dict(os.environ)
    env.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", NUMBA_OPT="0",
               VF_REPO=REPO, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", HOME=scratch(),
               PYTHONWARNINGS="ignore", MPLCONFIGDIR=subdir("mpl"))
    env.pop("PYTHONPATH", None)

    def one(t):
        i, job = t
        d = tempfile.mkdtemp(prefix="job_", dir=subdir("jobs"))
        with open(os.path.join(d, "job.json"), "w") as h:
            json.dump(job, h)
        os.makedirs(os.path.join(d, "cwd"))
        e = dict(env, PYTHONHASHSEED=str(i % 100))       # as in real use, sets and hashes come in another order every time
        e.update(job.get("env", {}))
        try:
            r = subprocess.run([PY, os.path.join(VERIF, "harness", script), d],
                               cwd=os.path.join(d, "cwd"), env=e, capture_output=True, text=True,
                               timeout=job.get("timeout", timeout))
            f = os.path.join(d, "out.json")
            if os.path.exists(f):
                with open(f) as h:
                    res = json.load(h)
            else:
                res = {"crash": "worker ended with %s: %s" % (r.returncode, (r.stderr or r.stdout)[-1500:])}
        except subprocess.TimeoutExpired:
            res = {"crash": "did not finish within %s s" % job.get("timeout", timeout)}
        if not job.get("keep"):
            shutil.rmtree(d, True)
        return res

    with ThreadPoolExecutor(procs) as ex:
        return list(ex.map(one, enumerate(jobs)))


# ---------------------------------------------------------------------- verdict

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.viol = []          # (clause, human text, reproduction object)
        self.known = load_known(pid)
        self.seen_known = {}

    def model(self, name, r, need=1):
        """Account for an exhaustive TLC run on the design; a failure here is ours."""
        if not r.ok or r.distinct < need:
            raise MachineryError("design model %s: %s" % (name, tail(r.out)))
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", {})[name] = dict(distinct=r.distinct, generated=r.generated)

    def violation(self, clause, text, repro):
        for k in self.known:
            if k["clause"] == clause and re.search(k["match"], text):
                self.seen_known[k["id"]] = k
                return
        self.viol.append((clause, text, repro))

    def finish(self):
        for k in self.seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:5])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2),
                  violations=len(self.viol))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        if self.viol:
            rp = os.path.join(VERIF, "evidence", "replay_%s.json" % self.pid)
            with open(rp, "w") as h:
                json.dump([dict(clause=c, what=t, repro=r) for c, t, r in self.viol[:20]], h, indent=1, default=str)
            for c, t, _ in self.viol[:10]:
                print("  %s: %s" % (c, t[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d (%.1fs)" %
              (self.pid, self.states, self.transitions, self.traces, time.time() - T0))
        return 0


def load_known(pid):
    """known_findings.txt: lines 'known: property=C01 id=... clause=... match=... what=...'
    (fields separated by ' | ') and 'fixed: property=...' lines, which suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("known: "):
                f = dict(x.split("=", 1) for x in ln[7:].strip().split(" | "))
                if f.get("property") == pid:
                    res.append(f)
    return res


def quick():
    return TIER != "thorough"


def main(fn):
    """Run a check function; turn machinery failures into exit 2."""
    try:
        rc = fn()
    except MachineryError as e:
        print("MACHINERY ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
