"""Shared machinery: running TLC, recording traces, validating them against the
trace specifications, evidence, replay files and verdicts."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 1)
P = 46337
IM = 2601


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


def limited(seconds, fn, *a, **k):
    """fn(*a, **k) with a time limit"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*a, **k)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- TLC
def classpath():
    d = os.path.dirname(JAR)
    jars = [JAR] + [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != "tla2tools.jar"]
    return ":".join(jars)


def tlc(module, cfg, scratch, env=None, workers=1, extra=(), timeout=800, heap="2g"):
    """Runs TLC on SPEC/module with the configuration text or file cfg."""
    md = tempfile.mkdtemp(prefix="md", dir=scratch)
    if "\n" in cfg:
        path = os.path.join(md, "run.cfg")
        with open(path, "w") as f:
            f.write(cfg)
    else:
        path = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap,
           "-XX:TieredStopAtLevel=4",
           "-DTLA-Library=" + SPEC, "-cp", classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md,
           "-workers", str(workers), "-config", path] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=md)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b"").decode("utf-8", "replace")
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else out)
    if not m:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


def errtext(out):
    k = max(0, out.find("Error:"))
    return out[k:k + 1500] + "\n ... " + out[-1500:]


class MachineryError(Exception):
    pass


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.scratch = tempfile.mkdtemp(prefix="hfv_%s_" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.opcount = {}
        self.samples = []
        self.violations = []       # (replay path, text)
        self.known = set()
        self.assumptions = []
        self.notes = {}
        self.findings = load_findings(prop)
        self.enough = 5            # lines without meaning in the specification per part before giving up

    # ---- exhaustive model checking of the specification
    def model_check(self, module, cfg, workers=NCPU, timeout=700, heap="8g"):
        rc, out = tlc(module, cfg, self.scratch, workers=workers, timeout=timeout, heap=heap)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("model checking of %s failed (rc %d):\n%s" % (module, rc, errtext(out)))
        d, g = tlc_stats(out)
        self.states += d
        self.transitions += g
        self.notes.setdefault("models", []).append(dict(module=module, distinct_states=d, transitions=g))
        return d, g

    def behaviours(self, module, cfg, num, depth, workers=1, timeout=300, cap=10):
        """operation histories generated by TLC simulating the specification"""
        rc, out = tlc(module, cfg, self.scratch, workers=workers, timeout=timeout, heap="4g",
                      extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(self.seed)])
        res = []
        for l in out.splitlines():
            if l.startswith('"BEHAVIOUR '):
                res.append(json.loads(json.loads(l)[10:]))
            elif l.startswith("BEHAVIOUR "):
                res.append(json.loads(l[10:]))
        if not res:
            raise MachineryError("no behaviours from %s:\n%s" % (module, errtext(out)))
        if len(res) > num * cap:
            res = self.rng.sample(res, num * cap)
        self.notes.setdefault("generated_behaviours", []).append(dict(module=module, behaviours=len(res)))
        return res

    # ---- conformance of recorded traces
    def validate(self, module, traces, cfg="Trace.cfg", chunks=NCPU, timeout=800, label=None):
        """traces: list of lists of events (each starting with a reset).
        Every event of every trace is checked by TLC against the trace spec."""
        crashed = [t for t in traces if t[0].get("raw")]
        traces = [t for t in traces if len(t) > 1]
        if not traces and not crashed:
            raise MachineryError("no traces recorded for %s" % module)
        if not traces:
            traces = [[dict(ev="reset", heap={})]]
        chunks = max(1, min(chunks, len(traces)))
        # balance by event count
        order = sorted(range(len(traces)), key=lambda k: -len(traces[k]))
        parts = [[] for _ in range(chunks)]
        for n, k in enumerate(order):
            parts[n % chunks].append(k)

        def viols(out, where):
            bad = []
            for l in out.splitlines():
                if l.startswith('"VIOL '):
                    l = json.loads(l)
                if l.startswith("VIOL "):
                    d = json.loads(l[5:])
                    bad.append((where[d["line"] - 1], sorted(d["why"])))
            return bad

        def one(part):
            part = list(part)
            extra = []
            while True:
                fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.scratch)
                where = []
                with os.fdopen(fd, "w") as f:
                    for k in part:
                        for j, ev in enumerate(traces[k]):
                            f.write(json.dumps(tlc_view(ev)) + "\n")
                            where.append((k, j))
                rc, out = tlc(module, cfg, self.scratch, env=dict(TRACE=path), timeout=timeout, heap="3g")
                os.unlink(path)
                if rc == 0 and "No error has been found" in out:
                    break
                # an evaluation error while explaining a line: that line has no
                # meaning in the specification; report it, go on without its trace
                m = re.findall(r"^/\\ i = (\d+)", out, re.M)
                if not m or int(m[-1]) > len(where):
                    raise MachineryError("trace validation of %s failed:\n%s" % (module, errtext(out)))
                k, j = where[int(m[-1]) - 1]
                why = re.findall(r"^Error: (.*(?:\n.*){0,6})", out, re.M)
                extra.append(((k, j), ["not explained by the specification: " + (why[0][:600] if why else "")]))
                part.remove(k)
                if not part:
                    return extra, 0, 0
                if len(extra) >= self.enough:
                    return viols(out, where) + extra, 0, 0
            bad = viols(out, where)
            d, g = tlc_stats(out)
            if d != len(where) + 1:
                raise MachineryError("trace validation of %s consumed %d of %d lines" % (module, d - 1, len(where)))
            return bad + extra, d, g

        with ThreadPoolExecutor(chunks) as ex:
            results = list(ex.map(one, parts))
        for bad, d, g in results:
            self.states += d
            self.transitions += g
            for (k, j), why in bad:
                self.report(module, traces[k], j, why)
        for t in crashed[:3]:
            if not self.violations:
                self.report("driver", t + [dict(ev="stop", o=dict(op="driver"), detail=t[0]["raw"])], len(t),
                            ["the driver cannot go on with what the code returned: " + t[0]["raw"].strip().splitlines()[-1]])
        self.traces += len(traces)
        for t in traces:
            for ev in t[1:]:
                self.events += 1
                o = ev.get("o") or {}
                key = str(o.get("op", ev.get("ev")))
                if isinstance(o.get("f"), str):
                    key += ":" + str(o["f"])
                self.opcount[key] = self.opcount.get(key, 0) + 1
        if len(self.samples) < 3:
            # long cases (whole files as characters) are cut: the evidence stays readable
            self.samples.append([e if len(json.dumps(e)) <= 2000 else json.dumps(e)[:2000] + " ..." for e in
                                 [ev.get("o", ev) for ev in traces[len(traces) // 2]][:6]])

    def report(self, module, trace, j, why):
        ev = trace[j]
        text = "; ".join(why)
        for k in self.findings:
            if k["match"](ev, text):
                self.known.add(k["text"])
                return
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, module=module, seed=self.seed, tier=self.tier, failing_event=j,
                           why=why, op=ev.get("o", ev), trace=trace[:j + 1]), f, indent=1, default=str)
        self.violations.append((path, text + "  | " + json.dumps(ev.get("o", ev), default=str)[:400] + " err=" + str(ev.get("err"))))

    def simple_violation(self, what, detail):
        self.report("harness", [dict(ev="reset"), dict(ev="fail", o=dict(op=what), detail=detail)], 1, [what])

    # ---- verdict
    def finish(self):
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for path, text in self.violations[:int(os.environ.get("VERIF_SHOW", "20"))]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("   " + text[:600])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples[:3],
                                events_validated=self.events, operations=self.opcount, **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s: %d states, %d transitions, %d traces / %d events validated, %d violations, %.1f s" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.events, len(self.violations),
            time.time() - self.t0))
        return 1 if self.violations else 0


DRIVER_ONLY = ("raw", "py", "dtype", "npf")


def tlc_view(v):
    """the event without what only the driver needs (TLC's JSON has no null and no reals)"""
    if isinstance(v, dict):
        return {k: tlc_view(x) for k, x in v.items() if k not in DRIVER_ONLY and x is not None}
    if isinstance(v, (list, tuple)):
        return [tlc_view(x) for x in v]
    return v


def load_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    res = []
    if os.path.exists(path):
        for k in json.load(open(path)).get("known", []):
            if k["property"] != prop:
                continue

            def match(ev, text, k=k):
                o = json.dumps(ev.get("o", ev), sort_keys=True)
                return all(s in o for s in k["op_contains"]) and any(s in text for s in k["why_contains"])
            res.append(dict(text=k["text"], match=match))
    return res


# ---------------------------------------------------------------- numbers
def rational(x, maxden=5000, tol=1e-9):
    """exact small rational behind the float x, or None"""
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        return None
    fr = Fraction(x).limit_denominator(maxden)
    if abs(float(fr) - x) > tol * max(1.0, abs(x)):
        return None
    return fr


def residue(fr):
    if fr.denominator % P == 0:
        return -1
    return fr.numerator * pow(fr.denominator, P - 2, P) % P


def gf(z, maxden=5000, tol=1e-9):
    """(residue of z, residue of conj z) for a complex number"""
    z = complex(z)
    a, b = rational(z.real, maxden, tol), rational(z.imag, maxden, tol)
    if a is None or b is None:
        return -1, -1
    ra, rb = residue(a), residue(b)
    if ra < 0 or rb < 0:
        return -1, -1
    return (ra + IM * rb) % P, (ra - IM * rb) % P


def encode_values(flat, iscomplex, maxden=5000, tol=1e-9):
    """flat: python list of numbers -> (num, vals, cj)"""
    if not iscomplex:
        ints = []
        for v in flat:
            f = float(v)
            r = round(f) if f == f and abs(f) < 2 ** 20 else None
            if r is None or abs(f - r) > tol * max(1.0, abs(f)):
                ints = None
                break
            ints.append(int(r))
        if ints is not None:
            return "int", ints, []
        return "gf", [gf(v, maxden, tol)[0] for v in flat], []
    pairs = [gf(v, maxden, tol) for v in flat]
    return "gf", [p[0] for p in pairs], [p[1] for p in pairs]


def label(v):
    """coordinate label of a dimension as text"""
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    if isinstance(v, (float, np.floating)):
        return "%.12g" % v
    if isinstance(v, bytes):
        return v.decode("latin-1")
    return str(v)


CURRENT = []


def new_trace(first):
    """the list a driver records its events in"""
    global CURRENT
    CURRENT = [first]
    return CURRENT


class Salvage(object):
    """runs a driver; when it cannot go on (the code under test handed back something
    no operation of the library returns) what was recorded so far is kept and marked"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, job):
        global CURRENT
        CURRENT = []
        try:
            return self.fn(job)
        except Exception:
            t = CURRENT or [dict(ev="reset", heap={})]
            t[0]["raw"] = traceback.format_exc()
            return t


def run_parallel(fn, jobs, n=NCPU):
    """fn(job) for each job in forked worker processes, results in order"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    with ctx.Pool(min(n, max(1, len(jobs)))) as pool:
        return pool.map(Salvage(fn), jobs, chunksize=max(1, len(jobs) // (n * 4) or 1))
