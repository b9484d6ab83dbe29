"""selftest.py <property> [n]: how tightly the trace specification is bound to what is observed.

Runs the drivers of a check on the real code, changes one observed fact in each recorded
trace (a number, a text, a flag, an element of a list) and lets the specification judge the
altered traces. Prints, for every kind of observation, how many alterations were noticed.
Alterations that go unnoticed are either observations the contract leaves open or
a looseness of the specification. Not a registered check; changes nothing outside /verif/out."""
import copy, os, random, sys, re, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import warnings
warnings.simplefilter("ignore")
import core

prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 600
rng = random.Random(prop)
SKIP = ("ev", "o") + core.DRIVER_ONLY


def leaves(v, path):
    if isinstance(v, dict):
        for k, x in v.items():
            if k not in core.DRIVER_ONLY:
                yield from leaves(x, path + (k,))
    elif isinstance(v, (list, tuple)):
        if len(v):
            yield path + ("#",)
        for k, x in enumerate(v):
            yield from leaves(x, path + (k,))
    elif v is not None:
        yield path


def alter(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 7]) if v != 0 else 1
    if isinstance(v, str):
        return v + "x" if v else "x"
    return None


def altered(trace):
    js = [j for j in range(1, len(trace)) if any(True for k in trace[j] if k not in SKIP)]
    if not js:
        return None
    j = rng.choice(js)
    t = [copy.deepcopy(e) for e in trace[:j + 1]]
    ls = [p for k in t[j] if k not in SKIP for p in leaves(t[j][k], (k,))]
    if not ls:
        return None
    groups = collections.defaultdict(list)
    for p in ls:
        groups[tuple(str(x) if isinstance(x, str) else "*" for x in p)].append(p)
    g = rng.choice(sorted(groups))
    p = rng.choice(groups[g])
    node = t[j]
    drop = p[-1] == "#"
    q = p[:-1] if drop else p
    for k in q[:-1]:
        node = node[k]
    if drop:
        l = list(node[q[-1]])
        del l[rng.randrange(len(l))]
        node[q[-1]] = l
    else:
        w = alter(node[q[-1]])
        if w is None:
            return None
        node[q[-1]] = w
    o = t[j].get("o") or {}
    return t, (str(o.get("op", t[j].get("ev"))), ".".join(g)), p


class Self(core.Check):
    def model_check(self, *a, **k):
        return 0, 0

    def validate(self, module, traces, **k):
        traces = [t for t in traces if len(t) > 1]
        res = []
        while len(res) < n:
            r = altered(rng.choice(traces))
            if r:
                res.append(r)
        seen = set()
        self.report = lambda module, trace, j, why: seen.add(id(trace))
        core.Check.validate(self, module, [r[0] for r in res], **k)
        score = collections.Counter(), collections.Counter()
        alive = collections.defaultdict(list)
        for t, g, p in res:
            hit = id(t) in seen
            score[hit][g] += 1
            if not hit:
                alive[g].append((p, t[-1]))
        print("%s: %d of %d alterations noticed" % (module, sum(score[1].values()), len(res)))
        for g in sorted(set(score[0])):
            print("   %-50s unnoticed %d of %d" % (" ".join(g), score[0][g], score[0][g] + score[1][g]))
            if os.environ.get("SHOW"):
                p, e = rng.choice(alive[g])
                print("       ", p, str(e)[:int(os.environ["SHOW"])])


c = Self(prop, "quick", int(os.environ.get("VERIF_SEED", "1")))
c.enough = 10 ** 6
os.environ["MPLCONFIGDIR"] = c.scratch
import checks
checks.CHECKS[prop](c)
import shutil
shutil.rmtree(c.scratch, ignore_errors=True)
