"""Binding of spec/Dims.tla to hftools.dataset.dim."""
import random
import warnings
import numpy as np
import core
import arrays as A
from arrays import CLS, NONE, dm
import hftools.dataset.arrayobj as ao
from core import limited, Timeout, label

NAMES = ["a", "ab", "b", "freq", "Freq", "f1", ""]
UNITS = [NONE, "Hz", "V", "H"]
CLASSES = ["DimSweep", "DimRep", "DimPartial", "DimAnonymous", "DimMatrix_i", "DimMatrix_j", "DiagAxis", "IndepAxis", "DerivAxis",
           "ComplexDiagAxis", "ComplexIndepAxis", "ComplexDerivAxis", "DimMatrix_Indep_i", "DimMatrix_Deriv_j", "DimBase"]
DIAG = ["DimSweep", "DimRep", "DimPartial", "DimAnonymous", "DimMatrix_i", "DimMatrix_j", "DiagAxis", "ComplexDiagAxis"]


def codes(s):
    return [] if s == NONE else [ord(c) for c in s]


def elem(v):
    if isinstance(v, str):
        return [ord(c) for c in v]
    return [int(round(float(v) * 8))]


def val(v, typ):
    return dict(data=[label(x) for x in v], dk=[elem(x) for x in v], typ=typ if v else "none")


def proj(d):
    return A.proj_dim(d)


class Session(object):
    def __init__(self, init=None):
        self.heap, self.src, self.spec = {}, {}, {}
        self.trace = core.new_trace(dict(ev="reset"))

    def project(self):
        return {r: proj(d) for r, d in self.heap.items()}

    def do(self, o):
        err, out, res = "", {}, None
        try:
            res, out = limited(10, self.perform, o)
        except Timeout:
            err = "timeout"
        except Exception as e:
            err = type(e).__name__
        if not err and res is not None:
            self.heap[o["dst"]] = res
        self.trace.append(dict(ev="op", o=o, err=err, out=out, heap=self.project()))
        return not err

    def perform(self, o):
        op = o["op"]
        h = self.heap
        if op == "new":
            d, raw = o["dim"], o["raw"]
            src = raw
            if o["how"] == "array":
                src = np.array(raw)
            elif o["how"] == "tuple":
                src = tuple(raw)
            elif o["how"] == "nested":
                src = [raw[:1], raw[1:]]
            elif o["how"] == "count":
                src = len(raw)
            elif o["how"] == "iter":
                src = iter(list(raw))
            self.src[o["dst"]] = src
            kw = {}
            if d["unit"] != NONE:
                kw["unit"] = d["unit"]
            if d["fmt"] != NONE:
                kw["outputformat"] = d["fmt"]
            return CLS[d["cls"]](d["name"], src, **kw), {}
        if op == "derive":
            kw = {}
            for k, n in (("name", "name"), ("unit", "unit"), ("fmt", "outputformat")):
                if k in o["over"]:
                    kw[n] = o["over"][k]
            if "data" in o["over"]:
                kw["data"] = o["raw"]
            return CLS[o["cls"]](h[o["x"]], **kw), {}
        if op == "slice":
            g = lambda v: v[0] if v else None
            return h[o["x"]][slice(g(o["a"]), g(o["b"]), g(o["s"]))], {}
        if op == "mask":
            return h[o["x"]][np.array(o["m"], dtype=bool)], {}
        if op in ("indep", "deriv", "diag"):
            return getattr(h[o["x"]], op + "_axis"), {}
        if op == "copy":
            return h[o["x"]].copy(), {}
        if op == "setattr":
            x = h[o["x"]]
            setattr(x, o["a"], dict(name="other", unit="other", outputformat="%q", data=np.array([9, 9])).get(o["a"]))
            return None, {}
        if op == "cmp":
            x, y, z = h[o["x"]], h[o["y"]], h[o["z"]]
            return None, dict(eq=bool(x == y), ne=bool(x != y), lt=bool(x < y), gt=bool(y < x), hasheq=hash(x) == hash(y),
                              ltyz=bool(y < z), ltxz=bool(x < z))
        if op == "lookup":
            c = (ao.Dims if o["via"] == "Dims" else ao.DimsList)([h[r] for r in o["regs"]])
            x = h[o["x"]]
            out = dict(contains=(x.name if o["byname"] else x) in c, index=0, get=0)
            if not o["byname"]:
                try:
                    out["index"] = c.matching_index(x) + 1
                except KeyError:
                    pass
                try:
                    g = c.get_matching_dim(x)
                    out["get"] = [k for k, q in enumerate(c) if q is g][0] + 1
                except KeyError:
                    pass
            return None, out
        if op == "dedup":
            n = len(set(h[r] for r in o["regs"]))
            n2 = len(dict.fromkeys([h[r] for r in reversed(o["regs"])]))
            return None, dict(n=n if n == n2 else -1)
        if op == "sort":
            ids = lambda l: [[r for r in o["regs"] if h[r] is d] for d in l]

            def names(l):
                left = list(o["regs"])
                res = []
                for d in l:
                    k = [r for r in left if h[r] is d][0]
                    left.remove(k)
                    res.append(k)
                return res
            a = sorted(h[r] for r in o["regs"])
            b = sorted(h[r] for r in o["perm"])
            return None, dict(order=names(a), order2=names(b))
        if op == "poke":
            for v in (h[o["x"]].data, np.asarray(ao.hfarray(h[o["x"]], copy=False))):
                try:
                    v[...] = v[::-1].copy() if v.size > 1 else 77
                    if v.dtype.kind in "if":
                        v += 5
                except (ValueError, TypeError):
                    pass
            return None, {}
        if op == "mutsrc":
            s = self.src.get(o["x"])
            if isinstance(s, list) and s:
                if isinstance(s[0], list):
                    s[0][:] = []
                s[:] = [99] * len(s)
            elif isinstance(s, np.ndarray) and s.size:
                s[...] = s[0]
            return None, {}
        raise KeyError(op)


def gen_data(rng, typ=None):
    typ = typ or rng.choice(["int", "int", "float", "text", "none"])
    n = 0 if typ == "none" else rng.randint(1, 3)
    pool = dict(int=[0, 1, 2, 3, 10], float=[0.5, 1.0, 2.0, -1.5, 2.5], text=["lo", "hi", "x1", "x10"], none=[])[typ]
    if typ == "text":
        v = rng.sample(pool, n)
    else:
        v = rng.sample(pool, n)
        if typ == "float":
            v = [float(q) for q in v]
    return v, typ


def compatible(h, regs):
    """no comparison of text with numbers between otherwise tied dimensions"""
    for a in regs:
        for b in regs:
            x, y = h[a], h[b]
            if x.name == y.name and x.sortprio == y.sortprio and type(x) is type(y):
                if any(isinstance(p, str) != isinstance(q, str) for p in x.data.tolist() for q in y.data.tolist()):
                    return False
    return True


def random_trace(job):
    warnings.simplefilter("ignore")
    seed, length = job
    rng = random.Random(seed)
    s = Session()
    few = rng.sample(NAMES, 2)
    cls = rng.sample(CLASSES, 3)
    n = [0]

    def reg():
        if len(s.heap) < 5:
            n[0] += 1
            return "d%d" % n[0]
        return rng.choice(sorted(s.heap))

    def new():
        v, typ = gen_data(rng)
        how = rng.choice(["list", "list", "array", "tuple", "nested", "count", "iter"])
        if how == "count":
            v = list(range(rng.randint(1, 3)))
            typ = "int"
        if typ == "none":
            how = "list"
        if how == "array" and typ == "text":
            how = "list"
        nm, u = rng.choice(few), rng.choice(UNITS)
        d = dict(val(v, typ), cls=rng.choice(cls), name=nm, nk=codes(nm), unit=u, uk=codes(u), fmt=rng.choice([NONE, NONE, "%.3f", "%d"]))
        return dict(op="new", dim=d, raw=v, how=how, dst=reg())

    def recreate():
        x = rng.choice(sorted(s.heap))
        d = s.heap[x]
        u = NONE if d.unit is None else d.unit
        raw = list(d.data.tolist())
        typ = "none" if not raw else "text" if isinstance(raw[0], str) else "int" if isinstance(raw[0], int) else "float"
        if typ == "int" and rng.random() < .4:
            raw, typ = [float(q) for q in raw], "float"
        dim = dict(val(raw, typ), cls=type(d).__name__, name=d.name, nk=codes(d.name), unit=u, uk=codes(u), fmt=rng.choice([NONE, "%.4f"]))
        return dict(op="new", dim=dim, raw=raw, how="list", dst=reg())

    tries = 0
    while len(s.trace) < length + 1 and tries < 8 * length:
        tries += 1
        k = rng.choice(["new", "new", "new", "re", "derive", "derive", "slice", "mask", "axis", "cmp", "cmp", "cmp", "lookup", "lookup", "dedup", "sort", "poke", "mutsrc", "setattr", "copy"])
        if not s.heap or k == "new":
            s.do(new())
            continue
        regs = sorted(s.heap)
        x = rng.choice(regs)
        d = s.heap[x]
        if k == "re":
            o = recreate()
        elif k == "derive":
            over = {}
            raw = None
            if rng.random() < .4:
                over["name"] = rng.choice(few + ["zz"])
                over["nk"] = codes(over["name"])
            if rng.random() < .4:
                over["unit"] = rng.choice(UNITS[1:])
                over["uk"] = codes(over["unit"])
            if rng.random() < .3:
                raw, typ = gen_data(rng)
                over.update(val(raw, typ))
            if rng.random() < .3:
                over["fmt"] = rng.choice(["%.2e", "%s"])
            o = dict(op="derive", x=x, cls=rng.choice(cls), over=over, raw=raw, dst=reg())
        elif k == "slice":
            o = dict(A.rand_slice(rng, len(d.data.tolist())), op="slice", x=x, dst=reg())
            o.pop("t")
        elif k == "mask":
            if not d.data.tolist():
                continue
            o = dict(op="mask", x=x, m=[rng.random() < .6 for _ in d.data.tolist()], dst=reg())
        elif k == "axis":
            c = type(d).__name__
            ok = (["indep", "deriv"] if c in DIAG else []) + (["diag"] if c in ("IndepAxis", "DerivAxis", "ComplexIndepAxis", "ComplexDerivAxis") else [])
            if not ok:
                continue
            o = dict(op=rng.choice(ok), x=x, dst=reg())
        elif k == "copy":
            o = dict(op="copy", x=x, dst=reg())
        elif k == "cmp":
            y, z = rng.choice(regs), rng.choice(regs)
            if not compatible(s.heap, [x, y, z]):
                continue
            o = dict(op="cmp", x=x, y=y, z=z)
        elif k == "lookup":
            rs = [rng.choice(regs) for _ in range(rng.randint(0, 4))]
            via = rng.choice(["Dims", "Dims", "DimsList"])
            o = dict(op="lookup", x=x, regs=rs, via=via, byname=via == "Dims" and rng.random() < .3)
        elif k == "dedup":
            o = dict(op="dedup", regs=[rng.choice(regs) for _ in range(rng.randint(1, 5))])
        elif k == "sort":
            rs = rng.sample(regs, rng.randint(1, len(regs)))
            perm = rs[:]
            rng.shuffle(perm)
            if not compatible(s.heap, rs) or len(set(id(s.heap[r]) for r in rs)) != len(rs):
                continue
            o = dict(op="sort", regs=rs, perm=perm)
        elif k == "setattr":
            o = dict(op="setattr", x=x, a=rng.choice(["name", "unit", "data", "outputformat"]))
        else:
            o = dict(op=k, x=x)
        s.do(o)
    return s.trace


def replay_behaviour(b):
    warnings.simplefilter("ignore")
    s = Session()
    for r, d in sorted(b["init"].items()):
        raw = [A.tonum(v) for v in d["data"]]
        s.do(dict(op="new", dim=d, raw=raw, how="list", dst=r))
    for o in b["ops"]:
        o = dict(o)
        if "over" in o and "data" in o["over"]:
            o["raw"] = [A.tonum(v) for v in o["over"]["data"]]
        if o["op"] in ("slice",):
            for k in "abs":
                o[k] = list(o[k])
        s.do(o)
    return s.trace
