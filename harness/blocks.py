"""Binding of spec/Blocks.tla to hftools.dataset.DataBlock."""
import random
import re
import warnings
import numpy as np
import core
import arrays as A
from arrays import hfarray, NONE, dm
from hftools.dataset import DataBlock
from hftools.dataset.dataset import convert_matrices_to_elements
from core import limited, Timeout, label, encode_values

EDITS = ("setvar", "setdim", "del", "rename", "repdim", "setfmt", "fmtall", "setunit")
READS = ("get", "contains")
ELEM = re.compile(r"^([A-Za-z_]+)([1-9])([1-9])$")


def proj_block(b):
    return dict(vars=[dict(n=k, a=A.project(v)) for k, v in b.vardata.items()],
                ivars=[dict(n=k, d=A.proj_dim(v)) for k, v in b.ivardata.items()])


def elem_of(n):
    m = ELEM.match(n)
    return (m.group(1), int(m.group(2)), int(m.group(3))) if m else (NONE, 0, 0)


def perform(o, bs):
    op = o["op"]
    if op == "newblock":
        b = DataBlock()
        b.blockname = "blk"
        return b, {}
    b = bs[o["b"]]
    if op == "setvar":
        arr = A.build(o["arr"], o["raw"], o["dtype"])
        if o.get("attr"):
            setattr(b, o["n"], arr)
        else:
            b[o["n"]] = arr
    elif op == "setdim":
        d = A.build_dim(o["d"])
        b[d.name] = d
    elif op == "del":
        if o.get("attr"):
            delattr(b, o["n"])
        else:
            del b[o["n"]]
    elif op == "rename":
        b.rename(o["n"], o["new"])
    elif op == "repdim":
        new = A.CLS[o["tocls"]] if o["tocls"] != NONE else A.build_dim(o["d"])
        b.replace_dim(b.ivardata[o["old"]] if o.get("byobj") and o["old"] in b.ivardata else o["old"], new)
    elif op == "setfmt":
        b.set_outputformat(o["n"], o["f"])
    elif op == "fmtall":
        b.outputformat = o["f"]
    elif op == "setunit":
        b[o["n"]].unit = None if o["u"] == NONE else o["u"]
    elif op == "get":
        r = getattr(b, o["n"]) if o.get("attr") else b[o["n"]]
        if not isinstance(r, np.ndarray):
            r = hfarray(r, dims=())
        if r.dtype.kind not in "bifuc":
            return b, dict(arr=dict(dims=[A.proj_dim(d) for d in r.dims], shape=list(r.shape), num="int", vals=[0] * r.size, cj=[], unit=NONE, fmt=NONE))
        return b, dict(arr=A.project(r))
    elif op == "contains":
        return b, dict(isin=o["n"] in b)
    elif op == "copy":
        return b.copy(), {}
    elif op == "view":
        return b.view(), {}
    elif op == "keep":
        return b.keep_variables(o["names"]), {}
    elif op == "filter":
        d = b.ivardata[o["dim"]]
        if o["mode"] == "mask":
            return b.filter(hfarray(np.array(o["m"], dtype=bool), dims=(d,))), {}
        vals = [A.tonum(x) for x in o["want"]]
        return b.filter(hfarray(np.array(vals), dims=(d.__class__(d, data=list(vals)),))), {}
    elif op == "filterother":
        return b.filter(hfarray(np.array([1, 2]), dims=(dm.DimSweep("elsewhere", [1, 2]),))), {}
    elif op == "sort":
        d = b.ivardata[o["dim"]]
        if o["by"] == "dim":
            return b.sort(b[o["dim"]] if o.get("arr") else d), {}
        return b.sort(hfarray(np.array(o["keys"]), dims=(d,))), {}
    elif op == "squeeze":
        return b.squeeze(), {}
    elif op == "norep":
        return b.remove_rep(o["newname"]), {}
    elif op == "hyper":
        kw = {}
        if o["indexed"]:
            kw["indexed"] = True
        if not o["all"]:
            kw["all"] = False
        return b.hyper(o["dimnames"], o["rdim"] if o.get("byname") else b.ivardata[o["rdim"]], **kw), {}
    elif op == "elements":
        return convert_matrices_to_elements(b), {}
    elif op == "interp":
        d = A.build_dim(o["d"])
        if o.get("asarr"):
            d = hfarray(d)
        return b.interpolate(d, None if o["mode"] == "none" and not o.get("named") else o["mode"]), {}
    else:
        raise KeyError(op)
    return b, {}


class Session(object):
    def __init__(self):
        self.bs, self.proj = {}, {}
        self.trace = core.new_trace(dict(ev="reset", heap={}))

    def do(self, o):
        err, out, res = "", {}, None
        try:
            res, out = limited(20, perform, o, self.bs)
        except Timeout:
            err = "timeout"
        except Exception as e:
            err = type(e).__name__
        if not err and o["op"] not in READS:
            self.bs[o["dst"]] = res
        self.proj = {r: proj_block(b) for r, b in self.bs.items()}
        self.trace.append(dict(ev="op", o=o, err=err, out=out, heap=self.proj))
        return not err


VARN = ["S", "Z", "a", "b2", "Vd", "T21", "_q", "S11", "Z12", "ax"]
MATN = ["S", "Z", "T"]


class Ctx(object):
    def __init__(self, rng):
        self.rng = rng
        self.s = Session()
        self.g = A.Gen(rng)
        self.n = self.nd = 0
        self.vary = False
        self.noelem = set()    # blocks whose values are shared with another one
        self.b = None

    def reg(self):
        if len(self.s.bs) < 3:
            self.n += 1
            return "b%d" % self.n
        return self.rng.choice(sorted(self.s.bs))

    def newblock(self):
        r = self.reg()
        self.s.do(dict(op="newblock", dst=r))
        self.noelem.discard(r)
        return r

    def dims_for(self, b, k=None, matrix=False, avoid=()):
        """dims for a new variable: registered ones as they are, else from the pool"""
        rng = self.rng
        reg = {v["n"]: v["d"] for v in self.s.proj[b]["ivars"]}
        pool = dict((d["name"], d) for d in self.g.dims.values())
        pool.update(reg)
        vn = [v["n"] for v in self.s.proj[b]["vars"]]
        names = [n for n in pool if n not in "ij" and n not in vn and n not in avoid and not n.startswith("ANON")]
        k = rng.choice([0, 1, 1, 2, 2, 3]) if k is None else k
        ds = [pool[n] for n in rng.sample(names, min(k, len(names)))]
        if self.vary:
            # the same dimension with other labels or unit than the registered one
            ds = [d if d["name"] not in reg or rng.random() > .15 else
                  dict(d, unit="kg") if rng.random() < .5 else dict(d, data=[str(50 + 3 * q) for q in range(len(d["data"]))]) for d in ds]
        if matrix:
            ij = [pool["i"], pool["j"]]
            if ij[0]["cls"] != "DimMatrix_i" or ij[1]["cls"] != "DimMatrix_j":
                return ds
            ds = ds[:2] + ij
        return ds

    def setvar(self, b, n=None, dims=None, kind=None):
        rng = self.rng
        P = self.s.proj[b]
        ivn = [v["n"] for v in P["ivars"]]
        n = n or rng.choice([v for v in VARN if v not in ivn])
        mat, i, j = elem_of(n)
        va = {v["n"]: v["a"] for v in P["vars"]}
        if any(elem_of(v)[0] == n for v in va) and (dims is not None or n in MATN):
            return None        # a matrix and a separate variable named like its element
        if dims is None:
            dims = self.dims_for(b, matrix=n in MATN and rng.random() < .7, avoid=(n,))
        kind = kind or rng.choice(["int", "float", "frac", "cplx"])
        if mat in va and A_ismatrix(va[mat]) and not any(d["cls"] == "DimMatrix_i" for d in dims):
            m = va[mat]
            if b in self.noelem or not trailing(m) or n in va:
                return None
            dims = [d for d in m["dims"][:-2]]
            dims = rng.sample(dims, rng.choice([len(dims), len(dims), rng.randint(0, len(dims))]))
            kind = "cplx" if m["cj"] else rng.choice(["int", "float"])
            if not m["cj"] and self.s.bs[b].vardata[mat].dtype.kind in "iu":
                kind = "int"
        o = self.g.array(dims=dims, kind=kind)
        return dict(o, op="setvar", b=b, n=n, mat=mat, i=i, j=j, dst=b, attr=rng.random() < .5 and not n.startswith("_"), labels=[])


def A_ismatrix(a):
    return any(d["cls"] == "DimMatrix_i" for d in a["dims"]) and any(d["cls"] == "DimMatrix_j" for d in a["dims"])


def trailing(a):
    return len(a["dims"]) >= 2 and a["dims"][-2]["cls"] == "DimMatrix_i" and a["dims"][-1]["cls"] == "DimMatrix_j"


def used(P):
    return set(d["name"] for v in P["vars"] for d in v["a"]["dims"])


def sound(P):
    """dims of a name agree everywhere, labels fit"""
    reg = {v["n"]: v["d"] for v in P["ivars"]}
    for v in P["vars"]:
        if not A.consistent(v["a"]) or not A.uniquenames(v["a"]):
            return False
        for d in v["a"]["dims"]:
            if d["name"] in reg and (d["data"] != reg[d["name"]]["data"] or d["cls"] != reg[d["name"]]["cls"]):
                return False
    return not (set(reg) & set(v["n"] for v in P["vars"]))


def edit_op(c, b):
    rng = c.rng
    P = c.s.proj[b]
    vn = [v["n"] for v in P["vars"]]
    ivn = [v["n"] for v in P["ivars"]]
    reg = {v["n"]: v["d"] for v in P["ivars"]}
    k = rng.choice(["setvar"] * 6 + ["elem"] * 3 + ["setdim", "setdimdata", "del", "del", "rename", "rename", "repdim", "repdim", "setfmt", "fmtall", "setunit",
                                                  "get", "get", "get", "contains", "copy", "copy", "view", "keep"])
    if k == "setvar":
        return c.setvar(b)
    if k == "elem":
        m = [v for v in P["vars"] if A_ismatrix(v["a"]) and trailing(v["a"]) and v["n"] in MATN]
        if not m:
            return c.setvar(b, n=rng.choice(["S", "Z"]), dims=c.dims_for(b, matrix=True))
        v = rng.choice(m)
        n = len(v["a"]["dims"][-2]["data"])
        nm = "%s%d%d" % (v["n"], rng.randint(1, max(n, 2)), rng.randint(1, max(n, 2)))
        if rng.random() < .4:
            mat, i, j = elem_of(nm)
            return dict(op="get", b=b, n=nm, mat=mat, i=i, j=j, dst=b, attr=rng.random() < .5)
        return c.setvar(b, n=nm, dims=[])
    if k == "setdim":
        free = [d for d in c.g.dims.values() if d["name"] not in used(P) and d["name"] not in vn and d["name"] not in "ij"]
        return dict(op="setdim", b=b, d=rng.choice(free), dst=b) if free else None
    if k == "setdimdata":
        ok = [n for n in ivn if n in used(P) and n not in "ij"]
        if not ok:
            return None
        n = rng.choice(ok)
        if rng.random() < .15:
            ds = [d for d in reg.values() if d["name"] in ok][:2]
            if len(ds) < 2:
                return None
            o = c.g.array(dims=ds, kind="int")
            return dict(o, op="setvar", b=b, n=n, mat=NONE, i=0, j=0, dst=b, labels=[])
        m = len(reg[n]["data"])
        raw = rng.sample(range(-9, 30), m)
        arr = dict(dims=[reg[n]], shape=[m], num="int", vals=raw, cj=[], unit=NONE, fmt="%d")
        return dict(op="setvar", b=b, n=n, mat=NONE, i=0, j=0, dst=b, arr=arr, raw=raw, dtype="int64", labels=[label(x) for x in raw], attr=rng.random() < .5)
    if k == "del":
        return dict(op="del", b=b, n=rng.choice(vn + ["nosuch"]), dst=b, attr=rng.random() < .3)
    if k == "rename":
        pool = [n for n in vn + ivn if n not in "ij"]
        if not pool:
            return None
        c.nd += 1
        return dict(op="rename", b=b, n=rng.choice(pool), new="n%s" % "abcdefghijklmnopqrstuvwxyz"[c.nd % 26], dst=b) \
            if "n%s" % "abcdefghijklmnopqrstuvwxyz"[c.nd % 26] not in vn + ivn else None
    if k == "repdim":
        if not ivn or rng.random() < .1:
            return dict(op="repdim", b=b, old="nosuch", d=c.g.dims[("DimSweep", "f")], tocls=NONE, dst=b)
        n = rng.choice([x for x in ivn])
        if n in "ij":
            return None
        d = reg[n]
        if rng.random() < .35:
            return dict(op="repdim", b=b, old=n, d=d, tocls=rng.choice(["DimSweep", "DimRep", "DiagAxis"]), dst=b, byobj=rng.random() < .5)
        nm = rng.choice([n, "zz", "yy"])
        if nm != n and nm in vn + ivn:
            return None
        new = dict(cls=rng.choice(["DimSweep", "DimRep", d["cls"]]), name=nm, data=[str(200 + 7 * q) for q in range(len(d["data"]))],
                   unit=rng.choice([NONE, "m"]), fmt="%d")
        return dict(op="repdim", b=b, old=n, d=new, tocls=NONE, dst=b, byobj=rng.random() < .5)
    if k == "setfmt":
        return dict(op="setfmt", b=b, n=rng.choice(vn + ivn + ["nosuch"]), f=rng.choice(["%.2f", "%.7e"]), dst=b)
    if k == "fmtall":
        return dict(op="fmtall", b=b, f=rng.choice(["%.1f", "%.9e"]), dst=b)
    if k == "setunit":
        return dict(op="setunit", b=b, n=rng.choice(vn), u=rng.choice([NONE, "V", "kg"]), dst=b) if vn else None
    if k in ("get", "contains"):
        n = rng.choice(vn + ivn + VARN + ["nosuch", "S123", "S21", "Z21", "a11"])
        mat, i, j = elem_of(n)
        va = {v["n"]: v["a"] for v in P["vars"]}
        if n not in vn + ivn and mat in va and A_ismatrix(va[mat]) and not trailing(va[mat]):
            return None
        return dict(op=k, b=b, n=n, mat=mat, i=i, j=j, dst=b, attr=k == "get" and rng.random() < .5 and not n.startswith("_"))
    return xform(c, b, k)


def done(c, o):
    """taint bookkeeping after a transformation"""
    if o["op"] != "copy":
        c.noelem.add(o["dst"])
        c.noelem.add(o["b"])
    else:
        c.noelem.discard(o["dst"])
    return o


def ints(d):
    try:
        return [int(x) for x in d["data"]]
    except ValueError:
        return None


def xform(c, b, k):
    rng = c.rng
    P = c.s.proj[b]
    vn = [v["n"] for v in P["vars"]]
    reg = {v["n"]: v["d"] for v in P["ivars"]}
    dst = c.reg()
    if k in ("copy", "view"):
        return done(c, dict(op=k, b=b, dst=dst))
    if k == "keep":
        names = rng.sample(vn, rng.randint(0, len(vn))) + (["nosuch"] if rng.random() < .3 else [])
        rng.shuffle(names)
        return done(c, dict(op="keep", b=b, names=names, dst=dst))
    if not sound(P):
        return None
    U = [n for n in reg if n in used(P) and n not in "ij"]
    if k == "filter":
        if rng.random() < .06:
            return done(c, dict(op="filterother", b=b, dst=dst))
        if not U:
            return None
        n = rng.choice(U)
        d = reg[n]
        if rng.random() < .5:
            return done(c, dict(op="filter", mode="mask", b=b, dim=n, m=[rng.random() < .6 for _ in d["data"]], dst=dst))
        if not all(isinstance(A.tonum(x), (int, float)) for x in d["data"]) or len(set(d["data"])) != len(d["data"]):
            return None
        want = rng.sample(d["data"], rng.randint(1, len(d["data"]))) if d["data"] else []
        if rng.random() < .3:
            want.append("4711")
        if not want:
            return None
        return done(c, dict(op="filter", mode="values", b=b, dim=n, want=want, dst=dst))
    if k == "sort":
        if not U:
            return None
        n = rng.choice(U)
        d = reg[n]
        v = ints(d)
        if rng.random() < .6 and v is not None and len(set(v)) == len(v):
            return done(c, dict(op="sort", b=b, dim=n, by="dim", keys=v, dst=dst, arr=rng.random() < .5)) if len(v) > 1 else None
        keys = list(range(len(d["data"])))
        rng.shuffle(keys)
        return done(c, dict(op="sort", b=b, dim=n, by="array", keys=keys, dst=dst)) if len(keys) > 1 else None
    if k == "squeeze":
        return done(c, dict(op="squeeze", b=b, dst=dst))
    if k == "norep":
        reps = [d for d in (v["d"] for v in P["ivars"]) if d["cls"] == "DimRep"]
        data = [ints(d) for d in reps]
        if not reps or any(x is None for x in data) or any(d["name"] in vn for d in reps):
            return None
        N = 1
        for d in data:
            N *= len(d)
        if N > 12 or N == 0:
            return None
        if any(sum(d["cls"] == "DimRep" for d in v["a"]["dims"]) and A.CLS and np.prod([n for d, n in zip(v["a"]["dims"], v["a"]["shape"]) if d["cls"] != "DimRep"] or [1]) * N > 100 for v in P["vars"]):
            return None
        nm = rng.choice(["AllReps", "rr"])
        if nm in reg or nm in vn:
            return None
        return done(c, dict(op="norep", b=b, newname=nm, repdata=data, dst=dst))
    if k == "elements":
        if any(A_ismatrix(v["a"]) and not trailing(v["a"]) for v in P["vars"]):
            return None
        news = ["%s%d%d" % (v["n"], i + 1, j + 1) for v in P["vars"] if A_ismatrix(v["a"]) for i in range(v["a"]["shape"][-2]) for j in range(v["a"]["shape"][-1])]
        if set(news) & set(vn):
            return None
        return done(c, dict(op="elements", b=b, dst=dst))
    if k == "interp":
        if not U:
            return None
        n = rng.choice(U)
        d = reg[n]
        v = ints(d)
        if v is None or len(set(v)) != len(v) or not v:
            return None
        if rng.random() < .6 or v != sorted(v) or len(v) < 2 or any(x["a"]["cj"] == [] and x["a"]["num"] == "gf" and -1 in x["a"]["vals"] for x in P["vars"]):
            data = rng.sample(d["data"], rng.randint(1, len(v)))
            if rng.random() < .12:
                data.append("4711")
            return done(c, dict(op="interp", mode="none", b=b, d=dict(d, data=data), dst=dst, asarr=rng.random() < .4, named=rng.random() < .3))
        lo, hi = min(v), max(v)
        newx = sorted(rng.choice(range(lo, hi + 1)) for _ in range(rng.randint(1, 4)))
        if rng.random() < .15:
            newx.append(hi + 1)
        for x in P["vars"]:
            if not A.exactish(c.s.bs[b].vardata[x["n"]], 12) or A.magnitude(c.s.bs[b].vardata[x["n"]]) > 500:
                return None
        return done(c, dict(op="interp", mode="linear", b=b, d=dict(d, data=[str(x) for x in newx]), newx=newx, oldx=v, dst=dst, asarr=rng.random() < .4))
    raise KeyError(k)


def prep_hyper(c, b):
    """index variables over one dimension, then hyper"""
    rng = c.rng
    P = c.s.proj[b]
    rdim = "f"
    reg = {v["n"]: v["d"] for v in P["ivars"]}
    k = rng.choice([1, 2, 2, 3])
    sizes = [rng.choice([1, 2, 3]) for _ in range(k)]
    while np.prod(sizes) > 6:
        sizes[rng.randrange(k)] = 1
    N = int(np.prod(sizes))
    labs = [rng.sample(range(-5, 40), n) for n in sizes]
    pts = [tuple(labs[q][i[q]] for q in range(k)) for i in np.ndindex(*sizes)]
    rng.shuffle(pts)
    if rng.random() < .12:
        pts[-1] = pts[0]
    b = c.newblock()
    idx = dict(cls=rng.choice(["DimSweep", "DimRep"]), name="idx", data=[str(x) for x in range(N)], unit=NONE, fmt="%d")
    other = c.g.dims[("DimSweep", "v")]
    names = ["pa", "pb", "pc"][:k]
    order = names + ["y", "w", "M"]
    rng.shuffle(order)
    for nm in order:
        if nm in names:
            raw = [p[names.index(nm)] for p in pts]
            arr = dict(dims=[idx], shape=[N], num="int", vals=raw, cj=[], unit=rng.choice([NONE, "V"]), fmt="%d")
            c.s.do(dict(op="setvar", b=b, n=nm, mat=NONE, i=0, j=0, dst=b, arr=arr, raw=raw, dtype="int64", labels=[]))
        else:
            ds = {"y": [idx, other], "w": [other], "M": [idx]}[nm]
            if nm == "y" and rng.random() < .5:
                ds = ds[::-1]
            if nm == "M" and rng.random() < .5:
                ds = [idx, c.g.dims[("DimMatrix_i", "i")], c.g.dims[("DimMatrix_j", "j")]]
            o = c.setvar(b, n=nm, dims=ds)
            c.s.do(o)
    dn = names[:]
    rng.shuffle(dn)
    return done(c, dict(op="hyper", b=b, dimnames=dn, rdim="idx", indexed=rng.random() < .4, all=rng.random() < .7, byname=rng.random() < .5, dst=c.reg()))


def random_trace(job):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    seed, mode, length = job
    rng = random.Random(seed)
    c = Ctx(rng)
    c.vary = mode == "edit"
    c.newblock()
    tries = 0
    while len(c.s.trace) < length + 1 and tries < length * 8:
        tries += 1
        if len(c.s.bs) < 2 and rng.random() < .1:
            c.newblock()
            continue
        b = rng.choice(sorted(c.s.bs))
        P = c.s.proj[b]
        if mode == "edit":
            o = edit_op(c, b)
        else:
            if len(P["vars"]) < 3:
                k = rng.random()
                o = c.setvar(b, dims=c.dims_for(b, rng.choice([1, 2, 2, 3]), matrix=rng.random() < .3))
            else:
                k = rng.choice(["setvar", "edit", "edit", "edit", "filter", "filter", "filter", "filter", "sort", "sort", "sort", "squeeze", "norep", "norep", "elements", "interp", "interp", "keep", "copy", "hyper", "hyper"])
                o = c.setvar(b) if k == "setvar" else edit_op(c, b) if k == "edit" else prep_hyper(c, b) if k == "hyper" else xform(c, b, k)
        if o is None:
            continue
        tot = sum(int(np.prod(v["a"]["shape"] or [1])) for v in P["vars"])
        if tot > 400:
            break
        c.s.do(o)
        if any(-1 in v["a"]["vals"] and v["a"]["num"] == "gf" and False for p in c.s.proj.values() for v in p["vars"]):
            break
    return c.s.trace


def replay_behaviour(b):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    s = Session()
    for r in sorted(b["init"]):
        s.do(dict(op="newblock", dst=r))
        for v in b["init"][r]["vars"]:
            s.do(dict(op="setvar", b=r, n=v["n"], mat=NONE, i=0, j=0, arr=v["a"], raw=None, dtype=None, labels=[], dst=r))
    shared = set()
    for o in b["ops"]:
        o = dict(o)
        if o["op"] == "setvar":
            o.update(raw=None, dtype=None)
            if o["mat"] != NONE and o["b"] in shared:
                break
        if o["op"] in ("keep",):
            shared |= {o["b"], o["dst"]}
        s.do(o)
    return s.trace
