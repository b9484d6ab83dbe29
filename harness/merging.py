"""Binding of spec/Merge.tla to hftools.file_formats.merge.merge_blocks."""
import random
import warnings
import numpy as np
import core
import arrays as A
from arrays import hfarray, NONE, dm
from hftools.dataset import DataBlock
from hftools.file_formats.common import Comments
from hftools.file_formats import merge_blocks
from core import limited, Timeout, label


def proj_arr(a, aslabel=False):
    arr = np.asarray(a)
    if aslabel or arr.dtype.kind in "US":
        return dict(dims=[A.proj_dim(d) for d in a.dims], shape=list(arr.shape), num="lab", vals=[label(x) for x in arr.ravel().tolist()], cj=[],
                    unit=A.enc_meta(a.unit), fmt="~")
    r = A.project(a)
    r["fmt"] = "~"
    return r


def proj_block(b, params=()):
    return dict(vars=[dict(n=k, a=proj_arr(v, k in params)) for k, v in b.vardata.items()],
                ivars=[dict(n=k, d=A.proj_dim(v)) for k, v in b.ivardata.items()],
                name=str(b.blockname), cmt=list(b.comments.fullcomments) if b.comments else [])


class Session(object):
    def __init__(self):
        self.trace = core.new_trace(dict(ev="reset"))

    def merge(self, bs, hyper):
        params = set(k for b in bs for k, d in b.ivardata.items() if isinstance(d, dm.DimPartial))
        ins = [proj_block(b) for b in bs]
        err, out = "", {}
        try:
            kw = dict(hyper=True) if hyper else {}
            out = proj_block(limited(20, merge_blocks, list(bs), **kw), params)
        except Timeout:
            err = "timeout"
        except Exception as e:
            err = type(e).__name__
        self.trace.append(dict(ev="op", o=dict(op="merge", ins=ins, hyper=hyper), err=err, out=out, after=[proj_block(b) for b in bs]))


def ivar_order(b, parts, first):
    """register the parameters before or after the variables' dimensions"""
    for n, v, u in parts:
        b[n] = dm.DimPartial(n, [v], unit=u)


def random_trace(job):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    seed, length = job
    rng = random.Random(seed)
    s = Session()
    for _ in range(length):
        one(rng, s)
    return s.trace


POOL = [("DimSweep", "f", [10, 20, 30]), ("DimSweep", "v", [1.5, -2.5]), ("DimRep", "r", [0, 1]), ("DimSweep", "o", [4]), ("DimSweep", "g", [7, 3, 5]),
        ("DimRep", "q", [0, 1, 2])]


def one(rng, s):
    ngroups = 2 if rng.random() < .12 else 1
    blocks = []
    hyper = rng.random() < .5
    for g in range(ngroups):
        k = rng.choice([1, 1, 2, 2, 3])
        names = [["p", "Vg", "Temp"], ["w", "u2", "lot"]][g][:k]
        kinds = [rng.choice(["int", "int", "float", "text"]) for _ in names]
        sizes = [rng.choice([1, 2, 2, 3]) for _ in names]
        while np.prod(sizes) > 6:
            sizes[rng.randrange(k)] = 1
        pools = dict(int=lambda n: rng.sample(range(-20, 50), n), float=lambda n: [x / 8. for x in rng.sample(range(-20, 50), n)],
                     text=lambda n: rng.sample(["a", "bb", "chip7", "longer text", "Q"], n))
        labs = [pools[kd](n) for kd, n in zip(kinds, sizes)]
        pts = [tuple(labs[q][i[q]] for q in range(k)) for i in np.ndindex(*sizes)]
        rng.shuffle(pts)
        if rng.random() < .25 and len(pts) > 1:
            pts = pts[:-1] if rng.random() < .5 else pts[:-1] + [pts[0]]
        units = [rng.choice([None, "V", "K"]) for _ in names]
        vars_ = []
        used = {}
        for nm in rng.sample([["S", "x", "y", "z1", "Tx"], ["S2", "x2", "yy", "zz"]][g], rng.randint(1, 3)):
            ds = rng.sample(POOL, rng.choice([0, 1, 1, 2, 2, 3]))
            dims = [A.CLS[c](n, d) for c, n, d in ds]
            if nm in ("S", "S2") and rng.random() < .7:
                dims = dims[:2] + [dm.DimMatrix_i("i", 2), dm.DimMatrix_j("j", 2)]
            kind = rng.choice(["int", "float", "cplx", "text"] if not nm.startswith("S") else ["int", "float", "cplx"])
            vars_.append((nm, dims, kind, rng.choice([None, "A", "Hz"])))
        permute = rng.random() < .15
        early = rng.random() < .5
        loose = rng.random() < .15                    # parameters come in any order
        mine = []
        for p in pts:
            b = DataBlock()
            b.blockname = rng.choice(["b%d" % len(mine), "name x"])
            parts = list(zip(names, p, units))
            if loose and rng.random() < .5:
                rng.shuffle(parts)
            if early:
                ivar_order(b, parts, True)
            vs = vars_[:]
            if rng.random() < .5:
                rng.shuffle(vs)
            for nm, dims, kind, unit in vs:
                if permute and rng.random() < .5 and len(dims) > 1 and not any(isinstance(d, dm.DimMatrix_i) for d in dims):
                    dims = dims[:]
                    rng.shuffle(dims)
                shape = [len(d.data) for d in dims]
                n = int(np.prod(shape)) if shape else 1
                if kind == "text":
                    v = np.array([rng.choice(["u", "vw", "xyz longer"]) for _ in range(n)])
                elif kind == "int":
                    v = np.array([rng.randint(-999, 999) for _ in range(n)])
                elif kind == "float":
                    v = np.array([rng.randint(-999, 999) / 8. for _ in range(n)])
                else:
                    v = np.array([complex(rng.randint(-99, 99), rng.randint(-99, 99)) for _ in range(n)])
                if kind == "int" and rng.random() < .2:
                    v = v * 1.
                b[nm] = hfarray(v.reshape(shape), dims=tuple(dims), unit=unit)
            if not early:
                ivar_order(b, parts, False)
            if rng.random() < .5:
                b.comments = Comments(["c%d %s" % (len(blocks) + len(mine), x) for x in rng.sample(["alpha", "beta: 3", "gamma"], rng.randint(0, 2))])
            mine.append(b)
        if rng.random() < .06 and len(mine) > 1:      # a variable missing in one block
            b = rng.choice(mine)
            nm = rng.choice(list(b.vardata.keys()))
            if any(nm in x.vardata for x in mine if x is not b):
                del b[nm]
        if rng.random() < .15:                        # one value only one block has
            rng.choice(mine)["only%d" % g] = hfarray(rng.randint(-99, 99), unit=rng.choice([None, "V"]))
        blocks.append(mine)
    if rng.random() < .1:                             # blocks without parameters
        mine = []
        for q, nm in enumerate(rng.sample(["n1", "n2", "n3"], rng.randint(1, 2))):
            b = DataBlock()
            dims = [A.CLS[c](n, d) for c, n, d in rng.sample(POOL, rng.choice([0, 1, 2]))]
            shape = [len(d.data) for d in dims]
            b[nm if rng.random() < .9 else "n1"] = hfarray(np.array([rng.randint(-99, 99) for _ in range(int(np.prod(shape)) if shape else 1)]).reshape(shape), dims=tuple(dims), unit=rng.choice([None, "V"]))
            mine.append(b)
        blocks.append(mine)
    allb = [b for m in blocks for b in m]
    if len(blocks) > 1 and rng.random() < .5:
        order = list(range(len(allb)))
        rng.shuffle(order)
        allb = [allb[k] for k in order]
    if len(allb) < 1:
        return
    s.merge(allb, hyper)


def build_block(x):
    b = DataBlock()
    b.blockname = x["name"]
    for iv in x["ivars"]:
        b[iv["n"]] = A.build_dim(iv["d"])
    for v in x["vars"]:
        b[v["n"]] = A.build(v["a"])
    b.comments = Comments(list(x["cmt"]))
    return b


def replay_behaviour(bh):
    warnings.simplefilter("ignore")
    s = Session()
    bs = [build_block(x) for x in bh["ins"]]
    s.merge(bs, False)
    s.merge(bs, True)
    return s.trace
