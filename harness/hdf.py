"""Binding of spec/Hdf.tla to hftools.file_formats.hdf5."""
import os
import random
import h5py
import numpy as np
import core
import files as fs
import columns as co
from files import hfarray, dm, DataBlock, Comments
from hftools.file_formats.hdf5 import read_hdf5, save_hdf5, append_hdf5

RES = {"D": 0, "h": 1, "m": 2, "s": 3, "ms": 4, "us": 5, "ns": 6}
WORDS = ["a", "chip 7", "N/A", "longer text here", "å", ""]


# ---------------------------------------------------------------- observing
def tok(v):
    if isinstance(v, bytes):
        return "bytes:" + v.decode("latin-1")
    if isinstance(v, str):
        return "t:" + v
    if isinstance(v, np.datetime64):
        return "d:" + str(v.astype("M8[us]"))
    if isinstance(v, (bool, np.bool_)):
        return "n:%d" % bool(v)
    if isinstance(v, (complex, np.complexfloating)) and v.imag:
        return "c:%r,%r" % (float(v.real), float(v.imag))
    try:
        f = float(v.real)
    except Exception:
        return "?" + repr(v)
    return "n:%d" % int(f) if f == f and abs(f) < 1e15 and repr(f) != "-0.0" and f == int(f) else "n:%r" % f


UNITS = [None, None, "V", "Hz", "%", "N", "n", "On", "dBm", "V/Hz", "\xb5m", "non e", "s"]


def tokens(a, dt):
    out = [tok(x) for x in np.asarray(a).ravel()]
    if dt["k"] == "c":
        out = ["c:" + t[2:] if t.startswith("c:") else t for t in out]
    return out


def dtype(a):
    d = np.asarray(a).dtype
    if d.kind == "M":
        return dict(k="M", n=RES.get(np.datetime_data(d)[0], 9))
    if d.kind == "O" and all(isinstance(x, str) for x in np.asarray(a).ravel()):
        return dict(k="U", n=0)
    return dict(k=d.kind if d.kind != "u" else "i", n=0 if d.kind == "U" else d.itemsize // (2 if d.kind == "c" else 1))


def dim(d):
    return dict(cls=type(d).__name__, name=d.name, data=[tok(x) for x in np.asarray(d.data).ravel()], unit=fs.unit_of(d.unit))


def var(n, v):
    dt = dtype(v)
    return dict(n=n, dt=dt, dims=[dim(d) for d in v.dims], vals=tokens(v, dt), unit=fs.unit_of(v.unit), fmt=str(v.outputformat))


def observe(b):
    return dict(vars=[var(n, v) for n, v in b.vardata.items()], ivars=[dim(d) for d in b.ivardata.values()],
                cmt=[str(c) for c in (b.comments.fullcomments if b.comments else [])], name="~" if b.blockname is None else str(b.blockname))


# ---------------------------------------------------------------- generating
def data(rng, kind, shape):
    n = int(np.prod(shape)) if len(shape) else 1
    if kind == "b":
        a = np.array([rng.random() < .5 for _ in range(n)])
    elif kind[0] == "i":
        a = np.array([rng.randint(-9999, 9999) for _ in range(n)], dtype=kind)
    elif kind[0] == "f":
        a = np.array([rng.choice([rng.uniform(-1, 1) * 10 ** rng.randint(-15, 15), float(rng.randint(-99, 99)), -0.5, rng.choice([float("nan"), float("inf"), 1e300, -0.0])]) for _ in range(n)], dtype=kind)
    elif kind[0] == "c":
        a = np.array([complex(rng.uniform(-9, 9), rng.randint(-9, 9)) for _ in range(n)], dtype=kind)
    elif kind == "U":
        a = np.array([rng.choice(WORDS) for _ in range(n)])
    else:
        a = np.array([np.datetime64(rng.randint(-10 ** 9, 2 * 10 ** 9), "s") + np.timedelta64(rng.randint(0, 999999), "us") for _ in range(n)]).astype(kind)
    return a.reshape(shape)


KINDS = ["b", "i8", "i8", "i4", "f8", "f8", "f8", "f4", "c16", "c16", "c8", "U", "U", "M8[us]", "M8[s]", "M8[D]"]
NAMES = ["S", "Vds", "x", "a/b", "b2/a1 raw", "long name", "P[1,2]", "t", "zz", "datablock", "Δ"]


def labels(rng, n):
    r = rng.random()
    if r < .5:
        return [float(x) / 8 for x in rng.sample(range(-99, 999), n)]
    if r < .7:
        return rng.sample(range(-99, 99), n)
    if r < .85:
        return rng.sample(["a", "bb", "chip7", "longer label", "Q", "7"], n)
    if r < .95:
        return np.array(["2012-08-13T08:03:01", "1969-01-01T00:00:01", "2020-02-29T12:00:00", "2001-01-01T01:01:01.5"][:n], dtype="M8[us]")
    return [complex(k, -k) for k in range(n)]


def layout(rng):
    """(dims of the block, [(name, kind, dims, unit, fmt)])"""
    pool = []
    for n in rng.sample(["f", "Vgs", "rep", "p/q", "q r", "t0"], rng.randint(1, 3)):
        m = rng.randint(1, 4)
        pool.append((dm.DimRep if n == "rep" else rng.choice([dm.DimSweep, dm.DimSweep, dm.DimRep]))(n, labels(rng, m), unit=rng.choice(UNITS)))
    out = []
    for n in rng.sample(NAMES, rng.randint(1, 5)):
        ds = rng.sample(pool, rng.choice([0, 1, 1, 2, 3][:2 + len(pool)]))
        kind = rng.choice(KINDS)
        if rng.random() < .25 and kind not in ("U", "b") and kind[0] != "M":
            k = rng.randint(1, 3)
            ds += [dm.DimMatrix_i("i", 2), dm.DimMatrix_j("j", 2)] if k == 1 else [dm.DimMatrix_j("j", 2)] if k == 2 else [dm.DimMatrix_i("i", 2)]
        # (the text of a format is only meaningful for plain numbers)
        out.append((n, kind, ds, rng.choice(UNITS), rng.choice(["%.3f", "%.2e"]) if kind[0] == "f" and rng.random() < .4 else None))
    return pool, out


def make(rng, lay, change=None):
    pool, vs = lay
    b = DataBlock()
    if rng.random() < .4:
        b.blockname = rng.choice(["meas 1", "x"])
    vs = list(vs)
    if rng.random() < .4:
        rng.shuffle(vs)
    k = rng.randrange(len(vs))
    if change == "missing":
        del vs[k]
    for q, (n, kind, ds, unit, fmt) in enumerate(vs):
        ds = list(ds)
        if q == k:
            if change == "order":
                rng.shuffle(ds)
            elif change == "kind":
                kind = rng.choice(KINDS)
            elif change == "shape" and ds and not isinstance(ds[0], (dm.DimMatrix_i, dm.DimMatrix_j)):
                m = len(ds[0].data)
                ds[0] = type(ds[0])(ds[0].name, 1 if m > 1 and rng.random() < .5 else m + 1)
            elif change == "fewer" and ds:
                del ds[rng.randrange(len(ds))]
        if q == k and change == "dim" and not ds:
            b[n] = dm.DimPartial(n, [1])
            continue
        b[n] = hfarray(data(rng, kind, [len(d.data) for d in ds]), dims=tuple(ds), unit=unit)
        if fmt:
            b[n].outputformat = fmt
    if rng.random() < .2 and not change:
        b["part"] = dm.DimPartial("part", [rng.choice([3.5, "lot 7"])], unit=rng.choice(UNITS))
    if rng.random() < .4:
        b.comments = Comments([rng.choice(co.REMARKS) for _ in range(rng.randint(1, 2))])
    return b


class File(object):
    """one file, opened anew for every operation or kept open"""
    def __init__(self, rng, d):
        self.rng, self.name, self.handle = rng, os.path.join(d, "data.hdf5"), None

    def close(self):
        if self.handle is not None:
            self.handle.close()
            self.handle = None

    def save(self, b, ver, exp, x):
        self.close()
        kw = dict(version=ver)
        if exp:
            kw.update(expandable=True)
            if x is not None:
                kw.update(expanddim=x)
        if self.rng.random() < .6:
            save_hdf5(b, self.name, **kw)
        else:
            self.handle = h5py.File(self.name, "w")
            save_hdf5(b, self.handle, **kw)

    def append(self, b, x):
        if self.handle is None:
            self.handle = h5py.File(self.name, "a")
        kw = {} if x is None else dict(expanddim=x)
        try:
            append_hdf5(b, self.handle, **kw)
        finally:
            if self.rng.random() < .5:
                self.close()

    def read(self):
        if self.handle is not None and self.rng.random() < .5:
            return observe(read_hdf5(self.handle))
        self.close()
        return observe(read_hdf5(self.name))


def exdim(x, first):
    return dict(name=x.name, cls=type(x).__name__, unit=fs.unit_of(x.unit), first=first, n=1)


DEFAULT = dict(name="INDEX", cls="DimRep", unit="~", first=0, n=1)


def step(trace, f, op, o, fn):
    res, err = fs.attempt(fn)
    trace.append(dict(ev="op", o=dict(o, op=op), err=err, out=res or {}))
    return not err


def save(trace, rng, f, lay, ver=None, exp=None, b=None):
    ver = ver or rng.choice(["0.2", "0.2", "0.2", "0.1"])
    exp = ver == "0.2" and rng.random() < .75 if exp is None else exp
    x, xv = None, DEFAULT
    if exp and rng.random() < .3:
        first = rng.choice([0, 1, 7])
        x = rng.choice([dm.DimRep, dm.DimSweep])(rng.choice(["run", "INDEX", "n x"]), [first], unit=rng.choice(UNITS))
        xv = exdim(x, first)
    b = b or make(rng, lay)
    step(trace, f, "save", dict(ver=ver, exp=exp, x=xv, block=observe(b)), lambda: f.save(b, ver, exp, x))
    return x, xv


def read(trace, f):
    step(trace, f, "read", {}, f.read)


def append(trace, rng, f, b, x, xv):
    step(trace, f, "append", dict(block=observe(b), x=xv), lambda: f.append(b, x))


def random_trace(job):
    fs.quiet()
    seed, length = job
    rng = random.Random(seed)
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        f = File(rng, d)
        lay = layout(rng)
        x, xv = save(trace, rng, f, lay)
        read(trace, f)
        for k in range(length):
            r = rng.random()
            if r < .08:
                if rng.random() < .6:
                    lay = layout(rng)
                x, xv = save(trace, rng, f, lay)
            elif r < .5:
                ch = rng.choice(["missing", "order", "kind", "shape", "fewer", "dim"]) if rng.random() < .35 else None
                xx, xxv = x, xv
                if rng.random() < .04:
                    xx = dm.DimRep("other", 1)
                    xxv = exdim(xx, 0)
                append(trace, rng, f, make(rng, lay, ch), xx, xxv)
                if ch or rng.random() < .3:
                    read(trace, f)
            else:
                read(trace, f)
        f.close()
    return trace


def built(rng, b):
    """a block from its description in the specification"""
    def label(t):
        return t[2:] if t[0] == "t" else int(t[2:])
    dims = {}

    def get(d):
        cls = getattr(dm, d["cls"])
        return dims.setdefault((d["name"], len(d["data"])), cls(d["name"], [label(t) for t in d["data"]], unit=None if d["unit"] == "~" else d["unit"]))
    out = DataBlock()
    for v in b["vars"]:
        ds = tuple(get(d) for d in v["dims"])
        out[v["n"]] = hfarray(np.array([label(t) for t in v["vals"]], dtype="%s%d" % (v["dt"]["k"], v["dt"]["n"])).reshape([len(d.data) for d in ds]), dims=ds, unit=v["unit"])
    out.comments = Comments(b["cmt"])
    return out


def replay_behaviour(bh):
    """operations of MCHdf"""
    fs.quiet()
    rng = random.Random(len(bh["ops"]))
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        f = File(rng, d)
        for o in bh["ops"]:
            b = built(rng, bh["pool"][o["k"] - 1])
            if o["op"] == "save":
                step(trace, f, "save", dict(ver=o["ver"], exp=o["exp"], x=DEFAULT, block=observe(b)), lambda: f.save(b, o["ver"], o["exp"], None))
            else:
                append(trace, rng, f, b, None, DEFAULT)
            read(trace, f)
        f.close()
    return trace
