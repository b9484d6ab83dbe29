"""Driver for spec/Reader.tla: files are written, removed and read through patterns, lists
and the cache, in a scratch directory."""
import os
import random
import h5py  # noqa: F401  (before numpy users)
import numpy as np
import core
import files as fs
from arrays import hfarray, dm
from hftools.dataset import DataBlock
import hftools.file_formats as ff
from hftools import path, utils

PLAIN = dict(sp="y", mdif="y", hdf5="y", citi="X", touch="S")
STEMS = ["f1", "f2", "f10", "f02", "f002", "a", "b3c", "b3", "b20c", "1", "12", "2a", "nan1", "inf2", "nan", "x-1.5", "F2", "f 2", "f_2", "f1_10", "f1_9",
         "20140102T1", "99999999999999999999", "100000000000000000000", "e5", "1e5", "f\xe5", "m.1.2", "m.1.10"]
EXTS = [".txt", ".dat", ".s1p", ".mdif", ".citi", ""]
DIRS = ["d2/", "d10/", "7/"]
REMARKS = ["plain", "VAR x(real)", "# GHz S RI R 50", "CITIFILE A.01.00", "BEGIN block", "5 \xb5m", "price 3 \x80", "\x89HDF"]


class UserError(Exception):
    pass


ERRORS = {e.__name__: e for e in (UserError, KeyError, IOError, ValueError, AttributeError, StopIteration, KeyboardInterrupt)}


def codes(s):
    return [ord(c) for c in s]


# ---------------------------------------------------------------- file contents
def remarks(rng, mark):
    return ["%s%s" % (mark, rng.choice(["", " "]) + rng.choice(REMARKS)) for _ in range(rng.choice([0, 0, 1, 2]))]


def blank(rng, lines):
    out = []
    for l in lines:
        if rng.random() < .1:
            out.append("")
        out.append(l)
    return out


def content(rng, fmt, xs, ys, style):
    """the lines of a file with values ys over xs; files read together have the same parameters"""
    if fmt == "sp":
        return blank(rng, remarks(rng, "!") + ["x\ty"] + ["%g\t%g" % p for p in zip(xs, ys)])
    if fmt == "mdif":
        ind = rng.choice(["", "", "  "])
        head = remarks(rng, "!") + (["%sVAR %s(real) = %d" % (ind, style["var"], rng.randint(1, 9))] if style["var"] else [])
        return blank(rng, head + [ind + "BEGIN " + style["block"]] + ["%s%% x(real) y(real)" % ind] + [ind + "%g %g" % p for p in zip(xs, ys)] + ["END"])
    if fmt == "citi":
        return (["CITIFILE A.01.0%d" % rng.choice([0, 1])] + ["NAME D", "VAR FREQ MAG %d" % len(xs), "DATA X RI", "VAR_LIST_BEGIN"] + ["%g" % x for x in xs]
                + ["VAR_LIST_END", "BEGIN"] + ["%g,%g" % (y, y + 1) for y in ys] + ["END"])
    if fmt == "touch":
        opt = rng.choice(["# GHz S RI R 50", "#ghz s ri r 50", "# GHZ S RI", "  # GHz  S RI R 50.0", "#\tGHz\tS\tRI\tR\t75"])
        return blank(rng, remarks(rng, "!") + [opt] + ["%g %g %g" % (x, y, y + 1) for x, y in zip(xs, ys)])


def denoted(fmt, xs, ys):
    if fmt == "touch":
        xs = [x * 1e9 for x in xs]
    if fmt in ("citi", "touch"):
        ys = [complex(y, y + 1) for y in ys]
    return [fs.enc(x) for x in xs], [fs.enc(y) for y in ys]


# ---------------------------------------------------------------- observation
class Bad(Exception):
    pass


def parts(res, strip):
    """what the data read consists of, file by file"""
    if isinstance(res, (list, tuple)):
        return sum([parts(b, strip) for b in res], [])
    if not isinstance(res, DataBlock):
        if len(res) != 1:
            raise Bad("%d groups" % len(res))
        return parts(list(res.values())[0], strip)
    name = [n for n in ("y", "X", "S") if n in res.vardata]
    if len(name) != 1 or "FILENAME" not in res.vardata:
        raise Bad("variables %s" % sorted(res.vardata))
    y, fn = res[name[0]], res["FILENAME"]
    arr = np.asarray(y)
    names = [d.name for d in y.dims]
    keep = [k for k, n in enumerate(names) if not (n in ("i", "j") and arr.shape[k] == 1)]
    arr = arr.reshape([arr.shape[k] for k in keep])
    dims = [y.dims[k] for k in keep]
    names = [d.name for d in dims]
    fnames = [str(x) for x in np.asarray(fn).ravel().tolist()]
    if len(fn.dims) == 1 and fn.dims[0].name in names:
        k = names.index(fn.dims[0].name)
        arr = np.moveaxis(arr, k, 0)
        del dims[k]
    elif len(fnames) == 1:
        arr = arr[None]
    else:
        raise Bad("file names without place in the data")
    if len(dims) != 1 or arr.ndim != 2:
        raise Bad("dimensions %s" % names)
    xs = [fs.enc(x) for x in dims[0].data.tolist()]
    return [dict(file=codes(strip(f)), xs=xs, ys=[fs.enc(v) for v in row.tolist()]) for f, row in zip(fnames, arr)]


class World(object):
    def __init__(self, rng, d, absolute):
        self.rng, self.dir, self.absolute = rng, d, absolute
        self.style = dict(var=rng.choice([None, "Vg", "SW.q"]), block=rng.choice(["A", "HPSP.x"]))

    def strip(self, f):
        p = self.dir + "/"
        return f[len(p):] if self.absolute and f.startswith(p) else f

    def full(self, n):
        n = os.path.join(self.dir, n) if self.absolute else n
        return path(n) if self.rng.random() < .5 else n


def step(trace, o, fn):
    err, out = "", dict()
    try:
        core.limited(10, fn, out)
    except core.Timeout:
        err = "Timeout"
    except (Exception, KeyboardInterrupt) as e:
        err = type(e).__name__
        out["raw"] = str(e)[:300]
    trace.append(dict(ev="step", o=o, out=dict(dict(parts=[], got=False, fresh=False, names=[]), **out), err=err))


def put(trace, w, name, fmt, xs, ys):
    rng = w.rng
    os.makedirs(os.path.dirname(os.path.join(w.dir, name)), exist_ok=True)
    p = os.path.join(w.dir, name)
    dx, dy = denoted(fmt, xs, ys)
    rec = dict(name=codes(name), bin="", lines=[], xs=dx, ys=dy)
    if fmt == "hdf5":
        x = dm.DimSweep("x", xs)
        b = DataBlock()
        b["y"] = hfarray(np.array(ys, float), dims=(x,))
        b["FILENAME"] = hfarray(name)
        if os.path.exists(p):
            os.remove(p)
        ff.save_hdf5(b, p)
        rec["bin"] = "hdf5"
    else:
        lines = content(rng, fmt, xs, ys, w.style)
        with open(p, "wb") as f:
            f.write("\n".join(l.encode("latin-1").decode("latin-1") for l in lines).encode("latin-1") + b"\n")
        rec["lines"] = [codes(l[:40]) for l in lines]
    trace.append(dict(ev="step", o=dict(op="put", f=rec, fmt=fmt, text=name), out={}, err=""))


def delete(trace, w, name):
    os.remove(os.path.join(w.dir, name))
    trace.append(dict(ev="step", o=dict(op="del", name=codes(name)), out={}, err=""))


def read(trace, w, pats, merge=True, aslist=None):
    aslist = len(pats) != 1 if aslist is None else aslist
    arg = [w.full(p) for p in pats] if aslist else w.full(pats[0])
    if aslist and w.rng.random() < .3:
        arg = tuple(arg)

    def run(out):
        out["parts"] = parts(ff.read_data(arg, merge=merge, verbose=False), w.strip)
    plain = len(pats) == 1 and not aslist and not any(c in pats[0] for c in "*?[")
    step(trace, dict(op="read", pats=[codes(p) for p in pats], plain=plain, merge=merge, text=repr(pats)), run)


def use(trace, w, name, cname, reread, body):
    kw = dict(verbose=False)
    if w.cdir:
        kw["cachedir"] = w.cdir
    if cname:
        kw["cachename"] = cname
    if reread or w.rng.random() < .3:
        kw["reread"] = reread

    def run(out):
        with ff.read_to_cache(w.full(name), **kw) as (d, fresh):
            out["parts"] = parts(d, w.strip)
            out["fresh"] = bool(fresh)
            out["got"] = True
            v = [n for n in ("y", "X", "S") if n in d.vardata][0]
            if body["kind"] == "edit":
                d[v] = hfarray(np.array(body["py"], np.asarray(d[v]).dtype).reshape(d[v].shape), dims=d[v].dims)
            elif body["kind"] == "broken":
                d["zz" if body["last"] else "AA"] = hfarray(np.array([object(), object()]), dims=(dm.DimSweep("oo", 2),))
            elif body["kind"] == "fail":
                if body["last"]:
                    d[v] = d[v] * 0
                raise ERRORS[body["error"]]()
    step(trace, dict(op="use", name=codes(name), cname=codes(cname), reread=reread, body=body, text=name), run)


def from_cache(trace, w, cname):
    def run(out):
        out["parts"] = parts(ff.read_from_cache(cname, **(dict(cachedir=w.cdir) if w.cdir else {})), w.strip)
    step(trace, dict(op="from", cname=codes(cname), text=cname), run)


def order(trace, names):
    def run(out):
        out["names"] = [codes(n) for n in utils.lex_order(list(names))]
    step(trace, dict(op="order", names=[codes(n) for n in names], text=repr(names)), run)


# ---------------------------------------------------------------- histories
def pattern(rng, names):
    n = rng.choice(names)
    d, b = os.path.split(n)
    d = d + "/" if d else ""
    r = rng.random()
    if r < .25:
        return n
    if r < .45:
        return d + "*"
    if r < .6:
        k = rng.randrange(len(b))
        return d + b[:k] + "*" + b[k + 1:]
    if r < .75:
        k = rng.randrange(len(b))
        return d + b[:k] + "?" + b[k + 1:]
    if r < .85:
        k = rng.randrange(len(b))
        return d + b[:k] + rng.choice(["[0-9]", "[%sz]" % b[k], "[a-f1]"]) + b[k + 1:]
    if r < .92 and d:
        return "*/" + rng.choice(["*", b])
    if r < .97:
        return d + "*" + os.path.splitext(b)[1]
    return "nix*"


class Here(object):
    def __init__(self, d, go):
        self.d, self.go = d, go

    def __enter__(self):
        self.old = os.getcwd()
        if self.go:
            os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)


def body_of(rng, n, fmt):
    kind = rng.choice(["keep", "edit", "edit", "fail", "broken"])
    ys = [rng.randint(1000, 2000) for _ in range(n)]
    return dict(kind=kind, error=rng.choice(sorted(ERRORS)), last=rng.random() < .5, py=ys, ys=[fs.enc(y) for y in ys])


def random_trace(job):
    seed, steps = job
    rng = random.Random(seed)
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))
    main = rng.choice(["sp", "sp", "mdif", "citi", "touch", "hdf5"])
    n = rng.choice([2, 3])
    xs = sorted(rng.sample(range(1, 9), n))
    pool = []
    # a pattern finds files, not directories
    dirs = rng.sample(DIRS, 2) if rng.random() < .3 else [""]
    for _ in range(rng.randint(3, 6)):
        pool.append(rng.choice(dirs) + rng.choice(STEMS) + rng.choice(EXTS))
    pool = sorted(set(pool))
    fmts, used = {}, []
    with fs.Scratch() as d:
        w = World(rng, os.path.join(d, "w"), rng.random() < .4)
        os.mkdir(w.dir)
        # the cache is out of reach of the patterns
        w.cdir = os.path.join(d, "cache") if rng.random() < .7 else None
        with Here(w.dir, True):
            for k in range(steps):
                r = rng.random()
                if r < .35 or not fmts:
                    nm = rng.choice(pool)
                    if any(nm.startswith(o + "/") or o.startswith(nm + "/") for o in pool):
                        continue
                    fmts[nm] = main if rng.random() < .85 else rng.choice(["sp", "mdif", "citi", "touch", "hdf5"])
                    put(trace, w, nm, fmts[nm], xs, [rng.randint(1, 900) for _ in xs])
                elif r < .4:
                    nm = rng.choice(sorted(fmts))
                    del fmts[nm]
                    delete(trace, w, nm)
                elif r < .45:
                    order(trace, [rng.choice(STEMS) + rng.choice(EXTS) for _ in range(rng.randint(0, 6))])
                elif r < .7:
                    pats = [pattern(rng, pool if rng.random() < .25 else sorted(fmts)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                    if not w.cdir:
                        pats = [p if not p.startswith("*") else rng.choice(pool) for p in pats]
                    read(trace, w, pats, merge=rng.random() < .8, aslist=rng.random() < .2 or None)
                else:
                    # mostly files that are there, and what has been cached before
                    q = rng.random()
                    nm, cn = rng.choice(pool if q < .1 else sorted(fmts)), rng.choice(["", "", "c1", "c.2"])
                    if used and q > .4:
                        nm, cn = rng.choice(used)
                    if fmts.get(nm) == "mdif":
                        continue
                    if r < .92:
                        used.append((nm, cn))
                        use(trace, w, nm, cn, rng.random() < .3, body_of(rng, n, main))
                    else:
                        from_cache(trace, w, cn or os.path.splitext(os.path.basename(nm))[0])
    return trace


def replay_behaviour(bh):
    """operations of MCReader"""
    fs.quiet()
    rng = random.Random(repr(bh["ops"]))
    trace = core.new_trace(dict(ev="reset"))
    names = ["".join(chr(c) for c in n) for n in bh["names"]]
    pats = [["".join(chr(c) for c in p) for p in q] for q in bh["pats"]]
    fmt = rng.choice(["sp", "citi", "touch"])
    with fs.Scratch() as d:
        w = World(rng, os.path.join(d, "w"), rng.random() < .5)
        os.mkdir(w.dir)
        w.cdir = os.path.join(d, "cache")
        with Here(w.dir, True):
            for o in bh["ops"]:
                if o["op"] == "put":
                    put(trace, w, names[o["n"] - 1], fmt, [1, 2], [o["v"], o["v"] + 1])
                elif o["op"] == "del":
                    delete(trace, w, names[o["n"] - 1])
                elif o["op"] == "read":
                    read(trace, w, pats[o["n"] - 1])
                elif o["op"] == "use":
                    b = dict(o["body"], error=rng.choice(sorted(ERRORS)), last=rng.random() < .5)
                    b["py"] = b["ys"]
                    b["ys"] = [fs.enc(y) for y in b["ys"]]
                    use(trace, w, names[o["n"] - 1], "".join(chr(c) for c in o["cname"]), o["reread"], b)
    return trace
