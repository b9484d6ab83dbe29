"""Binding of spec/ArraySpec.tla to hftools.dataset.arrayobj: executes operation
records on the real code, projects the real arrays to the specification's
values, and generates random operation sequences."""
import h5py  # noqa (must be imported early)
import numpy as np
import core
from fractions import Fraction
import hftools.dataset.arrayobj as ao
import hftools.dataset.dim as dm
from hftools.dataset import hfarray
from core import encode_values, label, gf, limited, Timeout, P, residue, IM

CLS = {c: getattr(dm, c) for c in dir(dm) if isinstance(getattr(dm, c), type) and issubclass(getattr(dm, c), dm.DimBase)}
NONE = "~"


def enc_meta(x):
    return NONE if x is None else str(x)


def proj_dim(d):
    try:
        fmt = enc_meta(d.outputformat)
    except Exception:
        fmt = "!"
    return dict(cls=type(d).__name__, name=str(d.name), data=[label(v) for v in d.data.tolist()], unit=enc_meta(d.unit), fmt=fmt)


def project(a):
    """real object -> specification array"""
    if isinstance(a, dm.DimBase):
        a = hfarray(a)
    arr = np.asarray(a)
    if arr.dtype == object:
        return dict(dims=[], shape=[], num="gf", vals=[-1], cj=[], unit="!object", fmt="!")
    if arr.dtype.kind not in "bifuc":
        return dict(dims=[], shape=[], num="gf", vals=[-1], cj=[], unit="!" + arr.dtype.kind, fmt="!")
    num, vals, cj = encode_values(arr.ravel().tolist(), arr.dtype.kind == "c")
    if isinstance(a, hfarray):
        dims = [proj_dim(d) for d in a.dims]
        unit, fmt = enc_meta(a.unit), enc_meta(a.outputformat)
    else:
        dims = [dict(cls="?", name="?unlabelled", data=[], unit=NONE, fmt=NONE)] * arr.ndim
        unit = fmt = NONE
    return dict(dims=dims, shape=list(arr.shape), num=num, vals=vals, cj=cj, unit=unit, fmt=fmt)


def tonum(s):
    try:
        return int(s)
    except ValueError:
        try:
            return float(s)
        except ValueError:
            return s


def build_dim(d):
    kw = {}
    if d["unit"] != NONE:
        kw["unit"] = d["unit"]
    if d["fmt"] != NONE:
        kw["outputformat"] = d["fmt"]
    return CLS[d["cls"]](d["name"], [tonum(v) for v in d["data"]], **kw)


def build(arr, raw=None, dtype=None):
    vals = raw if raw is not None else arr["vals"]
    vals = [complex(*v) if isinstance(v, (list, tuple)) else v for v in vals]
    data = np.array(vals, dtype=dtype).reshape(arr["shape"])
    return hfarray(data, dims=tuple(build_dim(d) for d in arr["dims"]),
                   unit=None if arr["unit"] == NONE else arr["unit"],
                   outputformat=None if arr["fmt"] == NONE else arr["fmt"])


def pyitem(it):
    if it["t"] == "slice":
        g = lambda v: v[0] if v else None
        return slice(g(it["a"]), g(it["b"]), g(it["s"]))
    if it["t"] == "int":
        return it["i"]
    if it["t"] == "ell":
        return Ellipsis
    if it["t"] == "list":
        return np.array(it["l"], dtype=int) if it.get("nd") else list(it["l"])


def pyaxis_item(it, x):
    if it["t"] == "idx":
        return it["i"]
    if it["t"] == "name":
        return it["n"]
    if it["t"] == "cls":
        return CLS[it["c"]]
    return build_dim(it["d"])


def pyaxis(ax, x):
    if ax["t"] == "none":
        return None
    items = [pyaxis_item(it, x) for it in ax["items"]]
    return items[0] if len(items) == 1 and not ax.get("aslist") else (tuple(items) if ax.get("tup") else items)


OPS = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, div=lambda a, b: a / b,
           pow=lambda a, b: a ** b, eq=lambda a, b: a == b, ne=lambda a, b: a != b, lt=lambda a, b: a < b,
           le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b)
OPS["and"] = lambda a, b: a & b
OPS["or"] = lambda a, b: a | b
OPS["xor"] = lambda a, b: a ^ b
UN = dict(neg=lambda a: -a, abs=abs, conj=lambda a: a.conj(), real=lambda a: a.real, imag=lambda a: a.imag)


def perform(o, heap):
    op = o["op"]
    if op == "new":
        return build(o["arr"], o.get("raw"), o.get("dtype"))
    if op == "bin":
        return OPS[o["f"]](heap[o["x"]], heap[o["y"]])
    if op == "scal":
        s = o["py"]
        s = complex(*s) if isinstance(s, (list, tuple)) else s
        if o.get("npf"):
            s = getattr(np, o["npf"])(s)
        return OPS[o["f"]](s, heap[o["x"]]) if o["left"] else OPS[o["f"]](heap[o["x"]], s)
    if op == "align":
        if len(o["xs"]) == 2:
            return ao.make_same_dims(*[heap[r] for r in o["xs"]])[o["pick"] - 1]
        return ao.make_same_dims_list([heap[r] for r in o["xs"]])[o["pick"] - 1]
    x = heap[o["x"]]
    if op == "un":
        return UN[o["f"]](x)
    if op == "index":
        items = tuple(pyitem(i) for i in o["items"])
        return x[items[0]] if len(items) == 1 and not o.get("tup") else x[items]
    if op == "mask":
        return x[heap[o["m"]].astype(bool)]
    if op == "take":
        return x.take(o["l"], axis=pyaxis_item(o["axis"], x))
    if op == "transpose":
        return x.transpose(*[p - 1 for p in o["perm"]]) if o["perm"] else (x.T if o.get("prop") else x.transpose())
    if op == "reorder":
        return x.reorder_dimensions(*[x.dims[x.dims_index(n)] for n in o["names"]])
    if op == "t":
        return x.t
    if op == "squeeze":
        return x.squeeze() if o["axis"]["t"] == "none" else x.squeeze(axis=pyaxis(o["axis"], x))
    if op == "add_dim":
        return x.add_dim(build_dim(o["d"]), o["axis"])
    if op == "replace":
        y = x.view()
        y.replace_dim(o["old"] if o["strict"] else dm.DimSweep(o["old"], 1), build_dim(o["d"]))
        return y
    if op == "expand":
        return ao.expand_diagonals(x) if o["axis"] == 0 else ao.expand_diagonals(x, [x.dims[o["axis"] - 1]])
    if op == "fullcplx":
        return ao.make_fullcomplex_array(x)
    if op == "tail":
        return ao.remove_tail(x)
    if op == "norep":
        return ao.remove_rep(x, o["n"])
    if op == "red":
        kw = {}
        if o["keep"]:
            kw["keepdims"] = True
        if not o["strict"]:
            kw["dimerror"] = False
        if o["ddof"]:
            kw["ddof"] = o["ddof"]
        ax = pyaxis(o["axis"], x)
        if o["f"] == "rss":
            return x.rss(ax)
        return getattr(x, o["f"])(axis=ax, **kw)
    if op == "cum":
        return getattr(x, o["f"])(axis=pyaxis(o["axis"], x))
    if op == "copy":
        return x.copy()
    if op == "view":
        return x.view()
    if op == "mkmat":
        return ao.make_matrix(np.asarray(x), x.dims[:-2])
    raise KeyError(op)


def squared(o):
    return o["op"] == "red" and o["f"] in ("std", "rss")


def snap(a):
    """what is an integer but for rounding becomes one: later comparisons are of exact values"""
    for part in ([a.real, a.imag] if a.dtype.kind == "c" else [a]):
        near = np.rint(part)
        with np.errstate(invalid="ignore"):
            np.copyto(part, near, where=np.isfinite(part) & (abs(part - near) <= 1e-12 * np.maximum(1, abs(near))))


class Session(object):
    """real heap + its recorded trace"""

    def __init__(self, heap=None, init=None):
        self.heap = {}
        self.proj = {}
        self.boolint = bool(init)    # the exhaustive model knows integers only
        if init:
            for r, a in init.items():
                self.heap[r] = build(a)
                self.proj[r] = project(self.heap[r])
        self.trace = core.new_trace(dict(ev="reset", heap=dict(init) if init else {}))

    def do(self, o):
        err = ""
        try:
            res = limited(20, perform, o, self.heap)
            if squared(o) and res is not self.heap[o["x"]]:
                if np.any(np.asarray(res) < -1e-12):
                    res = res * np.nan
                res = res ** 2
            if not isinstance(res, np.ndarray):
                res = hfarray(res, dims=())
            if o["op"] in ("red", "cum", "bin", "scal") and res.dtype.kind in "fc" \
                    and not any(np.shares_memory(res, a) for a in self.heap.values()):
                snap(np.asarray(res))
            if self.boolint and res.dtype.kind == "b":
                res = res.astype(int)
            p = project(res)
        except Timeout:
            err = "timeout"
        except Exception as e:
            err = type(e).__name__
        heap = {}
        for r, a in self.heap.items():
            heap[r] = project(a)
        if not err:
            self.heap[o["dst"]] = res
            heap[o["dst"]] = p
        self.proj = heap
        self.trace.append(dict(ev="op", o=o, err=err, heap=heap))
        return not err


# ------------------------------------------------------------- generation
DIMPOOL = [("DimSweep", "f", "Hz"), ("DimSweep", "v", "V"), ("DimSweep", "p", None), ("DimRep", "r", None),
           ("DimRep", "q", None), ("DimMatrix_i", "i", None), ("DimMatrix_j", "j", None),
           ("DimPartial", "h", None), ("DimAnonymous", "u", None), ("DimRep", "f", None), ("IndepAxis", "w", "s"), ("DerivAxis", "w", "s")]
LABELS = {"f": [1, 2, 3, 4], "v": [0.5, -1, 1.5, 0.25], "p": ["lo", "hi", "mid", "off"], "r": [0, 1, 2, 3], "q": [7, 5, 9, 4],
          "i": [0, 1, 2, 3], "j": [0, 1, 2, 3], "h": [30, 10, 20, 40], "u": [2, 1, 0, 5], "w": [1, 2, 4, 8]}


def gen_dim(rng, spec, n, shuffled=True):
    c, name, unit = spec
    labs = LABELS[name][:]
    if shuffled and name not in "ij":
        rng.shuffle(labs)
    return dict(cls=c, name=name, data=[label(x) for x in labs[:n]], unit=unit or NONE, fmt="%s" if name == "p" else "%.16e" if name == "v" else "%d")


class Gen(object):
    def __init__(self, rng, samelen=None, maxdims=4, related=False):
        self.rng = rng
        self.lens = {}
        self.maxdims = maxdims
        self.dims = {}
        pool = DIMPOOL if related else [d for d in DIMPOOL if d[1] != "w"]
        if not related:
            pool = [d for d in pool if d[:2] != ("DimRep", "f")]
        self.pool = pool
        for s in pool:
            n = rng.choice([1, 2, 2, 3]) if s[1] not in "ij" else None
            if s[1] in "ij":
                n = self.lens.get("m") or rng.choice([1, 2, 2, 3])
                self.lens["m"] = n
                if rng.random() < .2:
                    n = rng.choice([1, 2, 3])
            self.dims[s[:2]] = gen_dim(rng, s, n)

    def dimlist(self, k=None, avoid=()):
        rng = self.rng
        k = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, self.maxdims]) if k is None else k
        keys = rng.sample(list(self.dims), min(k, len(self.dims)))
        return [self.dims[k] for k in keys]

    def array(self, dims=None, kind=None):
        rng = self.rng
        dims = self.dimlist() if dims is None else dims
        shape = [len(d["data"]) for d in dims]
        n = 1
        for s in shape:
            n *= s
        kind = kind or rng.choice(["int", "int", "float", "frac", "cplx", "bool"])
        dtype = None
        if kind == "int":
            raw = [rng.randint(-9, 9) for _ in range(n)]
            dtype = rng.choice([None, "int64", "int32"])
        elif kind == "float":
            raw = [float(rng.randint(-9, 9)) for _ in range(n)]
            dtype = "float64"
        elif kind == "frac":
            raw = [rng.randint(-12, 12) / rng.choice([1., 2., 3., 4.]) for _ in range(n)]
            dtype = "float64"
        elif kind == "cplx":
            raw = [[float(rng.randint(-5, 5)) / rng.choice([1, 1, 2]), float(rng.randint(-5, 5))] for _ in range(n)]
            dtype = "complex128"
        else:
            raw = [rng.random() < .5 for _ in range(n)]
            dtype = "bool"
        num, vals, cj = encode_values([complex(*v) if isinstance(v, list) else v for v in raw], kind == "cplx")
        arr = dict(dims=dims, shape=shape, num=num, vals=vals, cj=cj, unit=rng.choice([NONE, "V", "Ohm"]),
                   fmt=rng.choice(["%d", "%.3f", "%.16e"]))
        return dict(op="new", arr=arr, raw=raw, dtype=dtype)

    def scalar(self):
        rng = self.rng
        py = rng.choice([rng.randint(-4, 4), rng.randint(1, 4) / 2., [float(rng.randint(-2, 2)), 1.0]])
        num, vals, cj = encode_values([complex(*py) if isinstance(py, list) else py], isinstance(py, list))
        s = dict(dims=[], shape=[], num=num, vals=vals, cj=cj, unit=NONE, fmt=NONE)
        npf = None
        if isinstance(py, float) and rng.random() < .3:
            npf = "float64"
        return s, py, npf


def small(p, lim=300, maxn=60):
    n = 1
    for s in p["shape"]:
        n *= s
    return n <= maxn and len(p["shape"]) <= 5


def magnitude(a):
    b = np.asarray(a)
    if b.dtype.kind not in "bifuc":
        return 1e9
    return float(np.abs(b).max()) if b.size else 0.0


def exactish(a, maxden=60):
    """values are small rationals the encoding can carry through one more op"""
    b = np.asarray(a)
    if b.size == 0:
        return True
    if b.dtype.kind in "biu":
        return True
    for z in b.ravel().tolist():
        z = complex(z)
        for v in (z.real, z.imag):
            fr = Fraction(v).limit_denominator(maxden)
            if abs(float(fr) - v) > 1e-11:
                return False
    return True


def den(a):
    """lcm of the denominators of all (real and imaginary) values"""
    import math
    b = np.asarray(a)
    if b.dtype.kind in "biu":
        return 1
    r = 1
    for z in b.ravel().tolist():
        z = complex(z)
        for v in (z.real, z.imag):
            q = Fraction(v).limit_denominator(60).denominator
            r = r * q // math.gcd(r, q)
            if r > 10 ** 6:
                return r
    return r


def fits(o, heap):
    """the exact result's denominators stay within what rational() recovers"""
    lim = 4500
    op, f = o["op"], o.get("f")
    if op not in ("bin", "scal", "red", "cum"):
        return True
    a = heap[o["x"]]
    if not isinstance(a, np.ndarray):
        return True
    b = heap[o["y"]] if op == "bin" else np.array(complex(*o["py"]) if isinstance(o["py"], list) else o["py"]) if op == "scal" else None
    da = den(a)
    if op == "cum":
        return da ** (3 if f == "cumprod" else 1) <= lim
    if op == "red":
        n = max(1, a.size)
        return dict(sum=da, min=da, max=da, rss=da * da).get(f, da * n if f == "mean" else da * da * n * n) <= lim or \
            (p_int(a) and n <= 60)
    db = den(b)
    if f in ("add", "sub"):
        return da * db <= lim
    if f == "mul":
        return da * db <= lim
    if f == "pow":
        return (db if o.get("left") else da) ** 3 <= lim
    if f == "div":
        x, y = (b, a) if o.get("left") else (a, b)
        dx, dy = den(x), den(y)
        m = magnitude(y) * dy
        return dx * (m * m if y.dtype.kind == "c" else m) * (1 if y.dtype.kind != "c" else 1) <= lim and magnitude(x) * dy * magnitude(y) * dy < 1e6
    return True


def p_int(a):
    return encode_values(np.asarray(a).ravel().tolist(), a.dtype.kind == "c")[0] == "int"


def integral(a):
    b = np.asarray(a)
    return b.dtype.kind in "biu" or (b.dtype.kind == "f" and bool(np.all(b == np.round(b))))


# ---------------------------------------------------------------- operations
class Ctx(object):
    """random operation records over a live session"""

    def __init__(self, rng, related=False, maxdims=4):
        self.rng = rng
        self.g = Gen(rng, maxdims=maxdims, related=related)
        self.s = Session()
        self.n = 0

    def reg(self):
        rng = self.rng
        if len(self.s.heap) < 4:
            self.n += 1
            return "x%d" % self.n
        return rng.choice(sorted(self.s.heap))

    def new(self, **k):
        o = self.g.array(**k)
        o["dst"] = self.reg()
        self.s.do(o)
        return o["dst"]

    def live(self, pred=lambda p, a: True):
        return [r for r in sorted(self.s.heap) if r != "m" and isinstance(self.s.heap[r], hfarray) and pred(self.s.proj[r], self.s.heap[r])]

    def pick(self, pred=lambda p, a: True, **k):
        c = self.live(pred)
        if not c or self.rng.random() < .25:
            r = self.new(**k)
            if r in self.live(pred):
                return r
            c = self.live(pred)
        return self.rng.choice(c) if c else None


def consistent(p):
    return all(len(d["data"]) == n for d, n in zip(p["dims"], p["shape"]))


def uniquenames(p):
    return len(set(d["name"] for d in p["dims"])) == len(p["dims"])


def plain(p, a):
    return consistent(p) and uniquenames(p) and small(p)


def good(p, a):
    return small(p) and magnitude(a) <= 500 and exactish(a)


def op_bin(c):
    rng = c.rng
    x = c.pick(good)
    y = c.pick(good)
    if x is None or y is None:
        return None
    px, py, ax, ay = c.s.proj[x], c.s.proj[y], c.s.heap[x], c.s.heap[y]
    bx, by = ax.dtype.kind == "b", ay.dtype.kind == "b"
    fs = []
    if bx and by:
        fs += ["and", "or", "xor", "eq", "ne"]
    else:
        fs += ["add", "sub", "mul"] * 2
        if np.asarray(ay).size and not np.any(np.asarray(ay) == 0) and magnitude(ay) < 40 and magnitude(ax) < 100 and not bx \
                and (ay.dtype.kind != "c" or (magnitude(ay) < 8 and exactish(ay, 2) and exactish(ax, 12))):
            fs += ["div"] * 2
        if ay.dtype.kind in "if" and integral(ay) and ay.size and not bx and np.min(np.asarray(ay)) >= 0 and magnitude(ay) <= 3 and magnitude(ax) <= 12:
            fs += ["pow"] * 3
        if px["num"] == "int" and py["num"] == "int":
            fs += ["lt", "le", "gt", "ge"]
        if magnitude(ax) < 40 and magnitude(ay) < 40:
            fs += ["eq", "ne"]
    # sizes of the union
    names = {}
    clash = False
    for p in (px, py):
        for d, n in zip(p["dims"], p["shape"]):
            k = (d["cls"], d["name"])
            m = names.get(k, 1)
            if m != n and 1 not in (n, m):
                clash = True
            names[k] = m if n == 1 else n
    tot = 1
    for n in names.values():
        tot *= n
    if tot > 72 or len(names) > 5:
        return None
    if clash:
        fs = [f for f in fs if f not in ("eq", "ne")]
    if not fs:
        return None
    return dict(op="bin", f=rng.choice(fs), x=x, y=y, dst=c.reg())


def op_scal(c):
    rng = c.rng
    x = c.pick(good)
    if x is None:
        return None
    a, p = c.s.heap[x], c.s.proj[x]
    s, py, npf = c.g.scalar()
    b = a.dtype.kind == "b"
    if b and rng.random() < .6:
        py = rng.random() < .5
        s = dict(s, num="int", vals=[int(py)], cj=[])
        return dict(op="scal", f=rng.choice(["and", "or", "xor", "eq", "ne"]), x=x, s=s, py=py, left=rng.random() < .5, dst=c.reg())
    left = rng.random() < .5
    fs = ["add", "mul"] + ([] if b else ["sub"])
    cp = isinstance(py, list)
    if not b:
        den = a if left else np.array(complex(*py) if cp else py)
        if np.asarray(den).size and not np.any(np.asarray(den) == 0) and magnitude(den) < 40 and magnitude(a) < 100 \
                and (den.dtype.kind != "c" or (magnitude(den) < 8 and exactish(den, 2) and exactish(a, 12))):
            fs.append("div")
        if left:
            if a.dtype.kind in "if" and integral(a) and a.size and np.min(np.asarray(a)) >= 0 and magnitude(a) <= 3:
                fs += ["pow"] * 2
        elif isinstance(py, int) and 0 <= py <= 3 and magnitude(a) <= 12:
            fs += ["pow"] * 2
    if p["num"] == "int" and s["num"] == "int":
        fs += ["lt", "le", "gt", "ge"]
    if magnitude(a) < 40 and p["num"] == "int" and s["num"] == "int":
        fs += ["eq", "ne"]
    o = dict(op="scal", f=rng.choice(fs), x=x, s=s, py=py, left=left, dst=c.reg())
    if npf and not (left and o["f"] in ("eq", "ne", "lt", "le", "gt", "ge")):
        o["npf"] = npf
    return o


def op_un(c):
    x = c.pick(good)
    if x is None:
        return None
    a, p = c.s.heap[x], c.s.proj[x]
    fs = ["real", "imag", "conj"]
    if a.dtype.kind != "b":
        fs.append("neg")
        if p["num"] == "int" and a.dtype.kind != "c":
            fs.append("abs")
    return dict(op="un", f=c.rng.choice(fs), x=x, dst=c.reg())


def rand_slice(rng, n):
    def v():
        return [] if rng.random() < .35 else [rng.randint(-n - 1, n + 1)]
    st = rng.choice([[], [], [1], [2], [-1], [-2], [3]])
    return dict(t="slice", a=v(), b=v(), s=st)


def op_index(c):
    rng = c.rng
    x = c.pick(lambda p, a: consistent(p) and small(p) and len(p["shape"]) > 0)
    if x is None:
        return None
    sh = c.s.proj[x]["shape"]
    n = len(sh)
    k = rng.randint(1, n)
    ell = rng.random() < .3
    items = []
    haslist = rng.random() < .25
    axes = list(range(k))
    if ell:
        cut = rng.randint(0, k)
        axes = list(range(cut)) + list(range(n - (k - cut), n))
    lax = rng.choice(axes) if haslist and axes else None
    for a in axes:
        d = sh[a]
        if a == lax and d > 0:
            items.append(dict(t="list", l=[rng.randint(-d, d - 1) for _ in range(rng.randint(1, 3))], nd=rng.random() < .5))
        elif rng.random() < .3 and not haslist:
            i = rng.randint(-d, d - 1) if d and rng.random() < .93 else d + 1
            items.append(dict(t="int", i=i))
        else:
            items.append(rand_slice(rng, d))
    if ell:
        items.insert(cut, dict(t="ell"))
    return dict(op="index", x=x, items=items, dst=c.reg(), tup=rng.random() < .5 or len(items) > 1)


def op_mask(c):
    rng = c.rng
    x = c.pick(lambda p, a: plain(p, a) and len(p["shape"]) > 0)
    if x is None:
        return None
    p = c.s.proj[x]
    k = rng.choice([1, 1, 1, 2, 2, 3])
    dims = rng.sample(p["dims"], min(k, len(p["dims"])))
    o = c.g.array(dims=[dict(d) for d in dims], kind="bool")
    o["dst"] = "m"
    c.s.do(o)
    if "m" not in c.s.heap or x not in c.s.heap:
        return None
    used = [int(d["name"][4:]) for d in p["dims"] if d["cls"] == "DimAnonymous" and d["name"].startswith("ANON")]
    return dict(op="mask", x=x, m="m", anon="ANON%d" % (max(used + [0]) + 1), dst=c.reg())


def axis_item(c, p, uniq=True, missing=.08):
    rng = c.rng
    n = len(p["shape"])
    t = rng.choice(["idx", "idx", "name", "cls", "dim"])
    if rng.random() < missing or n == 0:
        return rng.choice([dict(t="name", n="nosuch"), dict(t="idx", i=n + 1), dict(t="dim", d=dict(cls="DimSweep", name="zz", data=["1"], unit=NONE, fmt="%d"))])
    if t == "idx":
        return dict(t="idx", i=rng.randint(-n, n - 1))
    if t == "cls":
        return dict(t="cls", c=rng.choice(["DimRep", "DimSweep", "DimMatrix_i", "DimMatrix_j", "DiagAxis", p["dims"][rng.randrange(n)]["cls"]]))
    d = rng.choice(p["dims"])
    return dict(t="name", n=d["name"]) if t == "name" else dict(t="dim", d=d)


def axis_arg(c, p, multi=True):
    rng = c.rng
    if rng.random() < .15:
        return dict(t="none")
    items = [axis_item(c, p) for _ in range(rng.choice([1, 1, 1, 2, 3]) if multi else 1)]
    seen, keep = set(), []
    for it in items:
        ax = resolve(p, it)
        if ax & seen or (it["t"] == "cls" and len(items) > 1 and not ax and False):
            continue
        seen |= ax
        keep.append(it)
    return dict(t="list", items=keep, aslist=rng.random() < .4, tup=rng.random() < .5)


def resolve(p, it):
    """axes an item stands for (only used to avoid naming one axis twice)"""
    n = len(p["shape"])
    if it["t"] == "idx":
        return {it["i"] % n} if n and -n <= it["i"] < n else set()
    if it["t"] == "cls":
        return set(i for i, d in enumerate(p["dims"]) if d["cls"] in CLS and issubclass(CLS[d["cls"]], CLS[it["c"]]))
    if it["t"] == "name":
        return set([i for i, d in enumerate(p["dims"]) if d["name"] == it["n"]][:1])
    return set(i for i, d in enumerate(p["dims"]) if (d["cls"], d["name"]) == (it["d"]["cls"], it["d"]["name"]))


def op_take(c):
    rng = c.rng
    x = c.pick(lambda p, a: plain(p, a) and p["shape"] and min(p["shape"]) > 0)
    if x is None:
        return None
    p = c.s.proj[x]
    it = axis_item(c, p)
    ax = resolve(p, it)
    if it["t"] == "cls" and len(ax) != 1:
        return None
    n = p["shape"][list(ax)[0]] if ax else 2
    return dict(op="take", x=x, axis=it, l=[rng.randint(-n, n - 1) for _ in range(rng.randint(1, 3))], dst=c.reg())


def op_transpose(c):
    rng = c.rng
    x = c.pick(lambda p, a: small(p))
    n = len(c.s.proj[x]["shape"])
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    if rng.random() < .3:
        perm = []
    return dict(op="transpose", x=x, perm=perm, dst=c.reg(), prop=rng.random() < .5)


def op_reorder(c):
    rng = c.rng
    x = c.pick(plain)
    if x is None:
        return None
    names = [d["name"] for d in c.s.proj[x]["dims"]]
    if not names:
        return None
    return dict(op="reorder", x=x, names=rng.sample(names, rng.randint(1, len(names))), dst=c.reg())


def op_t(c):
    x = c.pick(lambda p, a: consistent(p) and small(p), dims=None)
    if c.rng.random() < .6:
        ds = [c.g.dims[("DimMatrix_i", "i")], c.g.dims[("DimMatrix_j", "j")]] + [c.g.dims[k] for k in (("DimSweep", "f"), ("DimRep", "r")) if c.rng.random() < .5]
        c.rng.shuffle(ds)
        x = c.new(dims=ds)
    if x is None:
        return None
    p = c.s.proj[x]
    if sum(d["cls"] in ("DimMatrix_i", "DimMatrix_j") for d in p["dims"]) not in (0, 1, 2):
        return None
    return dict(op="t", x=x, dst=c.reg())


def op_squeeze(c):
    rng = c.rng
    x = c.pick(lambda p, a: consistent(p) and uniquenames(p) and small(p))
    if x is None:
        return None
    p = c.s.proj[x]
    ones = [i for i, n in enumerate(p["shape"]) if n == 1]
    if not ones and rng.random() < .7:
        ds = c.g.dimlist(2)
        d1 = dict(cls="DimRep", name="one", data=["3"], unit=NONE, fmt="%d")
        d2 = dict(cls="DimSweep", name="uno", data=["7"], unit="A", fmt="%d")
        ds = ds + [d1] + ([d2] if rng.random() < .5 else [])
        rng.shuffle(ds)
        x = c.new(dims=ds)
        p = c.s.proj[x]
        ones = [i for i, n in enumerate(p["shape"]) if n == 1]
    if ones and rng.random() < .8:
        k = rng.choice(ones)
        d = p["dims"][k]
        its = [dict(t="idx", i=rng.choice([k, k - len(p["shape"])])), dict(t="name", n=d["name"]), dict(t="dim", d=d)]
        ax = rng.choice([dict(t="none"), dict(t="list", items=[rng.choice(its)], aslist=rng.random() < .3)])
        if len(ones) > 1 and rng.random() < .4:
            ax = dict(t="list", items=[dict(t="name", n=p["dims"][k]["name"]) for k in ones])
    else:
        ax = axis_arg(c, p)
    return dict(op="squeeze", x=x, axis=ax, dst=c.reg())


def op_add_dim(c):
    rng = c.rng
    x = c.pick(lambda p, a: small(p, maxn=24) and len(p["shape"]) < 4)
    if x is None:
        return None
    k = rng.choice(list(c.g.dims))
    return dict(op="add_dim", x=x, d=c.g.dims[k], axis=rng.randint(0, 4), dst=c.reg())


def op_replace(c):
    rng = c.rng
    x = c.pick(lambda p, a: plain(p, a) and p["dims"])
    if x is None:
        return None
    p = c.s.proj[x]
    k = rng.randrange(len(p["dims"]))
    n = p["shape"][k]
    new = dict(cls=rng.choice(["DimSweep", "DimRep"]), name=rng.choice(["new", "nn", p["dims"][k]["name"]]),
               data=[str(100 + 3 * i) for i in range(n)], unit=rng.choice([NONE, "m"]), fmt="%d")
    if new["name"] in [d["name"] for i, d in enumerate(p["dims"]) if i != k]:
        return None
    old = p["dims"][k]["name"] if rng.random() < .85 else "nosuch"
    return dict(op="replace", x=x, old=old, d=new, strict=rng.random() < .5, dst=c.reg())


def op_align(c):
    rng = c.rng
    xs = [c.pick(lambda p, a: small(p, maxn=24)) for _ in range(rng.choice([2, 2, 3]))]
    if None in xs:
        return None
    names = set((d["cls"], d["name"]) for x in xs for d in c.s.proj[x]["dims"])
    if any(n[0].startswith("Complex") for n in names):
        return None
    return dict(op="align", xs=xs, pick=rng.randint(1, len(xs)), dst=c.reg())


def op_expand(c):
    rng = c.rng
    x = c.pick(lambda p, a: plain(p, a) and len(p["shape"]) <= 2 and p["dims"] and all(d["cls"] in CLS for d in p["dims"]))
    if x is None:
        return None
    p = c.s.proj[x]
    ok = [i for i, d in enumerate(p["dims"]) if issubclass(CLS[d["cls"]], dm._DiagAxis) and hasattr(CLS[d["cls"]], "_indep_axis")]
    if not ok or len(ok) != len([d for d in p["dims"] if issubclass(CLS[d["cls"]], dm._DiagAxis)]):
        return None
    return dict(op="expand", x=x, axis=rng.choice([0] + [i + 1 for i in ok]), dst=c.reg())


def op_fullcplx(c):
    x = c.pick(lambda p, a: small(p, maxn=16) and len(p["shape"]) <= 3 and good(p, a))
    if x is None or c.s.heap[x].dtype.kind == "b":
        return None
    return dict(op="fullcplx", x=x, dst=c.reg())


def matrix_trailing(p):
    cl = [d["cls"] for d in p["dims"]]
    both = "DimMatrix_i" in cl and "DimMatrix_j" in cl
    return not both or (len(cl) >= 3 and cl[-2:] == ["DimMatrix_i", "DimMatrix_j"])


def op_tail(c):
    if c.rng.random() < .4:
        ds = c.g.dimlist(c.rng.randint(1, 3))
        ds = [d for d in ds if d["name"] not in "ij"] + [c.g.dims[("DimMatrix_i", "i")], c.g.dims[("DimMatrix_j", "j")]]
        x = c.new(dims=ds)
    else:
        x = c.pick(lambda p, a: plain(p, a) and p["dims"])
    if x is None or not c.s.proj[x]["dims"] or not matrix_trailing(c.s.proj[x]) or 0 in c.s.proj[x]["shape"]:
        return None
    return dict(op="tail", x=x, dst=c.reg())


def op_norep(c):
    if c.rng.random() < .5:
        ds = [c.g.dims[("DimRep", "r")], c.g.dims[("DimRep", "q")]] + [c.g.dims[k] for k in (("DimSweep", "f"), ("DimSweep", "v")) if c.rng.random() < .5]
        c.rng.shuffle(ds)
        x = c.new(dims=ds)
    else:
        x = c.pick(lambda p, a: consistent(p) and small(p) and 0 not in p["shape"])
    if x is None:
        return None
    return dict(op="norep", x=x, n=c.rng.choice(["AllReps", "rr"]), dst=c.reg())


def op_mkmat(c):
    x = c.pick(lambda p, a: consistent(p) and small(p) and len(p["shape"]) >= 2 and not (set(d["name"] for d in p["dims"][:-2]) & set("ij")))
    if x is None:
        return None
    return dict(op="mkmat", x=x, dst=c.reg())


def op_copy(c):
    return dict(op=c.rng.choice(["copy", "view"]), x=c.pick(lambda p, a: small(p)), dst=c.reg())


def op_red(c):
    rng = c.rng
    x = c.pick(lambda p, a: plain(p, a) and good(p, a) and 0 not in p["shape"])
    if x is None:
        return None
    a, p = c.s.heap[x], c.s.proj[x]
    ax = axis_arg(c, p)
    axes = set(range(len(p["shape"]))) if ax["t"] == "none" else set().union(*[resolve(p, i) for i in ax["items"]]) if ax["items"] else set()
    M = 1
    for k in axes:
        M *= p["shape"][k]
    fs = ["sum"] * 2
    if p["num"] == "int":
        fs += ["min", "max"]
    ok = p["num"] == "int" or exactish(a, 12)
    if ok and (M <= 3 or p["num"] == "int"):
        fs += ["mean"]
        if magnitude(a) < 100 and (p["num"] == "int" or M <= 3):
            fs += ["var", "std"]
    if ok and magnitude(a) < 30 and (p["num"] == "int" or M <= 4):
        fs += ["rss"]
    f = rng.choice(fs)
    ddof = rng.choice([0, 1]) if f in ("var", "std") and M > 1 else 0
    keep = rng.random() < .35 and f != "rss"
    strict = rng.random() < .7 or f == "rss"
    return dict(op="red", f=f, x=x, axis=ax, keep=keep, strict=strict, ddof=ddof, dst=c.reg())


def op_cum(c):
    rng = c.rng
    x = c.pick(lambda p, a: consistent(p) and small(p) and good(p, a) and len(p["shape"]) > 0)
    if x is None:
        return None
    a, p = c.s.heap[x], c.s.proj[x]
    if not uniquenames(p):
        ax = dict(t="list", items=[dict(t="idx", i=rng.randint(-len(p["shape"]), len(p["shape"]) - 1))])
    else:
        ax = axis_arg(c, p, multi=False)
        ax["aslist"] = False
    if ax["t"] == "list" and len(ax["items"]) != 1:
        return None
    f = "cumprod" if magnitude(a) <= 12 and max(p["shape"]) <= 3 and p["num"] == "int" and rng.random() < .4 else "cumsum"
    return dict(op="cum", f=f, x=x, axis=ax, dst=c.reg())


OPGEN = dict(bin=op_bin, scal=op_scal, un=op_un, index=op_index, mask=op_mask, take=op_take, transpose=op_transpose,
             reorder=op_reorder, t=op_t, squeeze=op_squeeze, add_dim=op_add_dim, replace=op_replace, align=op_align,
             expand=op_expand, fullcplx=op_fullcplx, tail=op_tail, norep=op_norep, mkmat=op_mkmat, copy=op_copy,
             red=op_red, cum=op_cum)


def random_trace(job):
    """job: (seed string, op weights, length, related)"""
    import random
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    seed, weights, length, related = job
    rng = random.Random(seed)
    c = Ctx(rng, related)
    kinds = list(weights)
    tries = 0
    while len(c.s.trace) < length + 1 and tries < length * 6:
        tries += 1
        k = rng.choices(kinds, [weights[q] for q in kinds])[0]
        o = OPGEN[k](c)
        if o is None:
            continue
        if o.get("x", 1) is None:
            continue
        if not fits(o, c.s.heap):
            continue
        c.s.do(o)
        r = o["dst"]
        if r in c.s.heap and (not isinstance(c.s.heap[r], hfarray) or not small(c.s.proj[r], maxn=200)):
            break
    return c.s.trace


def replay_behaviour(b):
    """TLC behaviour -> trace recorded from the real code"""
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    s = Session(init=b["init"])
    for o in b["ops"]:
        s.do(o)
    return s.trace
