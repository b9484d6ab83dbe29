"""Driver for spec/Helpers.tla: phases, delays, smoothing and interpolation of hftools.math on data whose results are known exactly."""
import cmath
import math
import random
from fractions import Fraction as F
import numpy as np
import core
import files as fs
from core import residue, P
import hftools.math as hm
from hftools.dataset import hfarray, DimSweep, DimRep
from hftools.dataset.arrayobj import _hfarray

OFF = 10 ** 8
TURN = 1440
FINE = 2520


def snap(x, unit=1.0, tol=1e-6):
    """the integer number of units in x, OFF if there is none"""
    x = float(x) / unit
    if x != x or abs(x) > 1e7:
        return OFF
    r = round(x)
    return int(r) if abs(x - r) < tol * max(1.0, abs(x) * 1e-3) else OFF


def phase_of(z):
    return snap(math.degrees(cmath.phase(complex(z))), .25)


def level_of(z):
    m = abs(complex(z))
    return snap(20 * math.log10(m)) if m > 0 and m == m else OFF


def ratio(x, maxden=20000, tol=1e-10):
    fr = core.rational(x, maxden, tol)
    return -1 if fr is None else residue(fr)


def number(z):
    """residue of a rational or Gaussian rational number"""
    return core.gf(z, 5000, 1e-9)[0] if isinstance(z, (complex, np.complexfloating)) else ratio(z, 5000, 1e-9)


def dims_of(a):
    if not isinstance(a, _hfarray):
        return [dict(n="", l=["%d" % k for k in range(n)]) for n in np.shape(a)]
    return [dict(n=str(d.name), l=[core.label(x) for x in d.data]) for d in a.dims]


def aligned(a, dims):
    """the array with its dimensions in the order of dims: the order is not part of the contract"""
    names = [d["n"] for d in dims]
    if isinstance(a, _hfarray) and len(set(names)) == len(names):
        mine = [str(d.name) for d in a.dims]
        if sorted(mine) == sorted(names) and mine != names and len(set(mine)) == len(mine):
            perm = [mine.index(n) for n in names]
            return hfarray(np.asarray(a).transpose(perm), dims=tuple(a.dims[p] for p in perm))
    return a


def cval(d, k):
    return 10 ** (d / 20.) * cmath.exp(2j * math.pi * k / TURN)


NAMES = ["freq", "Vg", "A", "rep", "zz"]


class Maker(object):
    def __init__(self, rng):
        self.rng = rng

    def shape(self, nd=None, first=None):
        rng = self.rng
        nd = rng.choice([1, 1, 2, 2, 3]) if nd is None else nd
        return [rng.choice([1, 2, 3, 4, 5, 8]) if first is None else first] + [rng.choice([1, 2, 3]) for _ in range(nd - 1)]

    def dims(self, shape):
        rng = self.rng
        out = []
        for nm, n in zip(rng.sample(NAMES, len(shape)), shape):
            data = sorted(rng.sample(range(-9, 40), n))
            out.append((DimRep if nm == "rep" else DimSweep)(nm, data, unit=rng.choice([None, "Hz", "V"])))
        return tuple(out)

    def phases(self, n, smooth=None):
        """a walk of phases"""
        rng = self.rng
        kind = smooth or rng.choice(["walk", "walk", "any", "ramp", "cut"])
        if kind == "any":
            return [rng.randrange(-TURN, TURN) for _ in range(n)]
        k = rng.choice([0, 720, -720, 719, -719, rng.randrange(-720, 720), 100 * rng.randint(-7, 7)])
        step = rng.randint(-719, 719)
        out = []
        for _ in range(n):
            out.append(k)
            k += step if kind == "ramp" else rng.choice([-1440, 1440, 719, -719, 1, 700]) if kind == "cut" else rng.choice([rng.randint(-719, 719), 720, 0, rng.randint(-90, 90)])
        return out


def lines_first(m, shape, draw):
    """values of an array whose lines along the first axis are drawn one by one"""
    rest = int(np.prod(shape[1:])) if len(shape) > 1 else 1
    cols = [draw() for _ in range(rest)]
    return [cols[c][r] for r in range(shape[0]) for c in range(rest)]


class Calls(object):
    def __init__(self, rng):
        self.rng, self.m = rng, Maker(rng)
        self.trace = core.new_trace(dict(ev="reset"))

    def step(self, o, fn):
        out, err = {}, ""
        try:
            core.limited(10, fn, out)
        except core.Timeout:
            err = "Timeout"
        except Exception as e:
            err = type(e).__name__
            out["raw"] = str(e)[:200]
        self.trace.append(dict(ev="step", o=o, out=out, err=err))

    def array(self, vals, shape, dims, plain=False):
        a = np.array(vals).reshape(shape)
        if self.rng.random() < .3:
            a = np.asfortranarray(a)
        return a if plain else hfarray(a, dims=dims, unit=self.rng.choice([None, "V"]))

    # ---- phases
    def angle(self, ks=None, shape=None):
        rng = self.rng
        shape = shape or self.m.shape()
        n = int(np.prod(shape))
        ks = ks or [rng.randrange(-TURN, TURN) for _ in range(n)]
        deg, b = rng.random() < .5, rng.choice([None, None, -720, 0, 720, rng.randrange(-1440, 1440), 4 * rng.randint(-360, 360)])
        plain = rng.random() < .2
        z = self.array([cval(rng.choice([0, 0, -20, 13]), k) for k in ks], shape, self.m.dims(shape), plain)
        kw = {}
        if deg or rng.random() < .5:
            kw["deg"] = deg
        if b is not None or rng.random() < .3:
            kw["branch"] = None if b is None else b / 4. if deg else math.radians(b / 4.)
        # the ends of the branch: moved by rounding onto the other end
        near = -720 if b is None else b

        def run(out):
            a = hm.angle(z, **kw)
            out["a"] = [snap(x if deg else math.degrees(x), .25) for x in np.asarray(a).flatten().tolist()]
            out["dims"] = dims_of(a)
        self.step(dict(op="angle", k=ks, b=near, dims=dims_of(z)), run)

    def unwrap(self, ks=None, shape=None):
        rng = self.rng
        shape = shape or self.m.shape()
        ks = ks or lines_first(self.m, shape, lambda: self.m.phases(shape[0]))
        deg = rng.random() < .5
        z = self.array([cval(rng.choice([0, 0, -20, 13, 3]), k) for k in ks], shape, self.m.dims(shape))

        def run(out):
            a = hm.unwrap_phase(z, **(dict(deg=deg) if deg or rng.random() < .5 else {}))
            out["a"] = [snap(x if deg else math.degrees(x), .25) for x in np.asarray(a).flatten().tolist()]
            out["dims"] = dims_of(a)
        self.step(dict(op="unwrap", k=ks, axis=1, shape=shape, dims=dims_of(z)), run)

    def delay(self, ks=None):
        rng = self.rng
        n = len(ks) if ks else rng.choice([2, 3, 4, 6])
        shape = self.m.shape(first=n) if not ks else [n]
        dims = list(self.m.dims(shape))
        e = rng.choice([0, 0, 3, 9])
        f = sorted(rng.sample(range(0, 30), n))
        dims[0] = DimSweep(dims[0].name, [x * 10. ** e for x in f], unit="Hz")
        order = list(range(len(shape)))
        rng.shuffle(order)
        ks = ks or lines_first(self.m, shape, lambda: self.m.phases(n))
        arr = np.array(ks).reshape(shape).transpose(order)
        dims2 = tuple(dims[j] for j in order)
        z = hfarray(np.vectorize(lambda k: cval(rng.choice([0, -20, 13]), k))(arr), dims=dims2)
        fr = hfarray(dims[0])
        fn = str(dims[0].name)

        def run(out):
            fm, tau = hm.delay(fr, z)
            out["names"] = [str(d.name) for d in tau.dims]
            out["tau"] = [ratio(x * 10 ** e, 1440 * 40, 1e-11) for x in np.asarray(tau).flatten().tolist()]
            out["f"] = [ratio(x * 10. ** -e) for x in np.broadcast_to(np.asarray(fm), tau.shape).flatten().tolist()]
        self.step(dict(op="delay", f=f, fn=fn, k=[int(x) for x in arr.flatten()], dims=[dict(n=d["n"], l=d["l"]) for d in dims_of(z)]), run)

    # ---- smoothing
    def smooth(self, ys=None):
        rng = self.rng
        shape = [len(ys)] if ys else self.m.shape(first=rng.choice([1, 2, 3, 5, 7, 9]))
        if not ys and rng.random() < .5:
            rng.shuffle(shape)
        axis = rng.randrange(len(shape))
        n = int(np.prod(shape))
        cplx = rng.random() < .3
        ys = ys or [rng.randint(-9, 9) for _ in range(n)]
        if cplx:
            ys = [complex(y, rng.randint(-5, 5)) for y in ys]
        kind = rng.choice(["plain", "hf", "hf", "int", "list"])
        dims = self.m.dims(shape)
        data = self.array(ys if cplx or kind == "int" else [float(y) for y in ys], shape, dims, kind in ("plain", "list"))
        x = data.tolist() if kind == "list" else data
        ap = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
        given = (axis,) if axis or rng.random() < .5 else ()
        if given and rng.random() < .3:
            given = (axis - len(shape),)

        def run(out):
            a = hm.smooth(x, ap, *given)
            out["v"] = [number(v) for v in np.asarray(a).flatten().tolist()]
            out["dims"] = dims_of(a)
        self.step(dict(op="smooth", v=[number(y) for y in ys], shape=shape, axis=axis + 1, ap=ap, dims=dims_of(data)), run)

    def smoothmp(self, ks=None):
        rng = self.rng
        shape = [len(ks)] if ks else self.m.shape(first=rng.choice([1, 2, 3, 5, 7, 9]))
        axis = 0
        if not ks and rng.random() < .5:
            axis = rng.randrange(len(shape))
        if ks is None:
            sh = [shape[axis]] + [n for j, n in enumerate(shape) if j != axis]
            flat = np.array(lines_first(self.m, sh, lambda: self.m.phases(sh[0]))).reshape(sh)
            ks = [int(k) for k in np.moveaxis(flat, 0, axis).flatten()]
        ms = [rng.randint(1, 9) for _ in ks]
        z = self.array([m * cval(0, k) for m, k in zip(ms, ks)], shape, self.m.dims(shape))
        ap = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
        given = (axis,) if axis or rng.random() < .5 else ()

        def run(out):
            a = aligned(hm.smooth_magphase(z, ap, *given), dims_of(z))
            flat = np.asarray(a).flatten().tolist()
            out["v"] = [ratio(abs(v), 5000, 1e-9) for v in flat]
            out["p"] = [snap(math.degrees(cmath.phase(v)), .25 / FINE, 1e-3) for v in flat]
            out["dims"] = dims_of(a)
        self.step(dict(op="smoothmp", v=ms, k=ks, shape=shape, axis=axis + 1, ap=ap, dims=dims_of(z)), run)

    def poly(self, both=False):
        rng = self.rng
        n = rng.randint(4, 10)
        x = sorted(rng.sample(range(-6, 7), n))
        N = rng.choice([1, 2, 3])
        ap = rng.randint(N + 1, n)
        c = [rng.randint(-2, 2) for _ in range(rng.randint(1, N + 1))]
        dims = (DimSweep("x", [float(t) for t in x]),)
        xs = hfarray([float(t) for t in x], dims=dims)
        # the degree may be left out when it is three
        kw = {} if N == 3 and rng.random() < .5 else dict(N=N)
        if not both:
            y = hfarray([float(np.polyval(c, t)) for t in x], dims=dims)

            def run(out):
                a = hm.poly_smooth(xs, y, ap, **kw)
                out["v"] = [snap(v) for v in np.asarray(a).tolist()]
                out["dims"] = dims_of(a)
            return self.step(dict(op="poly", x=x, c=c, ap=ap, N=N, dims=dims_of(y)), run)
        c = [rng.randint(0, 1) for _ in range(N - 1)] if N % 2 else []
        c = [rng.randint(0, 2), 0, 3] if N >= 2 else [rng.randint(0, 1), 9]
        cp = [rng.randint(-50, 50), rng.randint(-720, 720)]
        if N >= 2 and rng.random() < .5:
            cp = [rng.randint(-3, 3)] + cp
        if max(abs(np.polyval(cp, b) - np.polyval(cp, a)) for a, b in zip(x, x[1:])) >= 719:
            cp = [40, 3]
        z = hfarray([float(np.polyval(c, t)) * cval(0, float(np.polyval(cp, t))) for t in x], dims=dims)

        def run(out):
            a = hm.poly_smooth_magphase(xs, z, ap, **kw)
            out["v"] = [snap(abs(v)) for v in np.asarray(a).tolist()]
            out["a"] = [phase_of(v) for v in np.asarray(a).tolist()]
            out["dims"] = dims_of(a)
        self.step(dict(op="polymp", x=x, c=c, cp=cp, ap=ap, N=N, dims=dims_of(z)), run)

    # ---- interpolation
    def interp(self, ys=None):
        rng = self.rng
        n = len(ys) if ys else rng.choice([2, 3, 4, 6])
        nd = 1 if ys or rng.random() < .6 else 2
        m = rng.randint(1, 3) if nd == 2 else 1
        x = sorted(rng.sample(range(-9, 12), n))
        ys = ys or [rng.randint(-9, 9) for _ in range(n * m)]
        if rng.random() < .3:
            ys = [complex(y, rng.randint(-5, 5)) for y in ys]
        strict = rng.random() < .7
        lo, hi = 4 * x[0], 4 * x[-1]
        if not strict or rng.random() < .2:
            lo, hi = lo - 6, hi + 6
        t = [rng.choice([rng.randint(lo, hi), 4 * rng.choice(x)]) for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < .5:
            t = sorted(set(t))
        xd = DimSweep("x", [float(v) for v in x])
        kind = rng.choice(["plain", "list", "hf", "hf", "mixed"]) if nd == 1 else "hf" if rng.random() < .7 else "mixed"
        dims = (xd,) if nd == 1 else (xd, DimSweep("g", range(m)))
        y = np.array(ys).reshape([n] + [m] * (nd - 1))
        xi = [v / 4. for v in t]
        scalar = nd == 1 and len(t) == 1 and rng.random() < .5
        if kind in ("plain", "list"):
            args = [np.array(x, float), y, np.array(xi)] if kind == "plain" else [x, y.tolist(), xi]
            odims = [dict(n="", l=["%d" % k for k in range(len(t))])]
        else:
            args = [hfarray(xd), hfarray(y, dims=dims), hfarray(xi, dims=(DimSweep("x", xi),)) if kind == "hf" else xi]
            odims = [dict(n="x", l=[core.label(v) for v in xi])] + dims_of(hfarray(y, dims=dims))[1:]
        if scalar and kind != "hf":
            args[2] = xi[0]
            odims = []

        def run(out):
            a = (hm.interpolate if strict else hm.linear_extrapolate)(*args)
            out["v"] = [number(v) for v in np.asarray(a).flatten().tolist()]
            out["dims"] = dims_of(a)
        self.step(dict(op="interp", x=x, y=[number(v) for v in ys], m=m, t=t, strict=strict, odims=odims), run)

    # ---- forms of complex numbers
    def forms(self, ks=None):
        rng = self.rng
        shape = self.m.shape() if not ks else [len(ks)]
        n = int(np.prod(shape))
        ks = ks or [rng.randrange(-TURN, TURN) for _ in range(n)]
        ds = [rng.choice([0, 20, -20, 6, -40, 13, 100, -7]) for _ in ks]
        dims = self.m.dims(shape)
        how = rng.choice(["dB", "dBinv", "dbang", "magang", "reim", "realdb"])
        mk = lambda v: self.array(v, shape, dims)
        z = [cval(d, k) for d, k in zip(ds, ks)]
        arg = mk(z)
        o = dict(op="db" if how in ("dB", "dBinv", "realdb") else "complex", d=ds, how=how, dims=dims_of(arg))
        if o["op"] == "complex":
            o["k"] = ks
        args = dict(dB=lambda: [arg], realdb=lambda: [mk([rng.choice([-1, 1]) * 10 ** (d / 20.) for d in ds])], dBinv=lambda: [mk([float(d) for d in ds])],
                    dbang=lambda: [mk([float(d) for d in ds]), mk([k / 4. for k in ks])],
                    magang=lambda: [mk([10 ** (d / 20.) for d in ds]), mk([k / 4. for k in ks])],
                    reim=lambda: [mk([v.real for v in z]), mk([v.imag for v in z])])[how]()
        fn = dict(dB=hm.dB, realdb=hm.dB, dBinv=hm.dBinv, dbang=hm.dB_angle_to_complex, magang=hm.mag_angle_to_complex, reim=hm.re_im_to_complex)[how]

        def run(out):
            a = aligned(fn(*args), o["dims"])
            flat = np.asarray(a).flatten().tolist()
            out["d"] = [snap(v) for v in flat] if how in ("dB", "realdb") else [level_of(v) for v in flat]
            out["a"] = [phase_of(v) for v in flat] if o["op"] == "complex" else []
            out["dims"] = dims_of(a)
        self.step(o, run)

    def root(self, ks=None):
        rng = self.rng
        shape = self.m.shape() if not ks else [len(ks)]
        ks = ks or [2 * (k // 2) for k in lines_first(self.m, shape, lambda: self.m.phases(shape[0]))]
        ds = [2 * rng.randint(-10, 10) for _ in ks]
        z = self.array([cval(d, k) for d, k in zip(ds, ks)], shape, self.m.dims(shape))

        def run(out):
            a = aligned(hm.continous_phase_sqrt(z), dims_of(z))
            flat = np.asarray(a).flatten().tolist()
            out["d"], out["a"] = [level_of(v) for v in flat], [phase_of(v) for v in flat]
            out["dims"] = dims_of(a)
        self.step(dict(op="root", d=ds, k=ks, shape=shape, dims=dims_of(z)), run)

    def chop(self):
        rng = self.rng
        shape = self.m.shape()
        n = int(np.prod(shape))
        th = rng.randint(0, 6)
        vs = [rng.randint(-9, 9) for _ in range(n)]
        scale = 2. ** rng.choice([0, -60, 10])
        x = self.array([v * scale for v in vs], shape, self.m.dims(shape), rng.random() < .3)
        keep = np.array(x, copy=True)

        def run(out):
            a = hm.chop(x, th * scale)
            out["v"] = [snap(v, scale) for v in np.asarray(a).flatten().tolist()]
            out["dims"] = dims_of(a)
            out["same"] = bool(np.array_equal(np.asarray(x), keep))
        self.step(dict(op="chop", v=vs, th=th, dims=dims_of(x)), run)


def random_trace(job):
    seed, steps = job
    rng = random.Random(seed)
    fs.quiet()
    c = Calls(rng)
    acts = [c.angle, c.unwrap, c.unwrap, c.delay, c.smooth, c.smooth, c.smoothmp, c.poly, lambda: c.poly(True), c.interp, c.interp, c.forms, c.root, c.chop]
    for _ in range(steps):
        rng.choice(acts)()
    return c.trace


def replay_behaviour(bh):
    """sequences of MCHelpers"""
    fs.quiet()
    c = Calls(random.Random(repr(bh)))
    ks, ys = bh["ks"], bh["ys"]
    for f in (c.unwrap, c.delay, c.smoothmp, c.root, c.forms):
        f(list(ks)) if f != c.unwrap else f(list(ks), [len(ks)])
    c.angle(list(ks), [len(ks)])
    c.smooth(list(ys))
    c.interp(list(ys))
    return c.trace
