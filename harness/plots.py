"""Driver for spec/Plots.tla: labelled arrays are plotted on every kind of axes, the drawn lines and texts are read back from matplotlib."""
import cmath
import importlib
import math
import os
import random
import re
import numpy as np
import core
import files as fs
from core import residue, P
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import hftools.plotting
from hftools.dataset import hfarray, DimSweep, DimRep
from mathh import Maker, lines_first, cval, snap, ratio, phase_of, TURN, OFF

POLAR = ["db", "db10", "mag", "mag_square", "deg", "rad", "unwrapdeg", "unwraprad", "groupdelay", "cplxpolar"]
CART = ["real", "imag", "x-si", "unity", "rectilinear", "cplx", "smith", "cpolar"]
BOTHAXES = ["db", "db10", "mag", "mag_square", "unity", "cplx", "groupdelay", "real", "imag", "deg", "unwrapdeg", "rad", "unwraprad"]
UNITS = ["Hz", "s", "m", "V", "A", "W", None, None, "h", "Ohm"]


def tokens(s):
    return [dict([(u"\xb0", "deg"), (u"\u2212", "-"), (u"\xb5", "mu"), (u"\u03bc", "mu")]).get(c, c) for c in s]


def dec7(x):
    fr = fs.dec(x)
    return -1 if fr is None else residue(fr)


class Axes(object):
    def __init__(self, rng):
        self.rng, self.m = rng, Maker(rng)
        self.trace = core.new_trace(dict(ev="reset"))
        self.fig = None

    def step(self, o, fn):
        out, err = {}, ""
        try:
            core.limited(20, fn, out)
        except core.Timeout:
            err = "Timeout"
        except Exception as e:
            err = type(e).__name__
            out["raw"] = str(e)[:300]
        self.trace.append(dict(ev="step", o=o, out=out, err=err))
        return not err

    def axes(self, kind):
        self.kind = kind

        def run(out):
            if self.fig is not None:
                plt.close(self.fig)
            self.fig = plt.figure(figsize=(3, 3))
            self.ax = self.fig.add_subplot(111, projection=kind)
        return self.step(dict(op="axes", kind=kind), run)

    def close(self):
        if self.fig is not None:
            plt.close(self.fig)

    def plot(self, kind=None):
        rng = self.rng
        kind = kind or self.kind
        n = rng.choice([2, 3, 4, 6]) if kind == "groupdelay" else rng.choice([1, 2, 3, 4, 6])
        shape = self.m.shape(first=n)
        dims = list(self.m.dims(shape))
        e = rng.choice([0, 0, 3, 9, -9, -6, 6, -3])
        x0 = sorted(rng.sample(range(-20 if kind != "groupdelay" else 0, 30), n))
        if rng.random() < .2 and kind not in ("groupdelay",):
            rng.shuffle(x0)
        xu, yu = rng.choice(UNITS), rng.choice(UNITS)
        dims[0] = DimSweep(dims[0].name, [x * 10. ** e for x in x0], unit=xu)
        size = int(np.prod(shape))
        cplx = kind not in ("x-si", "unity") and (kind != "rectilinear" or rng.random() < .5)
        if kind in POLAR:
            ks = lines_first(self.m, shape, lambda: self.m.phases(n))
            base = 60 * rng.randint(-3, 3)
            ds = [base + 20 * rng.randint(-1, 2) for _ in ks] if kind in ("mag", "mag_square", "cplxpolar") else [rng.choice([0, 6, -20, 13, 40]) for _ in ks]
            data = [dict(d=d, k=k) for d, k in zip(ds, ks)]
            vals = [cval(d, k) for d, k in zip(ds, ks)]
            if rng.random() < .15 and kind in ("db", "db10", "mag", "mag_square"):
                vals = [abs(v) * rng.choice([-1, 1]) for v in vals]
            s = 0
        else:
            data = [dict(re=rng.randint(-9, 9), im=rng.randint(-9, 9) if cplx else 0) for _ in range(size)]
            s = rng.choice([0, 0, -6, 3, -9])
            vals = [complex(z["re"], z["im"]) * 10. ** s if cplx else z["re"] * 10. ** s for z in data]
            if not cplx and s == 0 and rng.random() < .3:
                vals = [int(v) for v in vals]
        arr = np.array(vals).reshape(shape)
        if rng.random() < .3:
            arr = np.asfortranarray(arr)
        y = hfarray(arr, dims=tuple(dims), unit=yu)
        how = rng.choice(["one", "one", "two", "xnd", "style", "xarr"])
        if how == "xnd" and (kind in ("groupdelay",) or len(shape) == 1):
            how = "two"
        xn, x, xv = 1, list(x0), None
        if how == "two":
            xv = hfarray(dims[0])
        elif how == "xarr":
            x = sorted(rng.sample(range(0, 40), n))
            u2 = rng.choice(UNITS)
            xv = hfarray([v * 10. ** e for v in x], dims=(dims[0],), unit=u2)
            xu = u2
        elif how == "xnd":
            xn, x = len(shape), [rng.randint(-9, 9) for _ in range(size)]
            u2 = rng.choice(UNITS)
            xv = hfarray(np.array(x).reshape(shape) * 10. ** e, dims=tuple(dims), unit=u2)
            xu = u2
        one = how in ("one", "style")
        own = kind == self.kind
        kw = {} if own else dict(projection=kind)
        args = [y] if one else [xv, y]
        if how == "style" or rng.random() < .2:
            args.append(rng.choice(["-", "o", "--"]))
        o = dict(op="plot", kind=kind, shape=shape, x=x, xn=1 if xn == 1 else 2, data=data, xu=tokens(xu or ""), yu=tokens(yu or ""), name=str(dims[0].name), one=one, cplx=bool(cplx), how=how)
        plane = kind in ("cplx", "smith", "cpolar") or (kind == "rectilinear" and cplx)

        def run(out):
            before = len(self.ax.lines)
            if rng.random() < .2:
                plt.sca(self.ax)
                res = plt.plot(*args, **kw)
            else:
                res = self.ax.plot(*args, **kw)
            lines = []
            for l in list(self.ax.lines)[before:]:
                gx, gy = [np.asarray(v).flatten().tolist() for v in l.get_data(orig=True)]
                if kind in POLAR[:4]:
                    f = dict(db=snap, db10=lambda v: snap(2 * v), mag=dec7, mag_square=dec7)[kind]
                    ys = [f(v) for v in gy]
                elif kind in ("deg", "unwrapdeg"):
                    ys = [snap(v, .25) for v in gy]
                elif kind in ("rad", "unwraprad"):
                    ys = [snap(math.degrees(v), .25) for v in gy]
                elif kind == "groupdelay":
                    ys = [ratio(v * 10. ** e, 1440 * 50, 1e-11) for v in gy]
                elif kind == "cplxpolar":
                    ys = [dec7(v) for v in gy]
                else:
                    ys = [dec7(v * 10. ** -s) for v in gy]
                if kind == "cplxpolar":
                    xs = [snap(math.degrees(v), .25) for v in gx]
                elif plane:
                    xs = [dec7(v * 10. ** -s) for v in gx]
                else:
                    xs = [ratio(v * 10. ** -e) for v in gx]
                lines.append([dict(x=a, y=b) for a, b in zip(xs, ys)] if len(xs) == len(ys) else [])
            out["lines"] = lines
            out["returned"] = len(res)
        return self.step(o, run)

    def fmt(self, axis, unit):
        pre = self.rng.choice(["foo ", "", "{default} " if axis == "x" else "bar "])
        kw = {} if unit is None else dict(unit=unit)
        power = self.rng.random() < .3 and not (axis == "y" and self.kind in ("db", "db10"))
        self.step(dict(op="fmt", axis=axis, pre=pre, unit=tokens(unit or ""), power=power), lambda out: getattr(self.ax, "set_%slabel_fmt" % axis)(pre + ("[^]" if power else "[]"), **kw))

    def unit(self, axis, unit):
        self.step(dict(op="unit", axis=axis, unit=tokens(unit)), lambda out: getattr(self.ax, "set_%slabel_unit" % axis)(unit))

    def ticks(self, axis, ts, e):
        locs = [t * 10. ** e for t in ts]

        def run(out):
            getattr(self.ax, "set_%sticks" % axis)(locs)
            lo, hi = min(locs), max(locs)
            pad = (hi - lo) * .01 or abs(hi) or 1
            getattr(self.ax, "set_%slim" % axis)(lo - pad, hi + pad)
        self.step(dict(op="ticks", axis=axis, ts=ts, e=e), run)

    def lim(self, axis, lo, hi):
        self.step(dict(op="lim", axis=axis), lambda out: getattr(self.ax, "set_%slim" % axis)(lo, hi))

    def texts(self, axis, checked):
        a = self.ax.xaxis if axis == "x" else self.ax.yaxis
        if not checked:
            return dict(axis=axis, checked=False)
        locs = [float(v) for v in a.get_majorticklocs()]
        ticks = [t.get_text() for t in a.get_majorticklabels()]
        label = a.get_label().get_text()
        power = re.match(r"(.*)\$\[10\^\{+(-?\d+)\}+(?:\\rm\{(.*)\})?\]\$$", label)
        pre, inner = (power.group(1), (power.group(3) or "U") + "]") if power else (label.split("[", 1) + [""])[:2] if "[" in label else (label, "")
        big = max([abs(v) for v in locs] or [0])
        scale = 0 if big == 0 else int(math.floor(math.log10(big))) - 6
        rd = [int(round(v * 10. ** -scale)) if big else 0 for v in locs]
        return dict(axis=axis, checked=bool(locs), ticks=[tokens(t) for t in ticks], locs=rd, scale=scale, pre=pre, power=int(power.group(2)) if power else 0, pform=bool(power), inner=tokens(inner[:-1] if inner.endswith("]") else inner + "?"))

    # --- charts: points of drawn curves as normalised impedances or admittances, in 1/10000
    @staticmethod
    def immittance(g, adm):
        den = 1 + g if adm else 1 - g
        if abs(den) < 1e-3:
            return dict(far=True, re=0, im=0)
        q = ((1 - g) if adm else (1 + g)) / den
        return dict(far=False, re=int(round(q.real * 10000)), im=int(round(q.imag * 10000)))

    @classmethod
    def curve(cls, patch, adm):
        from matplotlib.patches import Arc, Polygon, Circle
        if isinstance(patch, Polygon):
            a, b = [complex(*v) for v in patch.get_xy()[:2]]
            pts = [a + (b - a) * f for f in (0, .1, .35, .5, .8, 1)]
        else:
            c, rx = complex(*patch.center), patch.width / 2
            t1, t2 = (patch.theta1, patch.theta2) if isinstance(patch, Arc) else (0, 360)
            span = (t2 - t1) % 360 or (360 if t1 != t2 else 0)
            pts = [c + rx * cmath.exp(1j * math.radians(t1 + span * f)) for f in (0, .01, .1, .35, .5, .8, .99, 1)]
        return [cls.immittance(z, adm) for z in pts]

    def arc(self):
        smith = importlib.import_module("hftools.plotting.smith")
        rng = self.rng
        which = rng.choice("RXGB")
        pos = [0, 3333, 5000, 10000, 20000, 30000]
        both = [-v for v in pos[1:]] + pos
        fix = rng.choice(pos if which in "RG" else both)
        lo, hi = sorted(rng.sample(both if which in "RG" else pos, 2))
        far = lambda: rng.random() < .25
        ends = [-math.inf if which in "RG" and far() else lo, math.inf if far() else hi]
        v = lambda n: n / 10000.

        def run(out):
            c = getattr(smith, which + "Circle")(v(fix), *[e if math.isinf(e) else v(e) for e in ends])
            out["points"] = self.curve(c.get_artist(color="k"), which in "GB")
        enc = lambda e: dict(inf=math.isinf(e), at=0 if math.isinf(e) else int(e))
        return self.step(dict(op="arc", which=which, fix=fix, lo=enc(ends[0]), hi=enc(ends[1])), run)

    def chart(self):
        smith = importlib.import_module("hftools.plotting.smith")
        rng = self.rng
        mode, standard = rng.choice(["full", "upper", "lower"]), rng.random() < .6

        def run(out):
            fig = plt.figure(figsize=(2, 2))
            try:
                ax = fig.add_subplot(111)
                if standard and mode == "full" and rng.random() < .5:
                    ax = fig.add_subplot(111, projection="smith")
                    first = 1
                else:
                    smith.smith_grid(ax, mode, standard)
                    first = 0
                out["curves"] = [self.curve(c, not standard) for c in list(ax.patches)[first:]]
            finally:
                plt.close(fig)
        return self.step(dict(op="chart", mode=mode, standard=standard), run)

    def draw(self):
        def run(out):
            self.fig.canvas.draw()
            out["x"] = self.texts("x", self.kind in BOTHAXES or self.kind == "x-si")
            out["y"] = self.texts("y", self.kind in BOTHAXES)
        return self.step(dict(op="draw"), run)


TICKS = [[0, 5, 10], [25, 50, 75], [900, 950, 1000], [-2, 0, 2], [1, 200000], [125, 250, 375], [0], [999, 1001], [-1500, 1], [1000], [1, 2, 3, 4], [99995, 99996], [3, 3333], [1, 10001]]


def random_ticks(rng):
    if rng.random() < .5:    # round values but for one or two
        unit = rng.choice([10, 100, 1000])
        ts = [unit * k for k in range(rng.randint(-3, 2), rng.randint(3, 9))]
        for _ in range(rng.randint(1, 2)):
            ts.append(rng.choice(ts) + rng.choice([1, 5, unit // 2, unit // 4, 2]))
        return sorted(set(ts))
    top = rng.choice([9, 40, 400, 5000, 99999])
    return sorted(rng.sample(range(-top if rng.random() < .4 else 0, top + 1), rng.randint(1, 9)))


def random_trace(job):
    seed, steps = job
    rng = random.Random(seed)
    fs.quiet()
    a = Axes(rng)
    kind = rng.choice(POLAR + CART + ["mag", "db", "groupdelay"])
    if rng.random() < .12:
        for _ in range(steps):
            a.chart() if rng.random() < .3 else a.arc()
        return a.trace
    try:
        if not a.axes(kind) or not a.plot():
            return a.trace
        for _ in range(steps):
            r = rng.random()
            axis = rng.choice("xy")
            texts = kind in BOTHAXES
            if r < .25:
                # another projection for one call, on axes that draw plain lines
                other = rng.choice(["db", "mag", "real", "deg"]) if texts and kind not in ("cplx",) and rng.random() < .2 else None
                if not a.plot(other if other else None):
                    break
            elif r < .55:
                if not a.draw():
                    break
            elif not texts:
                continue
            elif r < .66:
                a.fmt(axis, rng.choice([None, "V", "Hz", "m"]))
            elif r < .72:
                a.unit(axis, rng.choice(["V", "Hz", "s", "K"]))
            elif r < .95:
                plain = axis == "y" and kind in ("db", "db10")
                a.ticks(axis, random_ticks(rng) if rng.random() < .5 else rng.choice(TICKS), rng.choice([-3, -2, -1, 0, 1, 2] if plain else [-27, -24, -15, -9, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 7, 9, 21, 24]))
            else:
                lo = rng.randint(-50, 50)
                s = 10. ** (rng.randint(-1, 2) if axis == "y" and kind in ("db", "db10") else rng.randint(-12, 12))
                a.lim(axis, lo * s, (lo + rng.randint(1, 99)) * s)
        a.draw()
    finally:
        a.close()
    return a.trace


def replay_behaviour(bh):
    """histories of MCPlots"""
    fs.quiet()
    rng = random.Random(repr(bh))
    a = Axes(rng)
    try:
        kind = rng.choice(BOTHAXES)
        a.axes(kind)
        axis = "x" if kind in ("db", "db10") else rng.choice("xy")
        for o in bh["ops"]:
            if o["op"] == "unit":
                a.unit(axis, "".join(o["unit"]))
            elif o["op"] == "ticks":
                a.ticks(axis, o["ticks"], o["scale"])
            else:
                a.draw()
    finally:
        a.close()
    return a.trace
