"""Common parts of the drivers for file formats (spec/FileBase.tla)."""
import math
import os
import random
import shutil
import tempfile
import warnings
from fractions import Fraction as F
import numpy as np
import core
from core import residue, limited, Timeout, P
import arrays as A
from arrays import hfarray, dm
from hftools.dataset import DataBlock
from hftools.file_formats.common import Comments


# ---------------------------------------------------------------- observed values
def dec(x):
    """the decimal number of up to 12 digits behind the float x"""
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        return None
    return F("%.11e" % x)


def enc(v):
    """a value or label as text"""
    if isinstance(v, bytes):
        return "t:" + v.decode("latin-1")
    if isinstance(v, str):
        return "t:" + v
    if isinstance(v, (np.datetime64, np.timedelta64)):
        return "d:" + str(v)
    if isinstance(v, (bool, np.bool_)):
        return "t:%s" % bool(v)
    try:
        z = complex(v)
    except Exception:
        return "t:%s" % (v,)
    re, im = z.real, z.imag
    m = abs(z)
    if m == m and m not in (float("inf"),):
        re = 0. if abs(re) < 1e-12 * m else re
        im = 0. if abs(im) < 1e-12 * m else im
    a, b = dec(re), dec(im)
    if a is None or b is None:
        return "?%r" % z
    return "%d+%d" % (residue(a), residue(b))


KINDS = dict(c="c", i="n", u="n", f="n", b="b", U="t", S="t", O="t", M="d")


def unit_of(u):
    return "~" if u is None else u.decode("latin-1") if isinstance(u, bytes) else str(u)


def values(a):
    arr = np.asarray(a)
    if arr.dtype.kind == "M":
        return [enc(x) for x in arr.ravel()]
    return [enc(x) for x in arr.ravel().tolist()]


def proj_dim(d):
    return dict(cls=type(d).__name__, name=d.name, data=values(d.data), unit=unit_of(d.unit))


def proj_var(n, a):
    arr = np.asarray(a)
    dims = [proj_dim(d) for d in a.dims] if hasattr(a, "dims") else [dict(cls="?", name="?", data=[], unit="~")] * arr.ndim
    return dict(n=n, kind=KINDS.get(arr.dtype.kind, "?"), dims=dims, vals=values(a), unit=unit_of(getattr(a, "unit", None)))


def proj_vars(b):
    return [proj_var(k, v) for k, v in b.vardata.items()]


def proj_ivars(b):
    return [proj_dim(d) for k, d in b.ivardata.items()]


def cmt(b):
    return list(b.comments.fullcomments) if b.comments else []


# ---------------------------------------------------------------- numbers in files
TRIPLES = [(F(3, 5), F(4, 5)), (F(-3, 5), F(4, 5)), (F(4, 5), F(-3, 5)), (F(-4, 5), F(-3, 5)), (F(7, 25), F(24, 25)), (F(-24, 25), F(-7, 25))]


class Nm(object):
    """a number as it stands in a file"""

    def __init__(self, value, text, c=None, s=None, d=None, exact=True):
        self.value, self.text = float(value), text
        self.v = residue(F(value)) if exact else -1
        self.c, self.s, self.d = [-1 if x is None else residue(F(x)) for x in (c, s, d)]
        self.rank = 0

    def tup(self):
        return [self.v, self.rank, self.c, self.s, self.d]


def render(rng, fr):
    """some way of writing the decimal fraction fr"""
    x = float(fr)
    r = rng.random()
    if fr.denominator == 1 and r < .4 and abs(fr) < 10 ** 12:
        t = "%d" % fr
    elif r < .5:
        t = "%.11g" % x
    elif r < .7:
        t = "%.10e" % x
    elif r < .8:
        t = "%.9E" % x
    elif r < .9:
        t = repr(x)
    else:
        t = "%.6f" % x if F("%.6f" % x) == fr else repr(x)
    if rng.random() < .1 and not t.startswith("-"):
        t = "+" + t
    if rng.random() < .05 and t.startswith("0.") and len(t) > 2:
        t = t[1:]
    return t


def num(rng, fr):
    fr = F(fr)
    return Nm(fr, render(rng, fr))


def rand_dec(rng, big=False):
    return F(rng.randint(-9999, 9999), rng.choice([1, 10, 100, 1000, 10000])) if not big else F(rng.randint(-99999, 99999) * 10 ** rng.randint(0, 6))


def angle(rng):
    r = rng.random()
    if r < .5:
        k = rng.randint(-6, 8)
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][k % 4]
        return Nm(90 * k, render(rng, F(90 * k)), c, s)
    c, s = rng.choice(TRIPLES)
    a = math.degrees(math.atan2(float(s), float(c))) + rng.choice([0, 0, 360, -360])
    return Nm(a, "%.15g" % a, c, s, exact=False)


def decibel(rng):
    r = rng.random()
    if r < .5:
        k = rng.randint(-3, 3)
        return Nm(20 * k, render(rng, F(20 * k)), d=F(10) ** k)
    q = rng.choice([F(2), F(1, 2), F(3), F(5, 4), F(7, 5), F(1, 4), F(9, 10)])
    a = 20 * math.log10(float(q))
    return Nm(a, "%.15g" % a, d=q, exact=False)


def pair(rng, fmt):
    """the two numbers of a complex value in a notation"""
    if fmt == "RI":
        z = rng.random()
        return [num(rng, F(0) if z < .1 else rand_dec(rng)), num(rng, F(0) if z > .9 else rand_dec(rng))]
    if fmt == "MA":
        return [num(rng, F(rng.randint(0, 999), rng.choice([1, 10, 100]))), angle(rng)]
    return [decibel(rng), angle(rng)]


def rank_all(nums):
    """gives all numbers of a file their rank in size"""
    vals = sorted(set(x.value for x in nums))
    pos = {v: k for k, v in enumerate(vals)}
    for x in nums:
        x.rank = pos[x.value]


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="hfv_files_")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def quiet():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def attempt(fn, seconds=20):
    try:
        return limited(seconds, fn), ""
    except Timeout:
        return None, "timeout"
    except Exception as e:
        return None, type(e).__name__
