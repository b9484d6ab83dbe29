"""Binding of spec/SI.tla to hftools.constants.si_units."""
import random
from fractions import Fraction as F
import numpy as np
import core
import files as fs
from hftools.constants import si_units as si

PRE = ["", "d", "c", "m", "u", "n", "p", "f", "a", "k", "M", "G", "T", "P", "E"]
NAMES = ["Hz", "s", "S", "Ohm", "m", "V", "A", "F", "W"]
ODD = ["dBm", "dB", "min", "mXYZ", "cm2x", "Pa", "mol", "kg", "cd", "Px", "mm", "EV", "kHzz", "hz", "ohm", "Em", "dB/GHz", "C", "K", "x", "ah", "kB", "MeV", "Z", "zHz", "YHz", "mHZ", "%", "nH", "pFF", "Mohm", "GHz/s"]
DULL = ["", "abc", "--", "+", "-", ".", "e5", "V", "mV 3", "[V]", "3 4", "1,5", "5 V 3", "4 Port Network", "1.2.3", "2010-10-19", "0x10", "5 (V)", "-.", "+ 5", "1 e", ".e3", "--5", "1e5.5", "3 dogs here", "N/A", "16:01"]


def chars(t):
    return ["mu" if c in "\u03bc\u00b5" else c for c in t]


def unit(rng):
    r = rng.random()
    if r < .6:
        return rng.choice(PRE) + rng.choice(NAMES)
    if r < .95:
        return rng.choice(ODD)
    return "#"


def number(rng):
    t = rng.choice(["", "", "", "-", "-", "+"])
    a, b = rng.randint(0, 5), rng.randint(0, 5)
    d = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    r = rng.random()
    if r < .3:
        t += d(max(a, 1))
    elif r < .8:
        t += d(max(a, 1)) + "." + d(b)
    else:
        t += "." + d(max(b, 1))
    if rng.random() < .4:
        t += rng.choice("eE") + rng.choice(["", "+", "-"]) + rng.choice(["0", "1", "3", "6", "9", "10", "12", "03", "011", "2"])
    return t


def got(x):
    u = getattr(x, "unit", None)
    arr = np.asarray(x)
    fr = fs.dec(arr.item()) if arr.shape == () and arr.dtype.kind in "if" else None
    return dict(v=-1 if fr is None else core.residue(fr), unit=fs.unit_of(u))


def ev(o, fn, raw):
    res, err = fs.attempt(fn)
    o["raw"] = raw
    return dict(ev="op", o=o, err=err, out=res or {})


def value_event(t):
    return ev(dict(op="value", text=chars(t)), lambda: got(si.string_number_with_unit_to_value(t)), t)


def fmt_event(rng):
    neg = rng.random() < .4
    d = rng.choice([0, 1, 5, 10, 99, 100, 999, 1000, 1001, 9999, 99999, 999999, rng.randint(1, 999999), rng.randint(1, 999999), rng.randint(1, 999)])
    x = rng.randint(-29, 26)
    digs = rng.randint(0, 6)
    nd = len(str(d))
    order = nd - 1 + x
    if d and not -24 <= order <= 26:
        x = rng.randint(-24, 20) - nd + 1
        order = nd - 1 + x
    s = x - (order - order % 3) + digs
    if d and (s < 0 and 2 * (d % 10 ** -s) == 10 ** -s):
        d += 1     # no ties: their rounding depends on the binary value
        return fmt_event(rng)
    if d and (s > 8 or d * 10 ** max(s, 0) > 2 * 10 ** 9 or -s > 8):
        digs = 0 if -s <= 8 else 3
        return fmt_event(rng)
    u = rng.choice(["", "V", "Hz", "Ohm", "s", "A"])
    greek = rng.random() < .3
    v = float("%s%de%d" % ("-" if neg else "", d, x))
    how = rng.randrange(3)
    if how == 0:
        fn = lambda: si.format_number(v, unit=u, digs=digs, greek=greek)
    elif how == 1:
        fn = lambda: si.SIFormat(unit=u, digs=digs, greek=greek) % v
    else:
        fn = lambda: si.SIFormat(unit=u, digs=digs, greek=greek) % np.float64(v)
    o = dict(op="fmt", neg=neg, d=d, x=x, digs=digs, unit=chars(u), greek=greek)
    e = ev(o, lambda: dict(text=chars(fn())), repr(v))
    if neg and d == 0 and not e["err"] and e["out"]["text"][:1] == ["-"]:
        e["out"]["text"] = e["out"]["text"][1:]     # minus zero
    return e


def mult_event(u, pad=("", "")):
    def fn():
        m, b = si.unit_to_multiplier(pad[0] + u + pad[1])
        return dict(v=core.residue(fs.dec(m)), unit=fs.unit_of(b))
    return ev(dict(op="mult", u=chars(u)), fn, u)


def one(rng):
    r = rng.random()
    if r < .15:
        return mult_event(unit(rng), rng.choice([("", ""), (" ", ""), ("", " ")]))
    if r < .55:
        sp = rng.choice(["", "", " ", "  ", "\t"])
        t = number(rng)
        q = rng.random()
        if q < .75:
            u = unit(rng)
            if u == "#":
                u = "V"
            if t[-1] in "0123456789." and u[0] in "eE" and not sp:
                sp = " "
            t += sp + (u if rng.random() < .6 else "[" + u + "]")
        elif q < .8:
            t = rng.choice(DULL)
        return value_event(rng.choice(["", "", " "]) + t + rng.choice(["", "", " "]))
    if r < .7:
        u = unit(rng)
        t = number(rng) if rng.random() < .85 else rng.choice(DULL)
        asnum = rng.random() < .3
        try:
            val = float(t) if asnum else t
        except ValueError:
            val = t
        if rng.random() < .1:
            u = ""
        return ev(dict(op="conv", u=chars(u), text=chars(t)), lambda: got(si.convert_with_unit(u, val)), "%r %r" % (u, val))
    return fmt_event(rng)


def constants(job):
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))
    for u in NAMES:
        for p in PRE:
            trace.append(ev(dict(op="const", u=chars(p + u)), lambda: dict(v=core.residue(fs.dec(getattr(si.siunits, p + u)))), p + u))
            trace.append(mult_event(p + u))
    for u in ODD:
        trace.append(mult_event(u))
    for t in DULL:
        trace.append(value_event(t))
    return trace


def random_trace(job):
    fs.quiet()
    seed, length = job
    rng = random.Random(seed)
    trace = core.new_trace(dict(ev="reset"))
    for k in range(length):
        trace.append(one(rng))
    return trace


def replay_behaviours(bhs):
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))
    for b in bhs:
        trace.append(value_event("".join(b["text"])))
    return trace
