"""Binding of spec/Touchstone.tla to hftools.file_formats.touchstone."""
import os
import random
from fractions import Fraction as F
import numpy as np
import core
import files as fs
from files import num, pair, rank_all, hfarray, dm, DataBlock, Comments
from hftools.file_formats import read_touchstone, save_touchstone

UNITS = ["HZ", "KHZ", "MHZ", "GHZ", "THZ", "PHZ"]
WORDS = ["DUT on wafer 3", "second sweep", "cal kit  A", "port 1 left", "remark", "4 Port Network Data", "freq reS11 imS11", "-----", "50 ohm", "freq dB[S11]", "(c) 2014"]


def case(rng, t):
    return rng.choice([t, t.lower(), t.capitalize(), t.upper()])


def line_text(rng, l, nice=False):
    """text of an abstract line"""
    ws = lambda: rng.choice([" ", "  ", "\t", " \t "]) if not nice else " "
    if l["t"] == "c":
        return rng.choice(["!", "! ", " !"]) + l["x"] + rng.choice(["", " "])
    if l["t"] == "o":
        u = l["unit"][:1].lower() + "Hz" if len(l["unit"]) > 2 else "Hz"
        parts = [rng.choice([u, u.upper(), u.lower(), l["unit"]]), case(rng, l["par"]), case(rng, l["fmt"])]
        if l["r"]:
            parts += [rng.choice(["R", "r"]), l["rtext"]]
        tail = rng.choice(["", "", "", " ! options", " "])
        return rng.choice(["#", "# ", "#\t"]) + ws().join(parts) + tail
    if l["t"] == "d":
        tail = rng.choice([""] * 6 + [" ! point", "\t!x", "  "])
        lead = rng.choice(["", "", " ", "\t"])
        return lead + ws().join(x.text for x in l["py"]) + tail
    return l["text"]


def record_lines(rng, nums, n):
    """splits the numbers of a record into lines"""
    style = rng.random()
    if n == 1 or (n == 2 and style < .6) or style < .15:
        return [nums]
    if n <= 2 or style < .3:
        out, k = [], 0
        head = 1 + 2 * rng.randint(0 if rng.random() < .2 else 1, 4)
        out.append(nums[:head])
        k = head
        while k < len(nums):
            m = 2 * rng.randint(1, 4)
            out.append(nums[k:k + m])
            k += m
        return [l for l in out if l]
    # rows of the matrix start lines, at most four pairs per line
    out = []
    for r in range(n):
        row = nums[1 + 2 * n * r:1 + 2 * n * (r + 1)]
        for k in range(0, len(row), 8):
            out.append(row[k:k + 8])
    out[0] = nums[:1] + out[0]
    return out


def freqs(rng, m, unit):
    """increasing frequencies"""
    out, f = [], F(rng.choice([0, 0, 1, 5, 100]), rng.choice([1, 1, 10]))
    for _ in range(m):
        out.append(f)
        f += F(rng.randint(1, 500), rng.choice([1, 1, 10, 100]))
    return out


def data_line(nums):
    return dict(t="d", py=nums)


def make_file(rng):
    """an abstract file (list of lines), mostly valid"""
    n = rng.choice([1, 1, 2, 2, 2, 2, 3, 3, 4, 5, 6])
    fmt = rng.choice(["RI", "MA", "DB"])
    unit = rng.choice(UNITS[:4] * 3 + UNITS)
    m = rng.randint(1, 5 if n < 4 else 3)
    par = rng.choice(["S", "S", "S", "Z", "Y"] + (["G", "H"] if n == 2 else []))
    z = rng.choice([F(50), F(50), F(75), F(100), F(1), F(505, 10), F(200)])
    opt = dict(t="o", unit=unit, par=par, fmt=fmt, r=[core.residue(z)], rtext=rng.choice(["%g" % z, "%g" % z, "%.1f" % z, "%.6f" % z]))
    if rng.random() < .15:
        opt["r"] = []
    lines = []

    def remark(p):
        while rng.random() < p:
            lines.append(dict(t="c", x=rng.choice(WORDS)))
    remark(.5)
    fl = freqs(rng, m, unit)
    recs = [[num(rng, f)] + sum([pair(rng, fmt) for _ in range(n * n)], []) for f in fl]
    lines.append(opt)
    remark(.4)
    for rec in recs:
        for l in record_lines(rng, rec, n):
            lines.append(data_line(l))
            remark(.05)
    if n == 2 and rng.random() < .45:
        r = rng.random()
        if r < .3:
            fn = fl
        elif r < .65:
            # almost the frequencies of the matrix
            fn = list(fl)
            for _ in range(rng.randint(1, 2)):
                q = rng.randrange(m)
                step = min([abs(fl[q] - x) for x in fl if x != fl[q]] or [F(1)])
                fn[q] = fl[q] + step * F(rng.choice([-1, 1]), 10 ** rng.randint(1, 4)) if q or rng.random() < .3 else fl[q]
            fn = [abs(x) for x in fn]
            if rng.random() < .2:
                fn = fn[:-1] or fn
            if fn[0] > fl[-1] or any(a >= b for a, b in zip(fn, fn[1:])):
                fn = fl
        else:
            fn = [F(0)]
            while fn[0] <= 0 and fl[-1] > 0:
                fn = [F(rng.randint(0, int(fl[-1] * 10)), 10)]
            if fn[0] > fl[-1]:
                fn = [fl[-1]]
            for _ in range(rng.randint(0, 4)):
                fn.append(fn[-1] + F(rng.randint(1, 300), 10))
        remark(.4)
        for f in fn:
            nl = [num(rng, f), fs.decibel(rng)] + pair(rng, fmt) + [num(rng, F(rng.randint(1, 999), rng.choice([10, 100])))]
            if rng.random() < .1:
                lines.append(data_line(nl[:3]))
                lines.append(data_line(nl[3:]))
            else:
                lines.append(data_line(nl))
    r = rng.random()
    if r < .2:
        damage(rng, lines, opt)
    return lines


def damage(rng, lines, opt):
    """makes the file one that says something else or nothing at all"""
    data = [k for k, l in enumerate(lines) if l["t"] == "d"]
    k = rng.choice(data)
    how = rng.choice(["drop", "add", "word", "noopt", "twoopt", "fmt", "badopt", "cut", "swap"])
    if how == "drop":
        del lines[k]["py"][rng.randrange(len(lines[k]["py"]))]
        if not lines[k]["py"]:
            del lines[k]
    elif how == "add":
        lines[k]["py"].append(num(rng, fs.rand_dec(rng)))
    elif how == "word":
        l = lines[k]["py"]
        lines[k] = dict(t="w", text=" ".join([x.text for x in l[:-1]] + [rng.choice(["x", "1.2.3", "--", "1,5", "12i"])]))
    elif how == "noopt":
        lines.remove(opt)
    elif how == "twoopt":
        lines.insert(rng.randint(0, len(lines)), dict(opt))
    elif how == "fmt":
        opt["fmt"] = rng.choice(["XY", "RR", "IM"])
    elif how == "badopt":
        t = rng.choice(["# GHZ S", "# GHZ", "#", "# cycles S RI R 50", "# GHZ Q RI R 50", "# GHZ S RI R 50 60", "# GHZ S RI R", "# GHZ S RI Q 50"])
        lines[lines.index(opt)] = dict(t="x", text=t)
    elif how == "cut":
        del lines[data[-1]:]
    else:
        q = rng.choice(data)
        lines[k], lines[q] = lines[q], lines[k]


def view(lines):
    """what the specification sees of a file"""
    rank_all([x for l in lines if l["t"] == "d" for x in l["py"]])
    out = []
    for l in lines:
        if l["t"] == "d":
            out.append(dict(t="d", n=[x.tup() for x in l["py"]]))
        elif l["t"] == "c":
            out.append(dict(t="c", x=l["x"].strip()))
        elif l["t"] == "o":
            out.append({k: l[k] for k in ("t", "unit", "par", "fmt", "r")})
        else:
            out.append(dict(t=l["t"]))
    return out


def text(rng, lines):
    rows = []
    for l in lines:
        while rng.random() < .05:
            rows.append(rng.choice(["", "  ", "\t"]))
        rows.append(line_text(rng, l))
    if rng.random() < .1:
        rows.append("")
    return "\n".join(rows) + rng.choice(["\n", "\n", ""])


def observe(b):
    return dict(vars=fs.proj_vars(b), cmt=fs.cmt(b))


def read_event(rng, d, lines, nr):
    # lines without a number left are no lines
    lines = [l for l in lines if l["t"] != "d" or l["py"]]
    t = text(rng, lines)
    fname = os.path.join(d, "file%d.s2p" % nr)
    with open(fname, "w", encoding="cp1252") as f:
        f.write(t)
    kw = rng.choice([{}, {}, dict(verbose=False), dict(merge=True)])
    res, err = fs.attempt(lambda: observe(read_touchstone(fname, **kw)))
    return dict(ev="op", o=dict(op="read", file=view(lines), raw=t), err=err, out=res or {})


def parse_back(fname):
    """tokenizes a written file, independently of the library"""
    lines = []
    for rad in open(fname, encoding="cp1252"):
        rad = rad.strip()
        if not rad:
            continue
        if rad.startswith("!"):
            lines.append(dict(t="c", x=rad[1:].strip()))
        elif rad.startswith("#"):
            p = rad[1:].upper().split()
            if len(p) == 5 and p[3] == "R":
                lines.append(dict(t="o", unit=p[0], par=p[1], fmt=p[2], r=[core.residue(F(p[4]))]))
            else:
                lines.append(dict(t="x"))
        else:
            try:
                lines.append(dict(t="d", py=[fs.Nm(fs.dec(float(x)), x) for x in rad.split()]))
            except Exception:
                lines.append(dict(t="w"))
    return lines


def save_event(rng, d, nr):
    n = rng.choice([1, 2, 2, 2, 3, 4])
    m = rng.randint(1, 5)
    kind = rng.choice(["c", "c", "c", "f", "i"])
    fl = [float(x * 10 ** rng.choice([0, 6, 9])) for x in freqs(rng, m, "HZ")]
    fl = sorted(set(fl))
    m = len(fl)
    val = lambda: float(fs.rand_dec(rng))
    if kind == "c":
        a = np.array([complex(val(), val()) for _ in range(m * n * n)])
    elif kind == "f":
        a = np.array([val() for _ in range(m * n * n)])
    else:
        a = np.array([rng.randint(-9, 9) for _ in range(m * n * n)])
    name = rng.choice(["freq", "freq", "f", "x"])
    fi = dm.DimSweep(name, fl, unit=rng.choice(["Hz", None]))
    b = DataBlock()
    b.S = hfarray(a.reshape(m, n, n), dims=(fi, dm.DimMatrix_i("i", n), dm.DimMatrix_j("j", n)))
    if rng.random() < .3:
        b.Vg = hfarray(rng.randint(1, 9) / 4., unit="V")
    if rng.random() < .15:
        b.x2 = hfarray(np.arange(m) * 1.5, dims=(fi,))
    com = [rng.choice(WORDS + ["Temperature 23 \xb0C", "\xe5\xe4\xf6"]) for _ in range(rng.randint(0, 3))]
    b.comments = Comments(list(com))
    before = fs.proj_vars(b)
    blk = [v for v in before if v["n"] == "S"]
    blk[0]["kind"] = "c"
    blk[0]["unit"] = "?"
    fname = os.path.join(d, "saved%d.s2p" % nr)

    def fn():
        save_touchstone(b, fname)
        return observe(read_touchstone(fname))
    res, err = fs.attempt(fn)
    try:
        written = view(parse_back(fname))
        raw = open(fname, encoding="latin-1").read()
    except Exception as e:
        written, raw = [dict(t="x")], ""
    if not err and fs.proj_vars(b) != before and [v for v in fs.proj_vars(b) if v["n"] == "S"][0]["vals"] != blk[0]["vals"]:
        err = "the block changed by being saved"
    return dict(ev="op", o=dict(op="save", file=written, block=blk, cmt=com, raw=raw), err=err, out=res or {})


def random_trace(job):
    fs.quiet()
    seed, length = job
    rng = random.Random(seed)
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        for k in range(length):
            if rng.random() < .75:
                trace.append(read_event(rng, d, make_file(rng), k))
            else:
                trace.append(save_event(rng, d, k))
    return trace


def replay_behaviours(bhs):
    """files written by MCTouch's writer"""
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        for k, bh in enumerate(bhs):
            rng = random.Random(k)
            lines = []
            for l in bh["file"]:
                l = dict(l)
                if l["t"] == "d":
                    l = dict(t="d", py=[fs.Nm(x[1], str(x[1]), d=F(10) ** (x[1] // 20) if x[1] % 20 == 0 and abs(x[1]) < 100 else None) for x in l["n"]])
                elif l["t"] == "o":
                    l["rtext"] = str(l["r"][0]) if l["r"] else ""
                elif l["t"] == "x":
                    l["text"] = "# GHZ S"
                elif l["t"] == "w":
                    l["text"] = "1 2 three"
                lines.append(l)
            trace.append(read_event(rng, d, lines, k))
    return trace
