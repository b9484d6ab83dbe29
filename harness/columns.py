"""Binding of spec/Columns.tla: how columns and comments of files are interpreted."""
import os
import random
from fractions import Fraction as F
import numpy as np
import core
import files as fs
import si as sid
from files import num, rank_all
from hftools.file_formats import read_spdata
from hftools.file_formats.common import Comments as FileComments
from hftools.dataset.comments import Comments as DataComments


def nm(base, fn="", i=-1, j=-1, br=False, sp="", unit="", alpha=True):
    return dict(fn=fn, base=base, i=i, j=j, br=br, sp=sp, unit=sid.chars(unit), alpha=alpha)


def name_text(n):
    idx = "" if n["i"] < 0 else "[%d,%d]" % (n["i"], n["j"]) if n["br"] else "%d%d" % (n["i"], n["j"])
    t = n["base"] + idx
    if n["fn"]:
        t = "%s(%s)" % (n["fn"], t)
    if n["unit"]:
        t += n["sp"] + "[" + "".join(n["unit"]) + "]"
    return t


UNITS = ["V", "mV", "A", "uA", "mA", "Ohm", "kOhm", "S", "GHz", "MHz", "Hz", "dBm", "W", "mW", "pF", "C", "deg", "ms", "min", "mX", "cm", "K"]
BASES = ["V", "I", "Vds", "Ids", "Id", "T", "P_out", "Vgs", "Gm", "Power", "x", "Ig"]
TABLE = ["b1/a1 raw", "b1/a2 raw", "b2/a1 raw", "b2/a2 raw", "a1 raw", "a1/a2 raw", "a2/a1 raw", "a2 raw",
         "b1/a1", "b1/a2", "b2/a1", "b2/a2", "a1", "a1/a2", "a2/a1", "a2"]
SWEEPS = ["Freq", "freq", "Frequency", "f", "Vgs", "t", "n", "X"]


def maybe_unit(rng, p=.3):
    if rng.random() < p:
        return dict(unit=rng.choice(UNITS), sp=rng.choice([" ", " ", "", "  "]))
    return {}


def numbers(rng, n, what="n"):
    if what == "ang":
        return [fs.angle(rng) for _ in range(n)]
    if what == "mag":
        return [num(rng, F(rng.randint(0, 999), rng.choice([1, 10, 100]))) for _ in range(n)]
    if rng.random() < .2:
        return [num(rng, F(rng.randint(-99, 99))) for _ in range(n)]
    return [num(rng, fs.rand_dec(rng)) for _ in range(n)]


class Block(object):
    """columns of one table"""

    def __init__(self, rng, rows):
        self.rng, self.rows = rng, rows
        self.cols = []          # dict(nm, kind, py)
        self.seen = set()
        self.cores = set()

    def add(self, n, what="n"):
        t = name_text(n)
        if t in self.seen:
            return
        self.seen.add(t)
        if what in ("n", "ang", "mag"):
            self.cols.append(dict(nm=n, kind="n", py=numbers(self.rng, self.rows, what)))
        elif what == "t":
            self.cols.append(dict(nm=n, kind="t", py=[self.rng.choice(["ab", "c d", "x1", "ok", "Nej", "0x1", "a-b"]) for _ in range(self.rows)]))
        else:
            self.cols.append(dict(nm=n, kind="d", py=["%04d-%02d-%02d %02d:%02d%s" % (
                self.rng.randint(1990, 2030), self.rng.randint(1, 12), self.rng.randint(1, 28), self.rng.randint(0, 23), self.rng.randint(0, 59), ":%02d" % self.rng.randint(0, 59))
                for _ in range(self.rows)]))

    def plain(self):
        rng = self.rng
        base = rng.choice(BASES)
        self.add(nm(base, alpha=base != "P_out" or True, **maybe_unit(rng)))

    def cpair(self, n):
        """a complex value in two columns, sometimes only one of them"""
        rng = self.rng
        core_ = (n["base"], n["i"], n["j"])
        if core_ in self.cores:
            return
        self.cores.add(core_)
        fmt = rng.choice(["RI", "RI", "MA"])
        a, b = dict(n), dict(n)
        a["fn"], b["fn"] = ("Re", "Im") if fmt == "RI" else ("Mag", "Arg")
        if fmt == "MA" and rng.random() < .5:
            b["unit"], b["sp"] = rng.choice([([], ""), (list("deg"), " ")])
        if fmt == "RI" and rng.random() < .08:
            b["unit"], b["sp"] = (list("mV"), " ") if not b["unit"] else ([], "")
        both = [(a, "n" if fmt == "RI" else "mag"), (b, "n" if fmt == "RI" else "ang")]
        if rng.random() < .3:
            both.reverse()
        if rng.random() < .1:
            both.pop()
        for x, w in both:
            self.add(x, w)
        if rng.random() < .06:
            self.add(dict(n))

    def matrix(self):
        rng = self.rng
        base = rng.choice(["S", "Z", "Y", "b", "T", "Sx", "H_x", "V"])
        rows, cols = rng.choice([(2, 2), (2, 2), (1, 2), (2, 1), (3, 3), (2, 3), (1, 1)])
        i0, j0 = rng.choice([(1, 1)] * 6 + [(0, 0), (2, 1), (1, 3)])
        els = [(i0 + r, j0 + c) for r in range(rows) for c in range(cols)]
        if rng.random() < .15 and len(els) > 1:
            els.remove(rng.choice(els))
        if rng.random() < .4:
            rng.shuffle(els)
        u = maybe_unit(rng, .15)
        style = rng.choice(["c", "c", "n", "mix", "mean"])
        for i, j in els:
            if style == "mean":
                self.add(nm(base, "Mean", i, j, **u))
            elif style == "c" or (style == "mix" and rng.random() < .5):
                self.cpair(nm(base, "", i, j, **u))
            else:
                self.add(nm(base, "", i, j, **u))
        if rng.random() < .1:
            self.add(nm(base))
        if rng.random() < .1:
            self.add(nm(base + "1", "", i0, j0, alpha=False))

    def waves(self):
        rng = self.rng
        for t in rng.sample(TABLE, rng.randint(1, 6)) if rng.random() < .5 else rng.choice([TABLE[:4], TABLE[4:8], TABLE[8:12], TABLE[12:], TABLE[8:], TABLE[:8]]):
            if rng.random() < .5:
                self.cpair(nm(t, alpha=False))
            else:
                self.add(nm(t, alpha=False))
        if rng.random() < .3:
            self.add(nm(rng.choice("ab"), "", rng.randint(1, 2), rng.randint(1, 2)))

    def stat(self):
        rng = self.rng
        base = rng.choice(BASES)
        self.add(nm(base, "Mean", **maybe_unit(rng, .2)))
        if rng.random() < .5:
            self.add(nm(base, "Std"))
        if rng.random() < .2:
            self.add(nm(base))
        if rng.random() < .05:
            self.add(nm("s_" + base))

    def other(self):
        rng = self.rng
        n = nm(rng.choice(BASES + ["S"]), rng.choice(["dB", "Abs", "Var", "re", "Re", "Im", "Arg"]), *rng.choice([(-1, -1), (1, 1)]))
        core_ = (n["base"], n["i"], n["j"])
        if core_ not in self.cores:
            self.cores.add(core_)
            self.add(n)

    def words(self):
        self.add(nm(self.rng.choice(["Name", "Remark", "who"])), "t")

    def dates(self):
        self.add(nm(self.rng.choice(["Date", "Stamp"])), "d")

    def fill(self):
        rng = self.rng
        for _ in range(rng.randint(1, 4)):
            rng.choice([self.plain, self.plain, self.matrix, self.matrix, self.matrix, self.waves, self.stat, self.other, self.words, self.dates,
                        lambda: self.cpair(nm(rng.choice(BASES), **maybe_unit(rng)))])()

    def view(self, x):
        rank_all([v for c in [x] + self.cols if c["kind"] == "n" for v in c["py"]])
        vals = lambda c: [v.tup() for v in c["py"]] if c["kind"] == "n" else ["t:" + v for v in c["py"]] if c["kind"] == "t" else ["d:" + v.replace(" ", "T") for v in c["py"]]
        return dict(x=dict(nm=x["nm"], num=x["kind"] == "n", vals=vals(x), unit="~"),
                    cols=[dict(nm=c["nm"], kind=c["kind"], dims=[], vals=vals(c), unit="~") for c in self.cols])


def column_text(c):
    return [v.text if c["kind"] == "n" else v for v in c["py"]]


def sweep(rng, rows):
    base = rng.choice(SWEEPS)
    start = fs.rand_dec(rng)
    vals = [start + k * F(rng.choice([1, 5, 25]), rng.choice([1, 10])) for k in range(rows)]
    if rng.random() < .2:
        rng.shuffle(vals)
    return dict(nm=nm(base, **maybe_unit(rng, .4)), kind="n", py=[num(rng, v) for v in vals])


PNAMES = ["Temp", "Vds", "Id", "DUT", "Operator", "Average_Count", "Start Frequency", "Date", "Time", "IF_Bandwidth", "Power1", "Cal kit", "Note", "MV_8_104_GT1"]
TEXTS = ["abc", "OML WR-03 Cal kit", "No Cal - Raw Data", "N/A", "4 Port Network Data", "LIN", "Agilent E8361A", "x = 5", "a: b", "12:30", "2010-13-01", "2010-01", "1.2.3", "Cable at Port 1", '"HP8510C raw waves"', "Fri Jun 11 09:53:19 2010", "5 V and 3 A", "2002-10-25, 09:09"]


def prop(rng):
    n = rng.choice(PNAMES)
    u = None
    r = rng.random()
    if r < .35:
        u = rng.choice(UNITS + ["%", "#", "dB/GHz", " ", "1=ON"])
    r = rng.random()
    if r < .6:
        v = sid.number(rng)
        if u is None and rng.random() < .5:
            un = sid.unit(rng)
            un = "V" if un == "#" else un
            v += (" " if un[0] in "eE" else rng.choice(["", " ", "  "])) + un
    elif r < .75:
        v = "%04d-%02d-%02d" % (rng.randint(1950, 2050), rng.randint(1, 12), rng.randint(1, 28))
        if rng.random() < .7:
            v += rng.choice([" ", " ", "  ", "\t"]) + "%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59)) + rng.choice(["", ":%02d" % rng.randint(0, 59)])
    else:
        v = rng.choice(TEXTS)
    sep = rng.choice([":", "="])
    text = n + rng.choice(["", " ", "   "]) + ("" if u is None else "[" + u + "]" + rng.choice(["", " "])) + sep + rng.choice(["", " ", " ", "  "]) + v
    return dict(n=n, u=["?"] if u is None else sid.chars(u), v=sid.chars(v)), text


REMARKS = ["Measurement data for connection # 1", "plain remark", "second line", "PNA settings read from the instrument",
           "measured @ 300K", "by me@lab.org", "50% of the wafer!", 'the "good" part', "-- - --", "END", "a\tb", "1 2 3", "VAR BEGIN DATA", "x"]


def prop_list(rng, n):
    props, lines = [], []
    for _ in range(n):
        if rng.random() < .2:
            lines.append(rng.choice(REMARKS))
        else:
            p, t = prop(rng)
            props.append(p)
            lines.append(t)
    return props, lines


def prop_vars(d):
    out = []
    for k, v in d.items():
        if isinstance(v, str):
            out.append(dict(n=k, kind="t", dims=[], vals=["t:" + v.strip()], unit="~"))
        else:
            out.append(fs.proj_var(k, v) if hasattr(v, "dims") else dict(n=k, kind="d" if isinstance(v, np.datetime64) else "n", dims=[], vals=[fs.enc(v)], unit="~"))
    return out


def props_event(rng):
    props, lines = prop_list(rng, rng.randint(1, 8))

    def fn():
        c = FileComments(list(lines))
        return dict(vars=prop_vars(c.property), cmt=list(c.fullcomments))
    res, err = fs.attempt(fn)
    return dict(ev="op", o=dict(op="props", props=props, cmt=lines, raw=lines), err=err, out=res or {})


def import_event(rng, d, k):
    rows = rng.randint(1, 4)
    b = Block(rng, rows)
    x = sweep(rng, rows)
    b.seen.add(name_text(x["nm"]))
    b.fill()
    if rng.random() < .3:
        rng.shuffle(b.cols)
    props, lines = prop_list(rng, rng.choice([0, 0, 1, 3]))
    return table_event(rng, d, k, b, x, props, lines)


def table_event(rng, d, k, b, x, props, lines):
    on = lambda: rng.random() < .85
    flags = dict(cplx=on(), unit=on(), norm=on(), mat=on(), prop=on())
    allc = [x] + b.cols
    table = ["\t".join(name_text(c["nm"]) for c in allc)] + ["\t".join(r) for r in zip(*[column_text(c) for c in allc])]
    text = "\n".join(["!" + l for l in lines] + table) + "\n"
    fname = os.path.join(d, "t%d.txt" % k)
    with open(fname, "w", encoding="cp1252") as f:
        f.write(text)

    def fn():
        r = read_spdata(fname, make_complex=flags["cplx"], property_to_vars=flags["prop"], guess_unit=flags["unit"], normalize=flags["norm"], make_matrix=flags["mat"])
        vs = fs.proj_vars(r)
        for v in vs:
            if v["kind"] == "t":
                v["vals"] = ["t:" + t[2:].strip() for t in v["vals"]]
        return dict(vars=vs, ivars=fs.proj_ivars(r))
    res, err = fs.attempt(fn)
    return dict(ev="op", o=dict(op="import", block=b.view(x), props=props, flags=flags, raw=text), err=err, out=res or {})


def random_trace(job):
    fs.quiet()
    seed, length = job
    rng = random.Random(seed)
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        for k in range(length):
            trace.append(props_event(rng) if rng.random() < .3 else import_event(rng, d, k))
    return trace


def replay_behaviours(bhs):
    """tables built by MCCols"""
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        for k, bh in enumerate(bhs):
            rng = random.Random(k)
            b = Block(rng, 1)
            mk = lambda c: dict(nm=c["nm"], kind="n", py=[])
            x = mk(bh["block"]["xs"][0])
            x["py"] = [num(rng, F(3))]
            for c in bh["block"]["cols"]:
                q = mk(c)
                v = c["vals"][0][0]
                q["py"] = [fs.Nm(90 * v, str(90 * v), *[(1, 0), (0, 1), (-1, 0), (0, -1)][v % 4])] if q["nm"]["fn"] == "Arg" else [num(rng, F(v))]
                b.cols.append(q)
            trace.append(table_event(rng, d, k, b, x, [], []))
    return trace
