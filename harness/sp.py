"""Binding of spec/Sp.tla to hftools.file_formats.spdata."""
import os
import random
import re
from fractions import Fraction as F
import numpy as np
import core
import files as fs
import si as sid
import columns as co
from columns import nm, name_text
from files import num, rank_all, hfarray, dm, DataBlock, Comments
from hftools.file_formats import read_spdata, save_spdata

PARAMS = ["Vdd", "Tchuck", "lot", "run", "VDS_SET", "bias_pt"]
SCALARS = ["Temp", "DUT", "Operator", "Average_Count", "Start Frequency", "Date", "IF_Bandwidth"]
WORDS = ["abc", "chip 7", "N/A", "x", "left-hand"]


# ---------------------------------------------------------------- reading
def quantity(rng, kind):
    """unit (or None) and value text of one property of a kind"""
    if kind == "t":
        return None, rng.choice(WORDS)
    if kind == "d":
        return None, "%04d-%02d-%02d %02d:%02d:%02d" % (rng.randint(1950, 2050), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    v = fs.render(rng, fs.rand_dec(rng)).lstrip("+")
    r = rng.random()
    if kind == "n" and r < .4:
        return rng.choice(["V", "mV", "GHz", "K", "C"]), v
    if kind == "n" and r < .6:
        return None, v + rng.choice([" V", " mA", " K", "V"])
    return None, v


def prop_line(rng, n, kind, at=False):
    u, v = quantity(rng, kind)
    sep = rng.choice(["=", ":"])
    text = n + rng.choice(["", " "]) + ("" if u is None else "[" + u + "]") + sep + rng.choice(["", " "]) + v
    p = dict(n=n, u=["?"] if u is None else sid.chars(u), v=sid.chars(v))
    return dict(t="c", x=text, p=[p], at=at)


def param_line(rng, n, u, v):
    text = n + ("" if u is None else rng.choice(["", " "]) + "[" + u + "]") + rng.choice(["=", ": ", " = ", ":"]) + v
    return dict(t="c", x=text, p=[dict(n=n, u=["?"] if u is None else sid.chars(u), v=sid.chars(v))], at=True)


def columns(rng):
    b = co.Block(rng, 1)
    b.fill()
    return b


def again(rng, c, rows):
    """new values for a column"""
    if c["kind"] != "n":
        b = co.Block(rng, rows)
        b.add(c["nm"], c["kind"])
        return b.cols[0]["py"]
    what = "ang" if c["nm"]["fn"] == "Arg" else "mag" if c["nm"]["fn"] == "Mag" else "n"
    return co.numbers(rng, rows, what)


def layout(rng, first):
    """columns of the blocks of one group: (template, repetitions)"""
    if first:
        b = co.Block(rng, 1)
        b.seen |= set(PARAMS)
        b.fill()
        cols = b.cols
    else:
        cols = [dict(nm=nm(n, **co.maybe_unit(rng)), kind="n", py=[]) for n in rng.sample(["Qa", "Qb", "Qc"], rng.randint(1, 2))]
    reps = [1] * len(cols)
    r = rng.random()
    if r < .12:
        reps = [rng.choice([2, 3])] * len(cols)
    elif r < .25:
        k = rng.randrange(len(cols))
        n = cols[k]["nm"]
        if n["i"] < 0 and not n["fn"] and n["alpha"] and sum(1 for c in cols if c["nm"]["base"] == n["base"]) == 1:
            reps[k] = rng.choice([2, 3])
    return cols, reps


def table(rng, x, cols, reps):
    """header and rows"""
    rows = len(x["py"])
    out = [(x["nm"], "n", x["py"])]
    rest = [(c["nm"], c["kind"], again(rng, c, rows)) for c, k in zip(cols, reps) for _ in range(k)]
    if rng.random() < .2:
        # interleave, keeping the order of first appearance
        head, seen, tail = [], set(), []
        for q in rest:
            t = name_text(q[0])
            (tail if t in seen else head).append(q)
            seen.add(t)
        rest = head + tail
    out += rest
    lines = [dict(t="h", names=[n for n, _, _ in out])]
    for k in range(rows):
        lines.append(dict(t="d", py=[(kind, v[k]) for _, kind, v in out]))
    return lines


def make_file(rng):
    rows = rng.randint(1, 3)
    x = co.sweep(rng, rows)
    lines = []
    groups = 1 if rng.random() < .85 else 2
    blocks = []
    for g in range(groups):
        cols, reps = layout(rng, g == 0)
        # (a name of a variable in one group and of a sweep in the other makes no block)
        cols = [c for c in cols if name_text(c["nm"]) != name_text(x["nm"]) and (groups == 1 or c["nm"]["base"] != x["nm"]["base"])] or [dict(nm=nm("Qd"), kind="n", py=[])]
        reps = (reps + [1])[:len(cols)]
        names = rng.sample(PARAMS[:3] if g == 0 else PARAMS[3:], rng.choice([0, 1, 1, 2, 2, 3]))
        scal = [(n, rng.choice("nntd"), rng.random() < .7) for n in rng.sample(SCALARS[:4] if g == 0 else SCALARS[4:], rng.choice([0, 0, 1, 2]))]
        kinds = [rng.choice("nnt") for _ in names]
        sizes = [rng.choice([1, 2, 2, 3]) for _ in names]
        while np.prod(sizes) > 6:
            sizes[rng.randrange(len(sizes))] = 1
        pool = lambda k, m: rng.sample(WORDS, m) if k == "t" else [fs.render(rng, F(v, 10)).lstrip("+") for v in rng.sample(range(-50, 90), m)]
        labs = [pool(k, m) for k, m in zip(kinds, sizes)]
        units = [rng.choice([None, None, "V", "mV", "K"]) if k == "n" else None for k in kinds]
        pts = [tuple(labs[q][i[q]] for q in range(len(names))) for i in np.ndindex(*sizes)] if names else [()]
        if rng.random() < .4:
            rng.shuffle(pts)
        if rng.random() < .15 and len(pts) > 1:
            pts = pts[:-1] if rng.random() < .5 else pts[:-1] + [pts[0]]
        lone = rng.randrange(len(pts))
        for q, p in enumerate(pts):
            head = [param_line(rng, n, u, v) for n, u, v in zip(names, units, p)]
            for n, kind, everywhere in scal:
                if everywhere or q == lone:
                    head.append(prop_line(rng, n, kind))
            while rng.random() < .2:
                head.append(dict(t="c", x=rng.choice(co.REMARKS), p=[], at=False))
            if rng.random() < .3:
                pl = [h for h in head if h["at"]]
                rng.shuffle(head)
                if rng.random() < .9:                       # parameters mostly in the same order everywhere
                    it = iter(pl)
                    head = [next(it) if h["at"] else h for h in head]
            cc, rr = list(cols), list(reps)
            if rng.random() < .04 and len(cc) > 1:
                z = rng.randrange(len(cc))
                del cc[z], rr[z]
            blocks.append(head + table(rng, x, cc, rr))
    if groups == 2 and rng.random() < .3:
        rng.shuffle(blocks)
    lines = [l for b in blocks for l in b]
    if rng.random() < .12:
        damage(rng, lines)
    return lines


def damage(rng, lines):
    how = rng.choice(["header", "wide", "narrow", "comment", "headless", "data", "cut"])
    pos = lambda t: [k for k, l in enumerate(lines) if l["t"] == t]
    if how in ("wide", "narrow"):
        k = rng.choice(pos("d"))
        py = lines[k]["py"]
        lines[k] = dict(t="d", py=py + [("n", num(rng, F(3)))] if how == "wide" or len(py) == 1 else py[:-1])
    elif how == "comment":
        lines.append(dict(t="c", x="the end", p=[], at=False))
    elif how == "header":
        lines.append(dict(t="h", names=lines[pos("h")[0]]["names"]))
    elif how == "headless":
        del lines[rng.choice(pos("h"))]
    elif how == "data":
        k = rng.choice(pos("h"))
        while k + 1 < len(lines) and lines[k + 1]["t"] == "d":
            del lines[k + 1]
    else:
        del lines[pos("h")[-1]:]


def cell_text(kind, v):
    return v.text if kind == "n" else v


def text(rng, lines):
    rows = []
    for l in lines:
        if l["t"] == "c":
            rows.append("!" + ("@" if l["at"] else rng.choice(["", " "])) + l["x"])
        elif l["t"] == "h":
            rows.append("\t".join(name_text(n) + rng.choice(["", "", " "]) for n in l["names"]))
        else:
            rows.append("\t".join(cell_text(k, v) for k, v in l["py"]))
        if rng.random() < .05:
            rows.append("")
    return "\n".join(rows) + "\n"


def view(lines):
    rank_all([v for l in lines if l["t"] == "d" for k, v in l["py"] if k == "n"])
    out = []
    for l in lines:
        if l["t"] == "d":
            out.append(dict(t="d", cells=[dict(k=k, v=v.tup() if k == "n" else "t:" + v if k == "t" else "d:" + v.replace(" ", "T")) for k, v in l["py"]]))
        else:
            out.append(dict(l))
    return out


def observe(b):
    vs = fs.proj_vars(b)
    for v in vs:
        if v["kind"] == "t":
            v["vals"] = ["t:" + t[2:].strip() for t in v["vals"]]
    return dict(vars=vs, ivars=fs.proj_ivars(b), cmt=[c.strip() for c in fs.cmt(b)])


def read_event(rng, d, lines, k):
    t = text(rng, lines)
    fname = os.path.join(d, "f%d.txt" % k)
    with open(fname, "w", encoding="cp1252") as f:
        f.write(t)
    on = lambda: rng.random() < .9
    fl = dict(cplx=on(), unit=on(), norm=on(), mat=on(), prop=on())
    merge, hyper = rng.random() < .8, rng.random() < .5

    def fn():
        r = read_spdata(fname, make_complex=fl["cplx"], property_to_vars=fl["prop"], guess_unit=fl["unit"], normalize=fl["norm"], make_matrix=fl["mat"], merge=merge, hyper=hyper)
        return dict(l=[observe(b) for b in (r if isinstance(r, list) else [r])])
    res, err = fs.attempt(fn)
    return dict(ev="op", o=dict(op="read", file=view(lines), flags=fl, merge=merge, hyper=hyper, raw=t), err=err, out=res or {})


# ---------------------------------------------------------------- saving
def parse_name(t):
    t = t.strip()
    m = re.match(r"^(.*?)( *)\[([^\]]*)\]$", t)
    unit, sp = ("", "")
    if m:
        t, sp, unit = m.group(1), m.group(2), m.group(3)
    fn = ""
    m = re.match(r"^([A-Za-z]+)\((.*)\)$", t)
    if m:
        fn, t = m.groups()
    m = re.match(r"^([A-Za-z_]+)([0-9])([0-9])$", t)
    if m:
        return nm(m.group(1), fn, int(m.group(2)), int(m.group(3)), sp=sp, unit=unit)
    return nm(t, fn, sp=sp, unit=unit)


def parse_back(fname, scalars):
    """tokenizes a written file, independently of the library"""
    lines = []
    for rad in open(fname, encoding="cp1252"):
        rad = rad.rstrip("\n")
        if not rad.strip():
            continue
        if rad[0] == "!":
            at = rad[1:2] == "@"
            x = rad[2 if at else 1:]
            m = re.match(r"^(.*=)(.*)$", x)
            try:
                x = m.group(1) + "%.12g" % float(m.group(2))
            except (AttributeError, ValueError):
                pass
            m = re.match(r"^([^\[=:]+?) *(?:\[([^\]]*)\])? *=(.*)$", x)
            if m and (at or m.group(1) in scalars):
                lines.append(dict(t="c", x=x.strip(), at=at, p=[dict(n=m.group(1), u=["?"] if m.group(2) is None else sid.chars(m.group(2)), v=sid.chars(m.group(3)))]))
            else:
                lines.append(dict(t="c", x=x.strip(), at=at, p=[]))
        elif re.match("[A-Za-z_]", rad.strip()) and (not lines or lines[-1]["t"] != "d" or not lines[-1]["py"] or lines[-1].get("end")):
            lines.append(dict(t="h", names=[parse_name(c) for c in rad.split("\t")]))
        elif re.match("[A-Za-z_]", rad.strip()):
            lines.append(dict(t="h", names=[parse_name(c) for c in rad.split("\t")]))
        else:
            cells = []
            for c in rad.split("\t"):
                try:
                    fr = fs.dec(float(c))
                    cells.append(("n", fs.Nm(fr, c)))
                except ValueError:
                    cells.append(("t", c.strip()))
            lines.append(dict(t="d", py=cells))
    return view(lines)


def values(rng, shape, kind):
    n = int(np.prod(shape)) if shape else 1
    if kind == "t":
        v = [rng.choice(WORDS) for _ in range(n)]
    elif kind == "i":
        v = [rng.randint(-999, 999) for _ in range(n)]
    else:
        v = [float(fs.rand_dec(rng)) for _ in range(n)]
        if kind == "c":
            v = [a + 1j * float(fs.rand_dec(rng)) for a in v]
    return np.array(v).reshape(shape)


def make_block(rng):
    xs = []
    for n in rng.sample(["freq", "Va", "Vb", "Lot", "Power", "xx"], rng.choice([1, 1, 2, 2, 3])):
        m = rng.randint(1, 4)
        if rng.random() < .15 and xs:
            data = rng.sample(WORDS, m)
        else:
            data = [k / 8. for k in rng.sample(range(-90, 900), m)]
        cls = dm.DimSweep if rng.random() < .9 or isinstance(data[0], str) else dm.DimRep
        xs.append(cls(n, data, unit="Hz" if n == "freq" else None if isinstance(data[0], str) else rng.choice([None, "V", "K"])))
    b = DataBlock()
    layouts = [list(xs)]
    r = rng.random()
    if r < .15 and len(xs) > 1:
        layouts.append(xs[:1])
    for k, name in enumerate(rng.sample(["S", "Z", "P", "Gain", "H_x", "b", "Q"], rng.randint(1, 3))):
        dims = list(rng.choice(layouts) if k else layouts[0])
        kind = rng.choice("nnccit")
        if rng.random() < .4:
            r_, c_ = rng.choice([(2, 2), (2, 2), (3, 3), (1, 2), (2, 1), (1, 1), (2, 3)])
            dims += [dm.DimMatrix_i("i", r_), dm.DimMatrix_j("j", c_)]
            kind = rng.choice("nci")
        shape = tuple(len(d.data) for d in dims)
        b[name] = hfarray(values(rng, shape, kind), dims=tuple(dims), unit=rng.choice([None, "V", "A"]) if kind != "t" else None)
    scal = []
    for n in rng.sample(["Temp", "DUT", "Operator", "Vbias"], rng.choice([0, 0, 1, 2])):
        kind = rng.choice("nit")
        b[n] = hfarray(values(rng, (), kind), unit=rng.choice([None, "K"]) if kind != "t" else None)
        scal.append(n)
    if rng.random() < .15 and len(set(map(tuple, [[d.name for d in v.dims if not d.name in "ij"] for v in b.vardata.values() if v.dims]))) == 1:
        b["lotnr"] = dm.DimPartial("lotnr", [rng.randint(1, 9) / 8.], unit=rng.choice([None, "K"]))
    if rng.random() < .5:
        b.comments = Comments([rng.choice(co.REMARKS) for _ in range(rng.randint(1, 2))])
    return b, scal


def save_event(rng, d, k):
    b, scal = make_block(rng)
    fname = os.path.join(d, "s%d.txt" % k)
    pv = [fs.proj_var(n, v) for n, v in b.vardata.items()]
    ones = [x for x in fs.proj_ivars(b) if len(x["data"]) == 1 and not x["cls"].startswith("DimMatrix")]
    o = dict(op="save", block=pv, ones=ones, names=[x["name"] for x in ones], cmt=fs.cmt(b), raw=str(b) + repr([(n, v.dims) for n, v in b.vardata.items()]))

    def fn():
        save_spdata(b, fname)
        r = read_spdata(fname, hyper=True)
        return dict(l=[observe(r)], file=parse_back(fname, scal))
    res, err = fs.attempt(fn)
    if os.path.exists(fname):
        o["raw"] += "\n" + open(fname, encoding="cp1252").read()
    return dict(ev="op", o=o, err=err, out=res or {})


def random_trace(job):
    fs.quiet()
    seed, length = job
    rng = random.Random(seed)
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        for k in range(length):
            trace.append(save_event(rng, d, k) if rng.random() < .35 else read_event(rng, d, make_file(rng), k))
    return trace


def replay_behaviours(bhs):
    """files written by MCSp"""
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        for k, bh in enumerate(bhs):
            rng = random.Random(k)
            lines = []
            for l in bh["file"]:
                if l["t"] == "d":
                    l = dict(t="d", py=[("n", num(rng, F(c["v"][0]))) for c in l["cells"]])
                lines.append(l)
            trace.append(read_event(rng, d, lines, k))
    return trace
