"""Binding of spec/Citi.tla to hftools.file_formats.citi."""
import os
import random
import re
from fractions import Fraction as F
import numpy as np
import core
import files as fs
import columns as co
from columns import nm, name_text
from files import num, rank_all, hfarray, dm, DataBlock, Comments
from hftools.file_formats import read_citi, save_citi

XNAMES = ["freq", "Freq", "Frequency", "f", "Vds", "VGS", "n", "Power", "T_amb", "x"]
WORDS = ["DUT_1", "CH1_DATA", "RAW_DATA", "a b c", "X", "MEMORY"]
KEY = dict(citi="CITIFILE A.01.01", vb="VAR_LIST_BEGIN", ve="VAR_LIST_END", sb="SEG_LIST_BEGIN", se="SEG_LIST_END", b="BEGIN", e="END")


def plain(rng, fr):
    """a number that does not start with a plus sign"""
    x = num(rng, fr)
    x.text = x.text.lstrip("+")
    return x


def comment(rng):
    if rng.random() < .5:
        props, lines = co.prop_list(rng, 1)
        text = lines[0]
    else:
        props, text = [], rng.choice(co.REMARKS + ["Agilent Technologies,E8361A", "CITI", "BEGIN of sweep"])
    r = rng.random()
    if r < .12:
        t = ["%04d" % rng.randint(1990, 2030), "%02d" % rng.randint(1, 12), "%02d" % rng.randint(1, 28), "%02d" % rng.randint(0, 23), "%02d" % rng.randint(0, 59), "%02d" % rng.randint(0, 59)]
        full = "Measurement time: %s-%s-%s %s:%s:%s" % tuple(t)
        p = dict(n="Measurement time", u=["?"], v=list("%s-%s-%s %s:%s:%s" % tuple(t)))
        return dict(t="c", x=full, p=[p], text="CONSTANT TIME " + " ".join(t))
    lead = "!" if r < .6 else "#" if r < .75 else "COMMENT "
    return dict(t="c", x=text.strip(), p=props, text=lead + rng.choice(["", " "]) * (lead != "COMMENT ") + text)


def names(rng, k):
    """names of data lists"""
    out, seen = [], set()
    form = {}

    def put(n):
        t = name_text(n)
        if n["i"] >= 0 and form.setdefault(n["base"], n["br"]) != n["br"]:
            return
        if t not in seen and len(out) < k:
            seen.add(t)
            out.append(n)
    while len(out) < k:
        r = rng.random()
        if r < .6:
            base = rng.choice(["S", "S", "Z", "Y", "b", "H_x", "V"])
            rows, cols = rng.choice([(2, 2), (2, 2), (1, 2), (2, 1), (2, 3), (1, 1)])
            els = [(i, j) for i in range(1, rows + 1) for j in range(1, cols + 1)]
            if rng.random() < .4:
                rng.shuffle(els)
            if rng.random() < .15:
                els.pop()
            br = rng.random() < .6 and base != "b"
            for i, j in els:
                put(nm(base, "", i, j, br=br))
            if rng.random() < .1:
                put(nm(base))
        elif r < .75:
            for t in rng.choice([["a1/a2", "a2/a1"], ["b1/a1", "b1/a2", "b2/a1", "b2/a2"], ["a1"], ["a1", "a2", "a1/a2", "a2/a1"]]):
                put(nm(t, alpha=False))
        else:
            put(nm(rng.choice(["P", "Id", "Gain", "Temp", "Vgs", "S1x"])))
    return out


def value(rng, typ):
    if typ == "MAG":
        return [plain(rng, fs.rand_dec(rng))]
    if typ == "RI":
        return [plain(rng, fs.rand_dec(rng)), plain(rng, fs.rand_dec(rng))]
    a = fs.pair(rng, "MA")
    for x in a:
        x.text = x.text.lstrip("+")
    return a


def numbers_line(v):
    return dict(t="n", py=v)


def make_file(rng):
    nx = rng.choice([0, 1, 1, 1, 2, 2, 2, 3])
    k = rng.randint(1, 6)
    lines = []

    def remark(p):
        while rng.random() < p:
            lines.append(comment(rng))
    remark(.2)
    if rng.random() < .9:
        lines.append(dict(t="citi"))
    remark(.3)
    lines.append(dict(t="name", x=rng.choice(WORDS)))
    remark(.2)
    taken, xs = set(), []
    dn = names(rng, k)
    while len(xs) < nx:
        n = nm(rng.choice(XNAMES))
        if name_text(n) not in taken and name_text(n) not in [name_text(d) for d in dn]:
            taken.add(name_text(n))
            xs.append(n)
    lens, lists = [], []
    for n in xs:
        m = rng.randint(1, 4)
        lens.append(m)
        if rng.random() < .35:
            a, s = fs.rand_dec(rng), F(rng.randint(1, 500), rng.choice([1, 10, 100]))
            lists.append([dict(t="sb"), dict(t="seg", a=plain(rng, a), b=plain(rng, a + s * (m - 1)), n=m), dict(t="se")])
            typ = "MAG"
        else:
            typ = "MAG" if rng.random() < .95 else "RI"
            vals = [value(rng, typ) for _ in range(m)]
            lists.append([dict(t="vb")] + [numbers_line(v) for v in vals] + [dict(t="ve")])
        lines.append(dict(t="var", nm=n, typ=typ, n=m))
    remark(.2)
    types = [rng.choice(["MAG", "RI", "RI", "MAGANGLE"]) for _ in dn]
    if rng.random() < .6:
        types = [types[0]] * len(types)
    for n, t in zip(dn, types):
        lines.append(dict(t="data", nm=n, typ=t))
    remark(.2)
    for l in lists:
        lines.extend(l)
    remark(.2)
    size = int(np.prod(lens)) if lens else 1
    for n, t in zip(dn, types):
        lines.append(dict(t="b"))
        lines.extend(numbers_line(value(rng, t)) for _ in range(size))
        lines.append(dict(t="e"))
    if rng.random() < .15:
        damage(rng, lines)
    return lines


def damage(rng, lines):
    """takes the file's meaning away (or not)"""
    how = rng.choice(["drop", "drop", "type", "unknown", "count", "cut", "width"])
    pos = lambda *t: [k for k, l in enumerate(lines) if l["t"] in t]
    last = [k for k in pos("b")][0]
    if how == "drop":
        del lines[rng.choice(pos("name", "vb", "ve", "sb", "seg", "se", "b", "e"))]
    elif how == "type":
        lines[rng.choice(pos("data"))]["typ"] = rng.choice(["XY", "DBX", "mag", "IM"])
    elif how == "unknown":
        lines.insert(rng.randint(0, len(lines) - 1), dict(t="?", text=rng.choice(["HELLO", "@x", "begin", "(1,2)", "name X"])))
    elif how == "cut":
        del lines[rng.randint(last, len(lines) - 1):]
    elif how == "width":
        k = rng.choice([q for q in pos("n") if q > last])
        py = lines[k]["py"]
        lines[k] = numbers_line(py[:1] if len(py) == 2 else py + [plain(rng, fs.rand_dec(rng))])
    else:
        k = rng.choice([q for q in pos("n") if q > last])
        if rng.random() < .5:
            del lines[k]
        else:
            lines.insert(k, dict(lines[k]))


def line_text(rng, l):
    t = l["t"]
    if t in ("c", "?"):
        return l["text"]
    if t == "name":
        return "NAME " + l["x"]
    if t == "var":
        return "VAR %s %s %d" % (name_text(l["nm"]), l["typ"], l["n"])
    if t == "data":
        return "DATA %s %s" % (name_text(l["nm"]), l["typ"])
    if t == "seg":
        return "SEG %s %s %d" % (l["a"].text, l["b"].text, l["n"])
    if t == "n":
        return rng.choice([",", ",", ", "]).join(x.text for x in l["py"])
    return KEY[t]


def text(rng, lines):
    rows = []
    for l in lines:
        if rng.random() < .03:
            rows.append(rng.choice(["", "   "]))
        rows.append(rng.choice(["", "", "", "  "]) + line_text(rng, l) + rng.choice(["", "", "", " "]))
    return "\n".join(rows) + "\n"


def all_numbers(lines):
    out = []
    for l in lines:
        out += l["py"] if l["t"] == "n" else [l["a"], l["b"]] if l["t"] == "seg" else []
    return out


def view(lines):
    rank_all(all_numbers(lines))
    out = []
    for l in lines:
        t = l["t"]
        if t == "n":
            out.append(dict(t="n", v=[x.tup() for x in l["py"]]))
        elif t == "seg":
            out.append(dict(t="seg", a=l["a"].tup(), b=l["b"].tup(), n=l["n"]))
        else:
            out.append({k: l[k] for k in ("t", "x", "p", "nm", "typ") if k in l})
    return out


def observe(b):
    vs = fs.proj_vars(b)
    for v in vs:
        if v["kind"] == "t":
            v["vals"] = ["t:" + t[2:].strip() for t in v["vals"]]
    return dict(vars=vs, ivars=fs.proj_ivars(b), cmt=fs.cmt(b), name=str(b.blockname))


def read_event(rng, d, lines, k):
    t = text(rng, lines)
    fname = os.path.join(d, "f%d.cti" % k)
    with open(fname, "w", encoding="cp1252") as f:
        f.write(t)
    on = lambda: rng.random() < .85
    fl = dict(cplx=on(), unit=on(), norm=on(), mat=on(), prop=on())
    res, err = fs.attempt(lambda: observe(read_citi(fname, make_complex=fl["cplx"], property_to_vars=fl["prop"], guess_unit=fl["unit"], normalize=fl["norm"], make_matrix=fl["mat"])))
    return dict(ev="op", o=dict(op="read", file=view(lines), flags=fl, raw=t), err=err, out=res or {})


# ---------------------------------------------------------------- saving
def as_number(t):
    fr = fs.dec(float(t))
    x = fs.Nm(fr if fr is not None else 0, t, exact=fr is not None)
    return x


def parse_name(t):
    m = re.match(r"([A-Za-z_]+)(?:\[(\d),(\d)\]|(\d)(\d))$", t)
    if m:
        br = m.group(2) is not None
        return nm(m.group(1), "", int(m.group(2) or m.group(4)), int(m.group(3) or m.group(5)), br=br)
    return nm(t, alpha=t.isalpha())


def parse_back(fname):
    """tokenizes a written file, independently of the library"""
    back = {v.split()[0]: k for k, v in KEY.items()}
    lines = []
    for rad in open(fname, encoding="cp1252"):
        rad = rad.strip()
        w = rad.split()
        if not w:
            continue
        try:
            if rad[0] in "!#":
                lines.append(dict(t="c", x=rad[1:].strip(), p=[]))
            elif w[0] in back:
                lines.append(dict(t=back[w[0]]))
            elif w[0] == "NAME":
                lines.append(dict(t="name", x=rad[4:].strip()))
            elif w[0] == "VAR":
                lines.append(dict(t="var", nm=parse_name(w[1]), typ=w[2], n=int(w[3])))
            elif w[0] == "DATA":
                lines.append(dict(t="data", nm=parse_name(w[1]), typ=w[2]))
            elif w[0] == "SEG":
                lines.append(dict(t="seg", a=as_number(w[1]), b=as_number(w[2]), n=int(w[3])))
            else:
                lines.append(numbers_line([as_number(x) for x in rad.split(",")]))
        except Exception:
            lines.append(dict(t="?"))
    return view(lines)


def values(rng, shape, cplx):
    n = int(np.prod(shape)) if shape else 1
    v = [float(fs.rand_dec(rng)) for _ in range(n)]
    if cplx:
        v = [a + 1j * float(fs.rand_dec(rng)) for a in v]
    elif rng.random() < .2:
        v = [int(a) for a in v]
    return np.array(v).reshape(shape)


def make_block(rng):
    nx = rng.choice([1, 1, 2, 2, 2, 3])
    xs = []
    for n in rng.sample(["freq", "Vds", "VGS", "n", "Power", "x"], nx):
        m = rng.randint(1, 4)
        data = [float(fs.rand_dec(rng)) for _ in range(m)] if rng.random() < .8 else list(range(m))
        if len(set(data)) < m:
            data = [float(k) for k in range(m)]
        cls = dm.DimSweep if rng.random() < .9 else dm.DimRep
        xs.append(cls(n, data, unit=rng.choice([None, "V", "Hz"])))
    b = DataBlock()
    nv = rng.randint(1, 3)
    for k, name in enumerate(rng.sample(["S", "Z", "P", "Ids", "Gain", "H_x", "b", "Q"], nv)):
        dims = list(xs)
        if rng.random() < .4:
            rng.shuffle(dims)
        if rng.random() < .15 and k:
            dims = dims[:rng.randint(0, len(dims))]
        if rng.random() < .5:
            r, c = rng.choice([(2, 2), (2, 2), (3, 3), (1, 2), (2, 1), (1, 1), (2, 3)])
            lab = (lambda m: [q + 1 for q in range(m)]) if rng.random() < .2 else (lambda m: m)
            dims += [dm.DimMatrix_i("i", lab(r)), dm.DimMatrix_j("j", lab(c))]
        shape = tuple(len(d.data) for d in dims)
        b[name] = hfarray(values(rng, shape, rng.random() < .6), dims=tuple(dims), unit=rng.choice([None, "V"]))
    b.blockname = rng.choice(WORDS)
    if rng.random() < .6:
        _, cl = co.prop_list(rng, rng.randint(1, 3))
        b.comments = Comments([c.strip() for c in cl])
    return b


def save_event(rng, d, k):
    b = make_block(rng)
    fname = os.path.join(d, "s%d.cti" % k)
    pv = []
    for n, v in b.vardata.items():
        # matrix labels count from zero in files
        q = fs.proj_var(n, v)
        for dim in q["dims"]:
            if dim["cls"].startswith("DimMatrix"):
                dim["data"] = [fs.enc(z) for z in range(len(dim["data"]))]
        pv.append(q)
    sweeps = [x for x in fs.proj_ivars(b) if not x["cls"].startswith("DimMatrix")]
    o = dict(op="save", block=pv, sweeps=sweeps, cmt=fs.cmt(b), name=b.blockname, raw=str(b) + repr([(n, v.dims) for n, v in b.vardata.items()]))

    def fn():
        save_citi(b, fname)
        return dict(observe(read_citi(fname)), file=parse_back(fname))
    res, err = fs.attempt(fn)
    if os.path.exists(fname):
        o["raw"] += "\n" + open(fname, encoding="cp1252").read()
    return dict(ev="op", o=o, err=err, out=res or {})


def random_trace(job):
    fs.quiet()
    seed, length = job
    rng = random.Random(seed)
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        for k in range(length):
            trace.append(save_event(rng, d, k) if rng.random() < .35 else read_event(rng, d, make_file(rng), k))
    return trace


def replay_behaviours(bhs):
    """files written by MCCiti"""
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))

    def nr(rng, t, ang=False):
        v = t[0]
        if ang:
            return fs.Nm(90 * v, str(90 * v), *[(1, 0), (0, 1), (-1, 0), (0, -1)][v % 4])
        return plain(rng, F(v))
    with fs.Scratch() as d:
        for k, bh in enumerate(bhs):
            rng = random.Random(k)
            lines, types, q = [], [l["typ"] for l in bh["file"] if l["t"] == "data"], -1
            nn = sum(1 for l in bh["file"] if l["t"] == "n")
            for l in bh["file"]:
                l = dict(l)
                if l["t"] == "b":
                    q += 1
                if l["t"] == "n":
                    l = numbers_line([nr(rng, x, z == 1 and q >= 0 and types[q] == "MAGANGLE") for z, x in enumerate(l["v"])])
                elif l["t"] == "seg":
                    l["a"], l["b"] = nr(rng, l["a"]), nr(rng, l["b"])
                elif l["t"] == "c":
                    l["text"] = "!" + l["x"]
                elif l["t"] == "var":
                    l["n"] = 0
                lines.append(l)
            trace.append(read_event(rng, d, lines, k))
    return trace
