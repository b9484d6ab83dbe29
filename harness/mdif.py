"""Binding of spec/Mdif.tla to hftools.file_formats.mdif."""
import os
import random
from fractions import Fraction as F
import core
import files as fs
import columns as co
from columns import nm, name_text
from files import rank_all
import sp
from hftools.file_formats.mdif import read_mdif

BLOCKS = ["NDATA", "A74.SP", "dev_1", "HB"]
WORDS = ["abc", "chip7", "N/A", "x", "12ab"]


def head(n, typ, vec=-1):
    return dict(nm=n, vec=vec, typ=typ)


def head_text(h, prefix=""):
    return "%s%s%s(%s)" % (prefix, name_text(h["nm"]), "[%d]" % h["vec"] if h["vec"] >= 0 else "", h["typ"])


def layout(rng):
    """header lines of the blocks with one name"""
    heads, bases = [], set()

    def typ():
        return rng.choice(["real", "real", "complex", "integer"])
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        base = rng.choice(["S", "Z", "Y", "V", "I_x", "gain", "nf", "P", "Vds", "T"])
        if base in bases:
            continue
        bases.add(base)
        if r < .35:
            R, C = rng.choice([(2, 2), (2, 2), (1, 2), (2, 1), (3, 3), (1, 1), (2, 3), (1, 11), (10, 1)])
            els = [(i, j) for i in range(1, R + 1) for j in range(1, C + 1)]
            if rng.random() < .4:
                rng.shuffle(els)
            if rng.random() < .15 and len(els) > 1:
                els.pop()
            t = typ()
            heads += [head(nm(base, "", i, j, br=True), t if rng.random() < .8 else typ()) for i, j in els]
        elif r < .55:
            els = list(range(1, rng.choice([1, 2, 3, 4, 11, 12]) + 1))
            if rng.random() < .4:
                rng.shuffle(els)
            if rng.random() < .2:
                els[0] += 1 if len(els) == 1 else 15
            t = typ()
            heads += [head(nm(base), t, i) for i in els]
        elif r < .7:
            heads += [head(nm(base, "", i, j), "complex") for i in (1, 2) for j in (1, 2)]
        elif r < .8:
            heads += [head(nm(base, fn), "real") for fn in ("Re", "Im")]
        elif r < .9:
            heads.append(head(nm(base), "string"))
        else:
            heads.append(head(nm(base), typ()))
    if not heads:
        heads.append(head(nm("P"), "real"))
    if rng.random() < .3:
        rng.shuffle(heads)
    return heads


def split(rng, heads):
    """heads over one or several header lines"""
    out = [heads]
    while rng.random() < .3 and len(out[-1]) > 1:
        k = rng.randint(1, len(out[-1]) - 1)
        out[-1:] = [out[-1][:k], out[-1][k:]]
    return out


def number(rng):
    v = fs.num(rng, fs.rand_dec(rng))
    return dict(num=True, int=v.text.lstrip("+-").isdigit(), py=v, text=v.text)


def integer(rng):
    v = rng.randint(-999, 999)
    return dict(num=True, int=True, py=fs.Nm(v, str(v)), text=str(v))


def word(rng):
    w = rng.choice(WORDS)
    return dict(num=False, int=False, py=None, text=w)


def cells(rng, h):
    t = h["typ"]
    if t == "string":
        return [word(rng) if rng.random() < .8 else integer(rng)]
    if t == "integer":
        return [integer(rng)]
    return [number(rng)] + ([number(rng)] if t == "complex" else [])


def make_file(rng):
    lines = []
    packets = []
    scalprops = [(n, rng.choice("ntn")) for n in rng.sample(sp.SCALARS[:3], rng.choice([0, 0, 0, 1]))]
    for name in rng.sample(BLOCKS, rng.choice([1, 1, 1, 2])):
        heads = layout(rng)
        sweep = head(nm(rng.choice(["freq", "f", "time", "Pin", "n"])), rng.choice(["real", "real", "integer"]))
        rows = rng.randint(1, 3)
        xs, seen = [], set()
        while len(xs) < rows:
            c = cells(rng, sweep)
            if c[0]["py"].v not in seen:
                seen.add(c[0]["py"].v)
                xs.append(c)
        groups = split(rng, [sweep] + heads)
        pars = rng.sample(["Vgs", "Tc", "lot", "bias.x"], rng.choice([0, 1, 1, 2]))
        atts = rng.sample(["Rs", "Cgs", "ft"], rng.choice([0, 0, 1, 2]))
        for q in range(rng.choice([1, 1, 2, 3, 4])):
            pk = []
            for n, kind in scalprops:
                if rng.random() < .97:
                    l = sp.prop_line(rng, n, kind)
                    pk.append(dict(t="c", x=l["x"], p=l["p"]))
            while rng.random() < .2:
                pk.append(dict(t="c", x=rng.choice(co.REMARKS), p=[]))
            ps = list(pars)
            if rng.random() < .2:
                rng.shuffle(ps)
            if rng.random() < .05:
                ps = ps[1:] if rng.random() < .5 else ps + ["extra"]
            pk += [dict(t="v", n=n, typ="real", py=number(rng)["py"]) for n in ps]
            pk.append(dict(t="b", x=name))
            pk += [dict(t="a", n=n, typ="real", py=number(rng)["py"]) for n in (atts if rng.random() < .96 else atts[1:])]
            pk += [dict(t="h", heads=g) for g in groups]
            for k in range(rows):
                for z, g in enumerate(groups):
                    row = list(xs[k]) if z == 0 else []
                    for h in (g[1:] if z == 0 else g):
                        row += cells(rng, h)
                    pk.append(dict(t="d", py=row))
            pk.append(dict(t="e"))
            packets.append(pk)
    if rng.random() < .3:
        rng.shuffle(packets)
    lines = [l for p in packets for l in p]
    if rng.random() < .1:
        lines.append(dict(t="c", x="that is all", p=[]))
    if rng.random() < .15:
        damage(rng, lines)
    return lines


def damage(rng, lines):
    how = rng.choice(["drop", "drop", "wide", "narrow", "type", "comment", "word", "row", "header", "float"])
    pos = lambda *t: [k for k, l in enumerate(lines) if l["t"] in t]

    def other(py):
        """a cell which cannot be the sweep's"""
        return rng.randrange(1, len(py)) if len(py) > 1 else None
    if how == "drop":
        del lines[rng.choice(pos("b", "e"))]
    elif how in ("wide", "narrow"):
        k = rng.choice(pos("d"))
        py = lines[k]["py"]
        lines[k] = dict(t="d", py=py + [number(rng)] if how == "wide" or len(py) == 1 else py[:-1])
    elif how == "type" and pos("v", "a"):
        k = rng.choice(pos("v", "a"))
        lines[k] = dict(lines[k], typ="string")
    elif how == "comment":
        lines.insert(rng.choice(pos("e", "d", "h")), dict(t="c", x="inside", p=[]))
    elif how == "word":
        k = rng.choice(pos("d"))
        py = list(lines[k]["py"])
        if other(py) is None:
            return
        py[other(py)] = word(rng)
        lines[k] = dict(t="d", py=py)
    elif how == "float":
        k = rng.choice(pos("d"))
        py = list(lines[k]["py"])
        if other(py) is None:
            return
        py[other(py)] = dict(num=True, int=False, py=fs.Nm(F(5, 2), "2.5"), text="2.5")
        lines[k] = dict(t="d", py=py)
    elif how == "row":
        del lines[rng.choice(pos("d"))]
    else:
        while pos("h"):
            del lines[pos("h")[0]]


def text(rng, lines):
    rows, first = [], True
    for l in lines:
        t = l["t"]
        ind = rng.choice(["", "", "", "  "])
        if t == "c":
            rows.append(ind + "!" + rng.choice(["", " "]) + l["x"])
        elif t == "v":
            rows.append(ind + "VAR %s%s(%s) = %s" % (rng.choice(["", "SWEEP."]), l["n"], l["typ"], l["py"].text))
        elif t == "a":
            rows.append(ind + "# %s(%s) = %s" % (l["n"], l["typ"], l["py"].text))
        elif t == "b":
            rows.append(ind + "BEGIN " + l["x"])
            first = True
        elif t == "e":
            rows.append(ind + "END")
        elif t == "h":
            pre = rng.choice(["SWEEP.", "sweep.", ""]) if first else ""
            first = False
            rows.append(ind + "% " + rng.choice(["  ", "\t", " "]).join(head_text(h, pre if k == 0 else "") for k, h in enumerate(l["heads"])))
        else:
            rows.append(ind + rng.choice([" ", "\t", "   "]).join('"%s"' % c["text"] if rng.random() < .05 else c["text"] for c in l["py"]))
        if rng.random() < .05:
            rows.append("")
    return "\n".join(rows) + "\n"


def view(lines):
    out = []
    for l in lines:
        if l["t"] == "d":
            out.append(dict(t="d", cells=[dict(num=c["num"], int=c["int"], v=c["py"].tup() if c["py"] else [0, 0, 0, 0, 0], s="t:" + c["text"]) for c in l["py"]]))
        elif l["t"] in "va":
            out.append(dict(t=l["t"], n=l["n"], typ=l["typ"], v=l["py"].tup()))
        else:
            out.append(dict(l))
    return out


def observe(n, b):
    return dict(sp.observe(b), name=n)


def read_event(rng, d, lines, k):
    t = text(rng, lines)
    fname = os.path.join(d, "m%d.mdif" % k)
    with open(fname, "w") as f:
        f.write(t)
    on = lambda: rng.random() < .9
    fl = dict(cplx=on(), unit=on(), norm=on(), mat=on(), prop=on())
    pick = "" if rng.random() < .75 else rng.choice(BLOCKS)

    def fn():
        r = read_mdif(fname, make_complex=fl["cplx"], property_to_vars=fl["prop"], guess_unit=fl["unit"], normalize=fl["norm"], make_matrix=fl["mat"], verbose=False, blockname=pick or None)
        return dict(l=[observe(n, b) for n, b in (r if not pick else {pick: r}).items()])
    res, err = fs.attempt(fn)
    return dict(ev="op", o=dict(op="read", file=view(lines), flags=fl, pick=pick, raw=t), err=err, out=res or {})


def random_trace(job):
    fs.quiet()
    seed, length = job
    rng = random.Random(seed)
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        for k in range(length):
            trace.append(read_event(rng, d, make_file(rng), k))
    return trace


def replay_behaviours(bhs):
    """files written by MCMdif"""
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))

    def cell(v):
        return dict(num=True, int=True, py=fs.Nm(v, str(v)), text=str(v))
    with fs.Scratch() as d:
        for k, bh in enumerate(bhs):
            rng = random.Random(k)
            lines = []
            for l in bh["file"]:
                l = dict(l)
                if l["t"] == "d":
                    l = dict(t="d", py=[cell(c["v"][0]) for c in l["cells"]])
                elif l["t"] in "va":
                    l["py"] = cell(l.pop("v")[0])["py"]
                lines.append(l)
            trace.append(read_event(rng, d, lines, k))
    return trace
