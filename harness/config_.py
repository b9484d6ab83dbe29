"""Driver for spec/Config.tla: configurations are rendered as YAML, loaded, looked into, changed, written and loaded again."""
import datetime
import io
import os
import random
from fractions import Fraction as F
import core
import files as fs
from core import residue
import yaml
import hftools.file_formats.config as hc
from hftools import path

KEYS = ["a", "b", "c", "VNA", "f start", "z\xe5"]
SECS = ["s", "t", "source", "u v"]
UNITS = ["Hz", "V", "A", "m", "s", "W", "Ohm"]
PREF = list("dcmunpfakMGTP")
TEXTS = ["hello", "10 dBx", "12:30 lunch", "2010-10-10 08:30 on", "5 days ago", "V", "kHz", "10 Hzz", "ppm", "5 ppmm", "1.2.3", "10 V DC", "hours", "5 hours 3 days",
         "3 4", "5 V 3", "5 m m", "2010-10", "5 hours 3 hours", "a: b", "#x", "- y", "", " ", "true", "null", "10 V", "3", "1e5", "2 days", "12:30", "2010-10-10", "10 %", "tab\there",
         "\xe5\xe4\xf6", "multi\nline", "'q'", '"dq"', "key: [1", "5 k Hz", "1.5.2 V", "-", "10Mhz", "5 DAYS", "day 5"]
SAFE = ["hello", "10 dBx", "12:30 lunch", "2010-10-10 08:30 on", "5 days ago", "V", "kHz", "10 Hzz", "ppm", "5 ppmm", "1.2.3", "10 V DC", "hours", "5 hours 3 days", "3 4", "5 V 3",
        "5 m m", "2010-10", "5 hours 3 hours", "5 k Hz", "10Mhz", "5 DAYS", "day 5"]


def leaf(text, q=False):
    return dict(t="leaf", text=list(text), q=q)


def txt(l):
    return "".join(l["text"])


def number(rng):
    r = rng.random()
    m = rng.choice(["%d" % rng.randint(0, 9999), "%d.%d" % (rng.randint(0, 99), rng.randint(0, 999)), ".%d" % rng.randint(1, 99), "0", "1e%d" % rng.randint(0, 9), "2.5e-%d" % rng.randint(1, 9),
                    "3E+%d" % rng.randint(0, 6), "1.e5" if False else "7"])
    return rng.choice(["", "", "", "-", "+"]) + m


def octal(m):
    """YAML reads numbers with a leading zero as octal"""
    m = m.lstrip("+-")
    return len(m) > 1 and m[0] == "0" and m.isdigit()


def clock(rng):
    return "%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59)) + (":%02d" % rng.randint(0, 59) if rng.random() < .5 else "")


def date(rng):
    return "%04d-%02d-%02d" % (rng.randint(1980, 2040), rng.randint(1, 12), rng.randint(1, 28))


def span(rng):
    parts = []
    for w, big in (("day", 99), ("hour", 50), ("minute", 99), ("second", 120)):
        if rng.random() < .5:
            n = "%d" % rng.randint(0, big) if rng.random() < .7 else "%d.%d" % (rng.randint(0, big), rng.choice([5, 25, 75]))
            parts.append(n + rng.choice([" ", " ", "", "  "]) + w + rng.choice(["", "s"]))
    if not parts:
        return "3 hours"
    s = rng.choice([" ", " ", "  "]).join(parts)
    return s


def scalar(rng):
    r = rng.random()
    if r < .12:
        m = number(rng)
        return leaf(m if not octal(m) else "12")
    if r < .42:
        return leaf(number(rng) + rng.choice(["", " ", "  "]) + rng.choice([""] + PREF) + rng.choice(UNITS + UNITS + [""]) if rng.random() < .9 else number(rng) + " " + rng.choice(["EHz", "E"]))
    if r < .5:
        return leaf(number(rng) + rng.choice(["", " "]) + rng.choice(["%", "ppm", "ppb"]))
    if r < .6:
        return leaf(span(rng))
    if r < .65:
        return leaf(clock(rng))
    if r < .7:
        return leaf(date(rng))
    if r < .78:
        return leaf(date(rng) + rng.choice([" ", " ", "T"]) + clock_for(rng))
    if r < .82:
        return leaf(rng.choice(["true", "false", "null"]))
    if r < .92:
        return leaf(rng.choice(SAFE))
    return leaf(rng.choice(TEXTS), True)


def clock_for(rng):
    return "%02d:%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def tidy(l):
    """leaves YAML itself gives another meaning are not used plain"""
    t = txt(l)
    if not l["q"] and (octal(t) or t.strip() != t or t == "" or ("T" in t and len(t) < 19 and t[:2].isdigit() and "-" in t)):
        return leaf("7")
    return l


def node(rng, depth):
    r = rng.random()
    if depth <= 0 or r < .45:
        l = tidy(scalar(rng))
        if rng.random() < .2 and not l["q"] and " " in txt(l) and len(txt(l)) == 16 and txt(l)[4] == "-":
            l = leaf(txt(l)[:16])
        return l
    if r < .8:
        return section(rng, depth)
    return dict(t="seq", vs=[node(rng, depth - 1) for _ in range(rng.randint(0, 3))])


def section(rng, depth):
    ks = rng.sample(KEYS, rng.randint(0, 3)) + rng.sample(SECS, rng.choice([0, 1, 1, 2]) if depth > 0 else 0)
    rng.shuffle(ks)
    return dict(t="map", ks=ks, vs=[node(rng, depth - 1) if k in SECS else node(rng, rng.choice([0, 0, 0, depth - 1])) for k in ks])


# ---------------------------------------------------------------- YAML
def quote(rng, s):
    if rng.random() < .5 and "\n" not in s:
        return "'" + s.replace("'", "''") + "'"
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def yscalar(rng, l):
    return quote(rng, txt(l)) if l["q"] else txt(l)


def flow(rng, d):
    if d["t"] == "leaf":
        return yscalar(rng, d)
    if d["t"] == "seq":
        return "[" + ", ".join(flow(rng, v) for v in d["vs"]) + "]"
    return "{" + ", ".join("%s: %s" % (k, flow(rng, v)) for k, v in zip(d["ks"], d["vs"])) + "}"


def block(rng, d, ind):
    """lines of a section or list"""
    pad = " " * ind
    out = []
    items = [("- ", v) for v in d["vs"]] if d["t"] == "seq" else [("%s: " % k, v) for k, v in zip(d["ks"], d["vs"])]
    for head, v in items:
        if rng.random() < .1:
            out.append(pad + "# remark: 5 V")
        if v["t"] == "leaf" or not v["vs"] or rng.random() < .2:
            out.append(pad + head + flow(rng, v) + (" # x" if rng.random() < .1 else ""))
        else:
            out.append(pad + head.rstrip() + ("  # sub" if rng.random() < .1 else ""))
            out += block(rng, v, ind + rng.choice([2, 4, 1]))
    return out


def render(rng, d):
    if not d["vs"]:
        return rng.choice(["{}\n", "{}\n", "", "# nothing\n"])
    return "\n".join(block(rng, d, 0)) + "\n"


# ---------------------------------------------------------------- observation
def obs(v, t0):
    z = dict(t="val", k="?", v="", unit="~")
    if isinstance(v, dict):
        ks = [str(k) for k in dict.keys(v)]
        return dict(t="map", ks=ks, vs=[obs(dict.__getitem__(v, k), t0) for k in dict.keys(v)])
    if isinstance(v, list):
        return dict(t="seq", vs=[obs(x, t0) for x in v])
    if v is None:
        return dict(z, k="none")
    if isinstance(v, bool):
        return dict(z, k="bool", v="true" if v else "false")
    if isinstance(v, (int, float)):
        fr = fs.dec(v)
        return dict(z, k="num", v=-1 if fr is None else residue(fr), unit=fs.unit_of(getattr(v, "unit", None)))
    if isinstance(v, str):
        return dict(z, k="text", v=str(v))
    if isinstance(v, datetime.timedelta):
        return dict(z, k="span", v=residue(F(v.days * 86400 + v.seconds) + F(v.microseconds, 10 ** 6)))
    if isinstance(v, datetime.datetime):
        slack = datetime.timedelta(minutes=5)
        soon = v.tzinfo is None and t0 - slack <= v <= datetime.datetime.now() + datetime.timedelta(days=1) + slack
        return dict(z, k="when", v=str(v), soon=bool(soon), clock=v.strftime("%H:%M:%S"))
    if isinstance(v, datetime.date):
        return dict(z, k="date", v=str(v))
    return dict(z, k=type(v).__name__)


DEFAULT = ["default"]


class Config(object):
    def __init__(self, rng, d):
        self.rng, self.dir, self.n = rng, d, 0
        self.t0 = datetime.datetime.now()

    def step(self, trace, o, fn):
        out, err = {}, ""
        try:
            core.limited(10, fn, out)
        except core.Timeout:
            err = "Timeout"
        except Exception as e:
            err = type(e).__name__
            out["raw"] = str(e)[:200]
        trace.append(dict(ev="step", o=o, out=dict(dict(tree=dict(t="none"), yes=False), **out), err=err))
        return not err

    def file(self):
        self.n += 1
        return os.path.join(self.dir, "c%d.yaml" % self.n)

    def load(self, trace, doc):
        fn = self.file()
        with io.open(fn, "w", encoding="utf-8") as f:
            text = render(self.rng, doc)
            f.write(text)

        def run(out):
            self.cfg = hc.LexicalConfig(fn)
            out["tree"] = obs(self.cfg, self.t0)
        self.doc = doc
        return self.step(trace, dict(op="load", doc=doc, raw=text), run)

    def at(self, p):
        x = self.cfg
        for s in p:
            x = dict.__getitem__(x, s["k"]) if "k" in s else list.__getitem__(x, s["i"] - 1)
        return x

    def query(self, trace, o, sec, key):
        how = o["how"]

        def run(out):
            s = sec()
            if how == "item":
                out["tree"] = obs(s[key], self.t0)
            elif how == "in":
                out["yes"] = bool(key in s)
            else:
                r = s.get(key, DEFAULT)
                out["yes"] = r is DEFAULT
                out["tree"] = obs(r, self.t0) if r is not DEFAULT else dict(t="none")
        return self.step(trace, o, run)

    def look(self, trace, p, key, how):
        self.query(trace, dict(op="look", p=p, key=key, how=how), lambda: self.at(p), key)

    def merged(self, trace, p, p2, key, how):
        self.query(trace, dict(op="merged", p=p, p2=p2, key=key, how=how), lambda: hc.MergedDicts(self.at(p), self.at(p2)), key)

    def value(self, n):
        """the python value for a node"""
        rng = self.rng
        if n["t"] != "leaf":
            return yaml.load(flow(rng, n) if rng.random() < .5 or not n["vs"] else render(rng, n), Loader=hc.LexicalLoader)
        t = txt(n)
        if n["q"]:
            return path(t) if rng.random() < .2 else t
        return yaml.load("x: " + t, Loader=hc.StandardLoader)["x"]

    def set(self, trace, p, key, n):
        self.step(trace, dict(op="set", p=p, key=key, node=n), lambda out: self.at(p).__setitem__(key, self.value(n)))

    def update(self, trace, p, m):
        self.step(trace, dict(op="update", p=p, node=m), lambda out: self.at(p).update(dict(zip(m["ks"], [self.value(v) for v in m["vs"]]))))

    def delete(self, trace, p, key):
        self.step(trace, dict(op="del", p=p, key=key), lambda out: self.at(p).__delitem__(key))

    def tree(self, trace):
        self.step(trace, dict(op="tree"), lambda out: out.update(tree=obs(self.cfg, self.t0)))

    def roundtrip(self, trace, how):
        same = how == "own"

        def run(out):
            if how == "plain":
                fn, fn2 = self.file(), self.file()
                self.cfg.write(fn)
                c = hc.Config(fn)
                c.write(fn2)
                out["tree"] = obs(dict(hc.Config(fn2)), self.t0)
            else:
                fn = None if same else self.file()
                self.cfg.write(fn)
                c = hc.LexicalConfig(fn or self.cfg.filename)
                out["tree"] = obs(c, self.t0)
                if how == "go":
                    # a copy elsewhere: the next changes are made to what was loaded
                    c.filename = self.cfg.filename
                    self.cfg = c
        return self.step(trace, dict(op="rt", same=same, how=how), run)

    def reload(self, trace):
        def run(out):
            self.cfg.reload_settings()
            out["tree"] = obs(self.cfg, self.t0)
        return self.step(trace, dict(op="reload"), run)


def places(d, p=()):
    out = [list(p)] if d["t"] == "map" else []
    if d["t"] == "map":
        for k, v in zip(d["ks"], d["vs"]):
            out += places(v, p + (dict(k=k),))
    elif d["t"] == "seq":
        for i, v in enumerate(d["vs"], 1):
            out += places(v, p + (dict(i=i),))
    return out


def find(d, p):
    for s in p:
        d = d["vs"][d["ks"].index(s["k"])] if "k" in s else d["vs"][s["i"] - 1]
    return d


def put_in(m, k, v):
    if k in m["ks"]:
        m["vs"][m["ks"].index(k)] = v
    else:
        m["ks"].append(k)
        m["vs"].append(v)


def copy(d):
    return dict(d, **{k: ([copy(x) for x in d[k]] if k == "vs" else list(d[k])) for k in ("vs", "ks") if k in d})


def looks(c, trace, rng, doc, n):
    ps = places(doc)
    for _ in range(n):
        p = rng.choice(ps)
        how = rng.choice(["item", "item", "in", "get"])
        if rng.random() < .8:
            c.look(trace, p, rng.choice(KEYS + SECS), how)
        else:
            c.merged(trace, p, rng.choice(ps), rng.choice(KEYS + SECS), rng.choice(["item", "in"]))


def random_trace(job):
    seed, steps = job
    rng = random.Random(seed)
    fs.quiet()
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        c = Config(rng, d)
        doc = section(rng, rng.choice([1, 2, 3, 4]))
        filed = copy(doc)
        if not c.load(trace, copy(doc)):
            return trace
        for _ in range(steps):
            r = rng.random()
            ps = places(doc)
            p = rng.choice(ps)
            sec = find(doc, p)
            if r < .5:
                looks(c, trace, rng, doc, rng.randint(1, 3))
            elif r < .65:
                n = node(rng, rng.choice([0, 0, 1, 2]))
                k = rng.choice(KEYS if n["t"] == "leaf" else SECS)
                c.set(trace, p, k, copy(n))
                put_in(sec, k, n)
            elif r < .72 and sec["ks"]:
                k = rng.choice(sec["ks"])
                c.delete(trace, p, k)
                q = sec["ks"].index(k)
                del sec["ks"][q], sec["vs"][q]
            elif r < .77:
                m = section(rng, rng.choice([0, 1]))
                c.update(trace, p, copy(m))
                for k, v in zip(m["ks"], m["vs"]):
                    put_in(sec, k, v)
            elif r < .8:
                c.tree(trace)
            elif r < .96:
                how = rng.choice(["own", "other", "go", "plain"])
                if not c.roundtrip(trace, how):
                    break
                if how == "own":
                    filed = copy(doc)
            else:
                if not c.reload(trace):
                    break
                doc = copy(filed)
    return trace


def replay_behaviour(bh):
    """operations of MCConfig"""
    fs.quiet()
    rng = random.Random(repr(bh["ops"]))
    trace = core.new_trace(dict(ev="reset"))
    with fs.Scratch() as d:
        c = Config(rng, d)
        doc = dict(t="map", ks=[], vs=[])
        c.load(trace, copy(doc))
        for o in bh["ops"]:
            sec = find(doc, o["p"])
            if o["op"] == "set":
                c.set(trace, o["p"], o["key"], copy(o["node"]))
                put_in(sec, o["key"], o["node"])
            else:
                c.delete(trace, o["p"], o["key"])
                q = sec["ks"].index(o["key"])
                del sec["ks"][q], sec["vs"][q]
            for p in places(doc):
                for k in ("a", "b", "s"):
                    c.look(trace, p, k, rng.choice(["item", "in", "get"]))
        c.roundtrip(trace, "other")
    return trace
