"""Binding of spec/Alias.tla: histories of sharing, copying, computing and
writing over several live arrays; after each step all of them are projected."""
import random
import warnings
import numpy as np
import arrays as A
from arrays import hfarray, NONE
from core import limited, Timeout

MUT = ("write", "iadd", "setunit", "setfmt", "relabel")


def perform(o, heap):
    op = o["op"]
    if op == "ctor":
        return hfarray(heap[o["x"]])
    if op not in MUT:
        return A.perform(o, heap)
    x = heap[o["x"]]
    if op == "write":
        items = tuple(A.pyitem(i) for i in o["items"])
        vs = o["vs"]
        idx = items[0] if len(items) == 1 else items
        if len(vs) == 1:
            x[idx] = vs[0]
        else:
            x[idx] = np.array(vs).reshape(np.empty(x.shape)[idx].shape)
    elif op == "iadd":
        x += o["v"]
    elif op == "setunit":
        x.unit = None if o["u"] == NONE else o["u"]
    elif op == "setfmt":
        x.outputformat = o["u"]
    elif op == "relabel":
        x.replace_dim(o["old"], A.build_dim(o["d"]))
    return x


class Session(A.Session):
    def do(self, o):
        err, shared, res = "", False, None
        try:
            res = limited(20, perform, o, self.heap)
            if o["op"] not in MUT:
                if not isinstance(res, np.ndarray):
                    res = hfarray(res, dims=())
                if any(res is a for a in self.heap.values()):
                    res = res.view()
                srcs = [self.heap[r] for r in [o.get("x")] + list(o.get("xs", [])) if r]
                shared = any(np.shares_memory(np.asarray(res), np.asarray(s)) for s in srcs)
        except Timeout:
            err = "timeout"
        except Exception as e:
            err = type(e).__name__
        if not err:
            self.heap[o["dst"]] = res
        heap = {r: A.project(a) for r, a in self.heap.items()}
        self.proj = heap
        self.trace.append(dict(ev="op", o=o, err=err, shared=bool(shared), heap=heap))
        return not err


def ok(p, a):
    return A.plain(p, a) and p["num"] == "int" and A.magnitude(a) < 400 and a.dtype.kind in "if"


def intarr(c, dims=None):
    o = c.g.array(dims=dims, kind=c.rng.choice(["int", "float"]))
    o["dst"] = c.reg()
    c.s.do(o)
    return o["dst"]


def op_view(c):
    x = c.pick(ok)
    return dict(op=c.rng.choice(["view", "view", "copy", "copy", "ctor"]), x=x, dst=c.reg()) if x else None


def op_write(c):
    rng = c.rng
    o = None
    for _ in range(6):
        o = A.op_index(c)
        if o and c.s.heap[o["x"]].dtype.kind in "if" and c.s.heap[o["x"]].flags.writeable:
            break
        o = None
    if o is None:
        return None
    vs = [rng.randint(-90, 90)]
    o = dict(op="write", x=o["x"], items=o["items"], vs=vs, dst=o["x"])
    if rng.random() < .4 and all(i["t"] != "list" for i in o["items"]):
        try:
            n = np.empty(c.s.heap[o["x"]].shape)[tuple(A.pyitem(i) for i in o["items"])].size
        except IndexError:
            n = 1
        if n > 1:
            o["vs"] = [rng.randint(-90, 90) for _ in range(n)]
    return o


def op_iadd(c):
    x = c.pick(lambda p, a: ok(p, a) and a.flags.writeable)
    return dict(op="iadd", x=x, v=c.rng.randint(-3, 9), dst=x) if x else None


def op_meta(c):
    rng = c.rng
    x = c.pick(ok)
    if x is None:
        return None
    k = rng.choice(["setunit", "setfmt", "relabel"])
    if k == "setunit":
        return dict(op=k, x=x, u=rng.choice([NONE, "m", "A", "dBm"]), dst=x)
    if k == "setfmt":
        return dict(op=k, x=x, u=rng.choice(["%.5e", "%.2f", "%x"]), dst=x)
    p = c.s.proj[x]
    if not p["dims"]:
        return None
    d = rng.choice(p["dims"])
    n = p["shape"][p["dims"].index(d)]
    nm = rng.choice(["zz", "yy", d["name"]])
    if nm != d["name"] and nm in [e["name"] for e in p["dims"]]:
        return None
    return dict(op=k, x=x, old=d["name"], d=dict(cls="DimSweep", name=nm, data=[str(50 + i) for i in range(n)], unit=NONE, fmt="%d"), dst=x)


def op_bin(c):
    o = A.op_bin(c)
    return o if o and o["f"] in ("add", "sub", "mul") and c.s.proj[o["x"]]["num"] == "int" and c.s.proj[o["y"]]["num"] == "int" and A.magnitude(c.s.heap[o["x"]]) * A.magnitude(c.s.heap[o["y"]]) < 5e4 else None


def op_scal(c):
    o = A.op_scal(c)
    return o if o and isinstance(o["py"], int) and o["f"] in ("add", "sub", "mul") else None


def op_red(c):
    o = A.op_red(c)
    return o if o and o["f"] in ("sum", "min", "max") and o["strict"] else None


def op_un(c):
    o = A.op_un(c)
    return o if o and o["f"] in ("neg", "real", "conj") else None


OPGEN = dict(A.OPGEN, view=op_view, write=op_write, iadd=op_iadd, meta=op_meta, bin=op_bin, scal=op_scal, red=op_red, un=op_un)
WEIGHTS = dict(view=6, index=5, transpose=4, write=9, iadd=2, meta=3, bin=2, scal=1, un=1, red=1, cum=1, mask=1, take=1, reorder=2, t=2,
               squeeze=1, tail=1, norep=1, align=1)


class Ctx(A.Ctx):
    def __init__(self, rng):
        A.Ctx.__init__(self, rng)
        self.s = Session()

    def live(self, pred=lambda p, a: True):
        return A.Ctx.live(self, lambda p, a: p["num"] == "int" and a.dtype.kind in "if" and pred(p, a))

    def new(self, dims=None, kind=None):
        return intarr(self, dims)


def random_trace(job):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    seed, length = job
    rng = random.Random(seed)
    c = Ctx(rng)
    kinds = list(WEIGHTS)
    tries = 0
    while len(c.s.trace) < length + 1 and tries < length * 6:
        tries += 1
        k = rng.choices(kinds, [WEIGHTS[q] for q in kinds])[0]
        o = OPGEN[k](c)
        if o is None or o.get("x", 1) is None:
            continue
        c.s.do(o)
        r = o["dst"]
        if r in c.s.heap and (not isinstance(c.s.heap[r], hfarray) or not A.small(c.s.proj[r], maxn=200)):
            break
    return c.s.trace


def replay_behaviour(b):
    warnings.simplefilter("ignore")
    s = Session(init=b["init"])
    for o in b["ops"]:
        s.do(o)
    return s.trace
