"""Binding of spec/Nets.tla to hftools.networks and hftools.math."""
import random
import warnings
import numpy as np
import core
import arrays as A
import exact as X
from exact import Q
from arrays import hfarray, dm
from core import encode_values, limited, Timeout, rational, gf
from fractions import Fraction as F
import hftools.math as hm
from hftools.constants import k as KB
from hftools.dataset import DataBlock
from hftools.networks import multiports as mp
from hftools.networks import spar_functions as sf
from hftools.networks import noise as nz

CLS = dict(Z=mp.ZArray, Y=mp.YArray, S=mp.SArray, G=mp.GArray, H=mp.HArray, A=mp.ABCDArray, T=mp.TArray, Tp=mp.TpArray)
KIND = {v: k for k, v in CLS.items()}
WAVE = ("S", "T", "Tp")
MAXDEN, TOL = 40000, 1e-10
UNIT = 4 * KB * 290


def project(a, scale=1.):
    arr = np.asarray(a)
    if arr.dtype.kind not in "bifuc":
        return dict(dims=[], shape=[], num="gf", vals=[-1], cj=[], unit="!", fmt="!")
    arr = arr / scale if scale != 1. else arr
    num, vals, cj = encode_values(arr.ravel().tolist(), arr.dtype.kind == "c", MAXDEN, TOL)
    if isinstance(a, hfarray) or hasattr(a, "dims"):
        dims = [A.proj_dim(d) for d in a.dims]
    else:
        dims = [dict(cls="?", name="?unlabelled", data=[], unit="~", fmt="~")] * arr.ndim
    return dict(dims=dims, shape=list(arr.shape), num=num, vals=vals, cj=cj, unit="~", fmt="~")


def proj_net(n):
    if isinstance(n, nz.NoisyTwoport):
        r = proj_net(n.N)
        r["c"] = project(n.C, UNIT)
        return r
    try:
        z0 = int(round(float(n.Z0)))
    except Exception:
        z0 = 0
    return dict(kind=KIND.get(type(n), "?" + type(n).__name__), z0=z0, a=project(n))


def exact_mats(a, scale=1.):
    """{outer index: matrix of Q} of the real array, None when not exact"""
    arr = np.asarray(a) / scale if scale != 1. else np.asarray(a)
    out = {}
    for ix in np.ndindex(*arr.shape[:-2]):
        M = []
        for row in arr[ix]:
            r = []
            for z in row:
                z = complex(z)
                re, im = rational(z.real, MAXDEN, TOL), rational(z.imag, MAXDEN, TOL)
                if re is None or im is None:
                    return None
                r.append(Q(re, im))
            M.append(r)
        out[ix] = M
    return out


POOL = [("DimSweep", "f", [10, 20]), ("DimRep", "g", [0, 1, 2]), ("DimSweep", "v", [1.5, -2.5]), ("DimSweep", "o", [4]), ("DimRep", "h", [0, 1])]


def outer_dims(rng, most=2):
    ds = rng.sample(POOL, rng.choice([0, 1, 1, 2, 2][:most * 2 + 1]))
    ds = [A.CLS[c](n, d) for c, n, d in ds]
    return sorted(ds, key=lambda d: d.sortprio) if rng.random() < .8 else ds


def ij(r, c):
    return [dm.DimMatrix_i("i", r), dm.DimMatrix_j("j", c)]


def union_points(arrs):
    """outer points of the union of the outer dims of arrays -> list of index tuples per array"""
    names = []
    size = {}
    for a in arrs:
        for d, n in zip(a.dims[:-2], a.shape[:-2]):
            if d.name not in names:
                names.append(d.name)
            size[d.name] = max(size.get(d.name, 1), n)
    for ix in np.ndindex(*[size[n] for n in names]):
        at = dict(zip(names, ix))
        yield [tuple(at[d.name] if n > 1 else 0 for d, n in zip(a.dims[:-2], a.shape[:-2])) for a in arrs]


def polish(n):
    """rid a result of rounding errors, so that they do not pile up: a value
    that the specification sees as p/q becomes p/q"""
    parts = [(n.N, 1.), (n.C, UNIT)] if isinstance(n, nz.NoisyTwoport) else [(n, 1.)]
    for a, scale in parts:
        try:
            arr = np.asarray(a)
            if arr.dtype.kind not in "fc" or arr.ndim < 2 or not arr.flags.writeable:
                continue
            m = exact_mats(arr, scale)
        except Exception:
            continue
        if m is None:
            continue
        for ix, M in m.items():
            for r, row in enumerate(M):
                for c, v in enumerate(row):
                    v = complex(v)
                    arr[ix + (r, c)] = (v if arr.dtype.kind == "c" else v.real) * scale
    return n


class Session(object):
    def __init__(self):
        self.nets, self.proj = {}, {}
        self.trace = core.new_trace(dict(ev="reset"))
        self.count = 0
        self.par = set()          # registers whose noise came from noise parameters

    def fresh(self):
        if len(self.nets) >= 5:
            for r in list(self.nets):
                if len(self.nets) < 5:
                    break
                # forget the oldest: the trace says so with a drop event
                del self.nets[r], self.proj[r]
                self.par.discard(r)
                self.trace.append(dict(ev="drop", r=r))
        self.count += 1
        return "r%d" % self.count

    def step(self, o, fn, isnet=True, outproj=None):
        o.setdefault("expect", "ok")
        err, out, res = "", {}, None
        try:
            res = limited(20, fn)
        except Timeout:
            err = "timeout"
        except Exception as e:
            err = type(e).__name__
        if not err:
            if isnet:
                self.nets[o["dst"]] = polish(res)
            else:
                out = (outproj or project)(res)
        self.proj = {r: proj_net(n) for r, n in self.nets.items()}
        self.trace.append(dict(ev="op", o=o, err=err, nets=dict(self.proj), out=out))
        return not err


# ---------------------------------------------------------------- values
def rand_q(rng, style):
    if style == "int":
        return Q(rng.choice([-3, -2, -1, 0, 1, 1, 2, 3, 5]))
    if style == "frac":
        return Q(F(rng.choice([-5, -3, -2, -1, 0, 1, 2, 3, 4, 7]), rng.choice([1, 2, 4])))
    return Q(F(rng.choice([-3, -2, -1, 0, 1, 2, 3]), rng.choice([1, 1, 2])), F(rng.choice([-2, -1, 0, 0, 1, 2]), rng.choice([1, 1, 2])))


SCALE = dict(Z=50, Y=F(1, 50), S=F(1, 4), G=1, H=1, A=1, T=1, Tp=1)


def rand_mat(rng, kind, n, style):
    M = [[rand_q(rng, style) for _ in range(n)] for _ in range(n)]
    if n > 2:
        for _ in range(n * n // 3):
            M[rng.randrange(n)][rng.randrange(n)] = Q(0)
        for r in range(n):
            if not M[r][r]:
                M[r][r] = Q(2)
    if rng.random() < .35:
        return M
    s = SCALE[kind]
    M = [[x * Q(s) for x in r] for r in M]
    if n == 2 and kind in ("G", "H", "A"):
        # entries with different dimensions: scale them like impedances/admittances
        f = {"A": [[1, 50], [F(1, 50), 1]], "G": [[F(1, 50), 1], [1, 50]], "H": [[50, 1], [1, F(1, 50)]]}[kind]
        M = [[x * Q(y) for x, y in zip(a, b)] for a, b in zip(M, f)]
    return M


def build_array(mats, dims, n, style, rng):
    shape = [len(d.data) for d in dims] + [n, n]
    cplx = style == "cplx" or rng.random() < .15
    data = np.zeros(shape, complex if cplx else float)
    for ix, M in mats.items():
        for r in range(n):
            for c in range(n):
                data[ix + (r, c)] = complex(M[r][c]) if cplx else complex(M[r][c]).real
    if not cplx and np.all(data == np.round(data)) and rng.random() < .7:
        data = data.astype(int)
    return hfarray(data, dims=tuple(dims) + tuple(ij(n, n)))


def new_net(rng, s, kinds=None, n=None):
    kind = rng.choice(kinds or list(CLS))
    n = n or (2 if kind not in ("Z", "Y", "S") else rng.choice([1, 2, 2, 2, 3, 4]))
    dims = outer_dims(rng, 1 if n > 2 else 2)
    style = rng.choice(["int", "frac", "cplx", "cplx"])
    mats = {ix: rand_mat(rng, kind, n, style) for ix in np.ndindex(*[len(d.data) for d in dims])}
    arr = build_array(mats, dims, n, style, rng)
    z0 = rng.choice([50, 50, 75, 100]) if kind == "S" else 50
    dst = s.fresh()
    o = dict(op="new", dst=dst, kind=kind, z0=z0, arr=project(arr))
    kw = {} if z0 == 50 else dict(Z0=z0)
    if s.step(o, lambda: CLS[kind](arr, **kw)):
        return dst
    return None


def net_of(n):
    return n.N if isinstance(n, nz.NoisyTwoport) else n


def kz(n):
    n = net_of(n)
    return KIND[type(n)], int(round(float(n.Z0)))


MAXAMP = 3e4


def steady(rng, fn):
    a = X.amplification(fn, rng)
    return a == a and a < MAXAMP


def can_convert(n, kind, z0s, rng=random.Random(0)):
    k, z = kz(n)
    mats = exact_mats(net_of(n))
    if mats is None:
        return False
    return all(X.small(X.conv(k, z, M, kind, z2), MAXDEN) and
               steady(rng, lambda sh: sh(X.fconv(k, z, sh(X.fl(M)), kind, z2))) for M in mats.values() for z2 in z0s)


def do_conv(rng, s, x, kind=None, z0=None):
    n = s.nets[x]
    size = n.shape[-1]
    k, z = kz(n)
    kind = kind or rng.choice(list(CLS))
    if z0 is None:
        z0 = rng.choice([50, 75, 100]) if kind == "S" and rng.random() < .4 else 0
    dst = None
    if size != 2 and kind not in ("Z", "Y", "S"):
        dst = s.fresh()
        if x not in s.nets:
            return None
        s.step(dict(op="conv", dst=dst, x=x, kind=kind, z0=0, expect="err"), lambda: CLS[kind](n))
        return None
    if not can_convert(n, kind, [z0] if z0 else [50, z], rng):
        return None
    dst = s.fresh()
    if x not in s.nets:
        return None
    kw = dict(Z0=z0) if z0 else {}
    return dst if s.step(dict(op="conv", dst=dst, x=x, kind=kind, z0=z0), lambda: CLS[kind](n, **kw)) else None



def refs(nets):
    return sorted(set([50] + [kz(n)[1] for n in nets if kz(n)[0] == "S"]))


def sforms(nets, ref=50):
    """points -> S (ref ohm) matrices of all nets, None when some does not exist"""
    ms = [exact_mats(n) for n in nets]
    if any(m is None for m in ms):
        return None
    out = []
    for ixs in union_points(nets):
        row = []
        for n, m, ix in zip(nets, ms, ixs):
            k, z = kz(n)
            S = X.conv(k, z, m[ix], "S", ref)
            if S is None or not X.small(S, 10 ** 6):
                return None
            row.append(S)
        out.append(row)
    return out


def fits(S, kind, z0s, ref=50):
    return all(X.small(X.conv("S", ref, S, kind, z), MAXDEN) for z in z0s)


def cascade_ok(rng, nets, ref, nest):
    f = sforms(nets, ref)
    if f is None:
        return False
    k, z = kz(nets[0])
    ks = [kz(n) for n in nets]
    ms = [exact_mats(n) for n in nets]
    for ixs in union_points(nets):
        Ms = [X.fl(m[ix]) for m, ix in zip(ms, ixs)]

        def path(sh, z2):
            Ss = [sh(X.fconv(a, b, sh(M), "S", ref)) for (a, b), M in zip(ks, Ms)]
            S = Ss[0]
            for T in Ss[1:]:
                S = sh(X.fjoin(S, T, sh))
                if len(Ss) > 2:
                    S = sh(X.fconv(k, z2, sh(X.fconv("S", ref, S, k, z2)), "S", ref))
            return sh(X.fconv("S", ref, S, k, z2))
        if not all(steady(rng, lambda sh: path(sh, z2)) for z2 in set([50, z])):
            return False
    for row in f:
        S = row[0]
        for T in row[1:]:
            S = X.join(S, T)
            if S is None or not X.small(S, 10 ** 9):
                return False
            # intermediate results pass through the first operand's kind
            if len(nets) > 2 and X.conv("S", ref, S, k, z) is None:
                return False
        if not fits(S, k, [50, z], ref):
            return False
        if nest:
            k1, z1 = kz(nets[1])
            S = X.join(row[1], row[2])
            if S is None or any(X.conv("S", ref, S, k1, q) is None for q in (50, z1)):
                return False
    return True


def do_cascade(rng, s, regs):
    nets = [s.nets[r] for r in regs]
    if len(regs) == 3 and rng.random() < .5 and not all(kz(n)[0] == "S" for n in nets):
        nest = True
    else:
        nest = False
    if not all(cascade_ok(rng, nets, ref, nest) for ref in refs(nets)):
        return None
    dst = s.fresh()
    if any(r not in s.nets for r in regs):
        return None
    if len(regs) == 2:
        return dst if s.step(dict(op="cascade", dst=dst, x=regs[0], y=regs[1]), lambda: nets[0].cascade(nets[1])) else None
    o = dict(op="cascade3", dst=dst, x=regs[0], y=regs[1], w=regs[2])
    if all(kz(n)[0] == "S" for n in nets):
        fn = lambda: sf.cascadeS(*nets)
    elif nest:
        fn = lambda: nets[0].cascade(nets[1].cascade(nets[2]))
    else:
        fn = lambda: nets[0].cascade(nets[1]).cascade(nets[2])
    return dst if s.step(o, fn) else None


def deembed_ok(rng, n, sides, left, right, ref):
    f = sforms([n] + sides, ref)
    if f is None:
        return False
    k, z = kz(n)
    ks = [kz(q) for q in [n] + sides]
    ms = [exact_mats(q) for q in [n] + sides]
    for ixs in union_points([n] + sides):
        Ms = [X.fl(m[ix]) for m, ix in zip(ms, ixs)]

        def path(sh, z2):
            Ss = [sh(X.fconv(a, b, sh(M), "S", ref)) for (a, b), M in zip(ks, Ms)]
            D = Ss.pop(0)
            if left:
                D = sh(X.funjoin(D, Ss.pop(0), "l", sh))
            if right:
                D = sh(X.funjoin(D, Ss.pop(0), "r", sh))
            return sh(X.fconv("S", ref, D, k, z2))
        if not all(steady(rng, lambda sh: path(sh, z2)) for z2 in set([50, z])):
            return False
    for row in f:
        Ts = [X.conv("S", ref, S, "T", ref) for S in row]
        if any(T is None or not X.small(T, 10 ** 9) for T in Ts):
            return False
        D = Ts[0]
        rest = Ts[1:]
        if left:
            L = X.inv(rest.pop(0))
            if L is None:
                return False
            D = X.mul(L, D)
            S = X.conv("T", ref, D, "S", ref)
            if S is None or not X.small(S, 10 ** 12):
                return False
        if right:
            R = X.inv(rest.pop(0))
            if R is None:
                return False
            D = X.mul(D, R)
        S = X.conv("T", ref, D, "S", ref)
        if S is None or not X.small(S, 10 ** 12) or not fits(S, k, [50, z], ref):
            return False
        # the joins with which the specification puts things back
        w = S
        if left:
            w = X.join(row[1], w)
        if w is not None and right:
            w = X.join(w, row[-1])
        if w is None:
            return False
    return True


def do_deembed(rng, s, x, left, right):
    n = s.nets[x]
    sides = [s.nets[r] for r in (left, right) if r]
    if not all(deembed_ok(rng, n, sides, left, right, ref) for ref in refs([n] + sides)):
        return None
    dst = s.fresh()
    if any(r not in s.nets for r in (x, left, right) if r):
        return None
    kw = {}
    if left:
        kw["left"] = s.nets[left]
    if right:
        kw["right"] = s.nets[right]
    return dst if s.step(dict(op="deembed", dst=dst, x=x, left=left, right=right), lambda: n.deembed(**kw)) else None


def do_slice(rng, s, x):
    n = s.nets[x]
    items = []
    for m in n.shape[:-2]:
        r = rng.random()
        if r < .35:
            items.append(dict(t="int", i=rng.randrange(m)))
        elif r < .6:
            items.append(dict(t="slice", a=[], b=[], s=[rng.choice([1, -1, 2])]))
        else:
            a = rng.randrange(m)
            items.append(dict(t="slice", a=[a], b=[rng.randint(a + 1, m)], s=[]))
    if not items:
        return None
    if rng.random() < .4:
        items.append(dict(t="ell"))
    dst = s.fresh()
    if x not in s.nets:
        return None
    idx = tuple(A.pyitem(i) for i in items)
    return dst if s.step(dict(op="slice", dst=dst, x=x, items=items), lambda: n[idx].copy()) else None


def elname(rng, kind, i, j):
    n = CLS[kind].shortname
    return rng.choice([n, n.lower(), n.upper()]) + "%d%d" % (i, j)


def do_get(rng, s, x):
    n = s.nets[x]
    k, _ = kz(n)
    m = n.shape[-1]
    i, j = rng.randint(1, m), rng.randint(1, m)
    name = elname(rng, k, i, j)
    s.step(dict(op="get", dst="", x=x, i=i, j=j, name=name), lambda: getattr(n, name), False)


def do_set(rng, s, x):
    n = s.nets[x]
    k, _ = kz(n)
    m = n.shape[-1]
    i, j = rng.randint(1, m), rng.randint(1, m)
    name = elname(rng, k, i, j)
    kind = n.dtype.kind
    val = lambda: rng.randint(-4, 9) if kind == "i" else rng.randint(-9, 9) / 4. if kind == "f" else complex(rng.randint(-5, 5), rng.randint(-5, 5))
    outer = list(n.dims[:-2])
    sub = rng.sample(outer, rng.randint(0, len(outer)))
    if not sub and rng.random() < .5:
        v = val()
        arr = project(hfarray(v))
    else:
        shape = [len(d.data) for d in sub]
        v = hfarray(np.array([val() for _ in range(int(np.prod(shape)) if shape else 1)]).reshape(shape), dims=tuple(sub))
        arr = project(v)
    dst = s.fresh()
    if x not in s.nets:
        return None

    def fn():
        y = n.copy()
        setattr(y, name, v)
        return y
    return dst if s.step(dict(op="set", dst=dst, x=x, i=i, j=j, name=name, arr=arr), fn) else None


# ---------------------------------------------------------------- noise
def corr_mats(n):
    """exact correlation matrices by the points of the network"""
    outer = [d.name for d in n.N.dims[:-2]]
    if sorted(d.name for d in n.C.dims[:-2]) != sorted(outer):
        return None
    C = n.C.reorder_dimensions(*[n.C.dims[n.C.dims_index(q)] for q in outer])
    return exact_mats(C, UNIT)


def noise_ok(k, z, mats, cm, kind, z2):
    for ix, M in mats.items():
        N = X.conv(k, z, M, kind, z2)
        if not X.small(N, MAXDEN):
            return False
        if not X.small(X.noise_conv(k, z, M, cm[ix], kind, z2), MAXDEN):
            return False
        # the specification maps back with the noise map of the source
    return True


def do_nconv(rng, s, x, kind=None):
    n = s.nets[x]
    k, z = kz(n)
    kind = kind or rng.choice(list(CLS))
    mats, cm = exact_mats(n.N), corr_mats(n)
    if mats is None or cm is None or set(mats) != set(cm):
        return None
    if not all(noise_ok(k, z, mats, cm, kind, z2) for z2 in ([50, z] if kind in WAVE else [50])):
        return None
    dst = s.fresh()
    if x not in s.nets:
        return None
    par = x in s.par
    if s.step(dict(op="nconv", dst=dst, x=x, kind=kind), lambda: n.convert(CLS[kind])):
        if par:
            s.par.add(dst)
        return dst


def do_noisy(rng, s, x):
    n = s.nets[x]
    C = np.zeros(n.shape, complex)
    for ix in np.ndindex(*n.shape[:-2]):
        C[ix][0, 0] = rng.randint(0, 6)
        C[ix][1, 1] = rng.randint(0, 6)
        C[ix][0, 1] = complex(rng.randint(-3, 3), rng.randint(-3, 3))
        C[ix][1, 0] = C[ix][0, 1].conjugate()
    Ch = hfarray(C * UNIT, dims=n.dims)
    dst = s.fresh()
    if x not in s.nets:
        return None
    return dst if s.step(dict(op="noisy", dst=dst, x=x), lambda: nz.NoisyTwoport(n, Ch)) else None


def do_thermal(rng, s, x):
    n = s.nets[x]
    k, z = kz(n)
    if k not in ("Z", "Y", "S"):
        dst = s.fresh()
        if x in s.nets:
            s.step(dict(op="thermal", dst=dst, x=x, expect="err"), lambda: nz.passive_noise(n))
        return None
    mats = exact_mats(n)
    if mats is None:
        return None
    for M in mats.values():
        C = X.mul(M, X.hc(M)) if k == "S" else [[a + b for a, b in zip(r, w)] for r, w in zip(M, X.hc(M))]
        if not X.small(C, MAXDEN // 8):
            return None
    dst = s.fresh()
    if x not in s.nets:
        return None
    return dst if s.step(dict(op="thermal", dst=dst, x=x), lambda: nz.passive_noise(n)) else None


def do_frompar(rng, s, x):
    n = s.nets[x]
    k, z = kz(n)
    if k != "S" or z != 50 or not can_convert(n, "A", [50]):
        return None
    outer = n.shape[:-2]
    cnt = int(np.prod(outer)) if outer else 1
    rn = [F(rng.randint(1, 8)) for _ in range(cnt)]
    fm = [F(rng.randint(5, 16), 4) for _ in range(cnt)]
    y = [Q(F(rng.randint(1, 4), 50), F(rng.randint(-3, 3), 50)) for _ in range(cnt)]
    g = [(1 - w * 50) / (1 + w * 50) for w in y]
    res = lambda w: Q(w).residues()[0]
    par = dict(rn=[res(w) for w in rn], fmin=[res(w) for w in fm], y=[w.residues()[0] for w in y], yc=[w.residues()[1] for w in y])
    dims = n.dims[:-2]
    mk = lambda l, c: hfarray(np.array([complex(w) if c else float(w) for w in l]).reshape(outer), dims=dims)
    dst = s.fresh()
    if x not in s.nets:
        return None

    def fn():
        b = DataBlock()
        b.S = n.copy()
        b.Rn = mk(rn, 0)
        b.Fmin = mk(fm, 0)
        b.Gopt = mk(g, 1)
        return nz.from_noisepar(b)
    if s.step(dict(op="frompar", dst=dst, x=x, par=par), fn):
        s.par.add(dst)
        return dst


def proj_par(b, outer):
    q = dict(bad=False, rn=[], fmin=[], y=[], yc=[], g=[])
    for key, src in (("rn", b.Rn), ("fmin", b.Fmin), ("y", b.Yopt), ("g", b.Gopt)):
        if sorted(d.name for d in src.dims) != sorted(outer):
            q["bad"] = True
            return q
        if outer:
            src = src.reorder_dimensions(*[src.dims[src.dims_index(w)] for w in outer])
        for v in np.asarray(src).ravel().tolist():
            a, c = gf(v, MAXDEN, 1e-8)
            if a < 0:
                q["bad"] = True
            q[key].append(a)
            if key == "y":
                q["yc"].append(c)
    return q


def do_npar(rng, s, x):
    n = s.nets[x]
    k, z = kz(n)
    mats, cm = exact_mats(n.N), corr_mats(n)
    if mats is None or cm is None:
        return
    kinds = ["A"] if k == "A" else ["A", "Y"]
    for ix, M in mats.items():
        for kind in kinds:
            N = X.conv(k, z, M, kind, 50)
            C = X.noise_conv(k, z, M, cm[ix], kind, 50)
            if N is None or C is None:
                return
            if kind == "Y" and (not N[1][0] or not C[1][1] or N[1][0].size() < F(1, 10 ** 4)):
                return
    s.step(dict(op="npar", dst="", x=x), lambda: n.noise_parameters(), False, lambda b: proj_par(b, [d.name for d in n.N.dims[:-2]]))


# ---------------------------------------------------------------- matrix algebra
def rand_matrices(rng, r, c, style, most=2):
    dims = outer_dims(rng, most)
    shape = [len(d.data) for d in dims] + [r, c]
    v = [complex(rand_q(rng, style)) for _ in range(int(np.prod(shape)))]
    arr = np.array(v).reshape(shape)
    if style != "cplx":
        arr = arr.real.copy()
        if np.all(arr == np.round(arr)) and rng.random() < .6:
            arr = arr.astype(int)
    return hfarray(arr, dims=tuple(dims) + tuple(ij(r, c)))


def do_matrix(rng, s):
    op = rng.choice(["mm", "mm", "inv", "det", "solve", "solve", "lstsq", "lstsq", "mk2", "switch"])
    st = lambda: rng.choice(["int", "frac", "cplx"])
    if op == "mk2":
        es = []
        for _ in range(4):
            dims = outer_dims(rng)
            shape = [len(d.data) for d in dims]
            style = st()
            v = np.array([complex(rand_q(rng, style)) for _ in range(int(np.prod(shape)) if shape else 1)]).reshape(shape)
            if style != "cplx":
                v = v.real.copy()
                if style == "int" and rng.random() < .6:
                    v = v.astype(int)
            es.append(hfarray(v, dims=tuple(dims)))
        s.step(dict(op="mk2", dst="", es=[project(e) for e in es]), lambda: hm.make_matrix(*es), False)
        return
    n = rng.choice([1, 2, 2, 3, 4])
    if op == "mm":
        a, b = rand_matrices(rng, n, rng.choice([n, n, 2, 3]), st()), None
        b = rand_matrices(rng, a.shape[-1], rng.choice([a.shape[-1], 1, 2, 3]), st())
        fn = lambda: hm.matrix_multiply(a, b)
    elif op in ("inv", "det"):
        a, b = rand_matrices(rng, n, n, st()), None
        if op == "inv" and not all(X.small(X.inv(M), MAXDEN) for M in exact_mats(a).values()):
            return
        fn = lambda: getattr(hm, op)(a)
    else:
        m = n if op != "lstsq" else rng.choice([n, n + 1, n + 2])
        a = rand_matrices(rng, m, n, st())
        b = rand_matrices(rng, m, rng.choice([1, 2, n]), st()) if op != "switch" else rand_matrices(rng, rng.choice([n, 1, 2]), n, st())
        ea, eb = exact_mats(a), exact_mats(b)
        for ia, ib in union_points([a, b]):
            if op == "switch":
                w = X.inv(ea[ia])
                w = w and X.mul(eb[ib], w)
            else:
                ah = X.hc(ea[ia])
                g = X.mul(ah, ea[ia])
                w = X.inv(g)
                if op == "solve" and X.inv(ea[ia]) is None:
                    return
                w = w and X.mul(w, X.mul(ah, eb[ib]))
            if not X.small(w, MAXDEN // 4, 500):
                return
        if op == "lstsq":
            fn = lambda: hm.lstsq(a, b)
        elif op == "switch":
            fn = lambda: sf.switch_correct(b, a)
        else:
            fn = lambda: hm.solve_Ab(a, b, squeeze=False)
    before = (project(a), project(b) if b is not None else None)
    o = dict(op=op, dst="", a=before[0])
    if b is not None:
        o["b"] = before[1]
    s.step(o, fn, False)
    if (project(a), project(b) if b is not None else None) != before:
        s.trace[-1]["err"] = "operand changed"


# ---------------------------------------------------------------- histories
def random_trace(job):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    seed, prop, length = job
    rng = random.Random(seed)
    s = Session()
    tries = 0
    while len(s.trace) < length and tries < length * 6:
        tries += 1
        plain = [r for r, n in s.nets.items() if not isinstance(n, nz.NoisyTwoport)]
        two = [r for r in plain if s.nets[r].shape[-1] == 2]
        noisy = [r for r in s.nets if r not in plain]
        if prop == "C12" and rng.random() < .5:
            do_matrix(rng, s)
            continue
        if len(plain) < 2 or rng.random() < .15:
            if prop == "C10":
                new_net(rng, s)
            elif prop == "C11":
                new_net(rng, s, n=2)
            else:
                new_net(rng, s, kinds=["Z", "Y", "S", "S", "S", "A"], n=2)
            continue
        x = rng.choice(plain)
        if prop == "C10":
            r = rng.random()
            if r < .62:
                do_conv(rng, s, x)
            elif r < .74:
                do_slice(rng, s, x)
            elif r < .88:
                do_get(rng, s, x)
            else:
                do_set(rng, s, x)
        elif prop == "C11":
            r = rng.random()
            pick = lambda: rng.choice(two)
            if r < .4:
                do_cascade(rng, s, [pick(), pick()])
            elif r < .55:
                do_cascade(rng, s, [pick(), pick(), pick()])
            elif r < .9:
                side = rng.choice(["l", "r", "b"])
                do_deembed(rng, s, pick(), pick() if side != "r" else "", pick() if side != "l" else "")
            else:
                do_conv(rng, s, pick())
        else:
            r = rng.random()
            par = [q for q in noisy if q in s.par]
            if par and r < .35:
                do_npar(rng, s, rng.choice(par))
            elif noisy and r < .6:
                do_nconv(rng, s, rng.choice(par or noisy))
            elif r < .75:
                do_thermal(rng, s, rng.choice(two))
            elif r < .85:
                do_noisy(rng, s, rng.choice(two))
            else:
                do_frompar(rng, s, rng.choice(two))
    return s.trace


def replay_behaviour(bh):
    """a behaviour of MCNets: a network and the operations on it"""
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    rng = random.Random(str(bh)[:200])
    s = Session()
    regs = {}

    def new(name, net):
        arr = hfarray(np.array(net["m"]) / float(net["den"]), dims=tuple(ij(2, 2)))
        z0 = net["z0"]
        kw = dict(Z0=z0) if net["kind"] == "S" and z0 != 50 else {}
        dst = s.fresh()
        s.step(dict(op="new", dst=dst, kind=net["kind"], z0=z0, arr=project(arr)), lambda: CLS[net["kind"]](arr, **kw))
        regs[name] = dst
    new("cur", bh["start"])
    for o in bh["ops"]:
        if o["op"] == "conv":
            d = do_conv(rng, s, regs["cur"], o["kind"], o["z0"] if o["kind"] == "S" and o["z0"] != 50 else 0)
        else:
            new("other", o["net"])
            pair = [regs["cur"], regs["other"]]
            if o["op"] == "right":
                d = do_cascade(rng, s, pair)
            elif o["op"] == "left":
                d = do_cascade(rng, s, pair[::-1])
            elif o["op"] == "unright":
                d = do_deembed(rng, s, pair[0], "", pair[1])
            else:
                d = do_deembed(rng, s, pair[0], pair[1], "")
        if d is None:
            break
        regs["cur"] = d
    return s.trace
