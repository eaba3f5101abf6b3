"""P05: dispersion models."""
from vc.engine import contract
from .common import *


def coefs(S, tag=""):
    return [S.real(tag + x) for x in ("b1", "b2", "b3", "c1", "c2", "c3")]


def n2(S, k, w):
    w2 = w * w
    return 1 + S.div(k[0] * w2, w2 - k[3]) + S.div(k[1] * w2, w2 - k[4]) + S.div(k[2] * w2, w2 - k[5])


def pre(S, k, w):
    for c in k[3:]:
        S.assume(S.or_(S.lt(w * w, c - S.const("0.001")), S.lt(c + S.const("0.001"), w * w)))
    S.assume(S.gt(n2(S, k, w), S.const("0.001")))


def post(S, k, w, n):
    S.ensure("n^2 is the Sellmeier sum", S.eq(n * n, n2(S, k, w)))
    S.ensure("n > 0", S.gt(n, 0))


@contract("P05", ["pyrayt.materials.SellmeierRefractor.index_at"], cases=[dict(form=f) for f in ("scalar", "array", "matrix")])
def sellmeier(S, form):
    k = coefs(S)
    g = S.R.matl.SellmeierRefractor(*k)
    if form == "scalar":
        w = S.real("w", pos=True)
        pre(S, k, w)
        n = g.index_at(w)
        post(S, k, w, n)
        S.ensure("a scalar", S.np.ndim(n) == 0)
        return
    N = S.N()
    w = S.arr("w", () if form == "array" else (2,), N, pos=True)
    w0 = S.np.array(w)
    for x in S.lanes(N, w):
        for y in (x if form == "matrix" else [x]):
            pre(S, k, y)
    n = g.index_at(w)
    S.ensure("same shape", S.shape_ok(n, (N,) if form == "array" else (2, N)))
    S.ensure("wavelengths are not modified", S.same_array(w, w0))
    for x, y in S.lanes(N, w0, n):
        if form == "matrix":
            for i in range(2):
                post(S, k, x[i], y[i])
        else:
            post(S, k, x, y)


@contract("P05", ["pyrayt.materials.BasicRefractor.index_at"], cases=[dict(form=f) for f in ("scalar", "array", "matrix")])
def basic(S, form):
    n0 = S.real("n0", pos=True)
    g = S.R.matl.BasicRefractor(n0)
    if form == "scalar":
        n = g.index_at(S.real("w", pos=True))
        S.ensure("constant index", S.eq(n, n0))
        S.ensure("a scalar", S.np.ndim(n) == 0)
        return
    N = S.N()
    n = g.index_at(S.arr("w", () if form == "array" else (2,), N, pos=True))
    S.ensure("same shape", S.shape_ok(n, (N,) if form == "array" else (2, N)))
    S.ensure("constant index", S.and_(*[S.eq(x, n0) for x in S.entries(n)]))


W = ("0.4861", "0.5893", "0.6563")


def abbe_post(S, gs, ns, order):
    vals = []
    for f, d, c in ns:
        S.assume(S.ne(f, c))
        vals.append(S.div(d - 1, f - c))
    for x in order:
        S.ensure("Abbe number of glass %s" % x, S.eq(gs["ab".index(x)].abbe(), vals["ab".index(x)]))


@contract("P05", ["pyrayt.materials.Glass.abbe"], cases=[dict(order=o) for o in ("ab", "aba", "ba")])
def abbe(S, order):
    """any dispersion law: index_at is known by its contract only; each Abbe number belongs to its own glass, whatever was asked before"""
    class Any(S.R.matl.Glass):
        def __init__(self, n):
            super().__init__()
            self.n = n

        def index_at(self, w):
            for x, y in zip(W, self.n):
                if S.is_(S.eq(w, S.const(x))):
                    return y
            return S.real("n at another wavelength", pos=True)
    ns = [[S.real("%s.n%d" % (t, i), pos=True) for i in range(3)] for t in "ab"]
    abbe_post(S, [Any(n) for n in ns], ns, order)


@contract("P05", ["pyrayt.materials.Glass.abbe", "pyrayt.materials.SellmeierRefractor.index_at"])
def abbe_sellmeier(S):
    """coefficients of real glasses: resonances below 0.447 um and above 7 um"""
    gs, ns = [], []
    for t in "ab":
        k = [S.real(t + x, lo=lo, hi=hi) for x, lo, hi in (("b1", 0, 3), ("b2", 0, 3), ("b3", 0, 3), ("c1", 0, S.const("0.2")), ("c2", 0, S.const("0.2")), ("c3", 50, 300))]
        gs.append(S.R.matl.SellmeierRefractor(*k))
        ns.append([S.sqrt(n2(S, k, S.const(w))) for w in W])
    abbe_post(S, gs, ns, "aba")


@contract("P05", ["pyrayt.materials.Glass.abbe", "pyrayt.materials.BasicRefractor.index_at"], sym=False, conc=2)
def abbe_after_others(S):
    """bounded: many short-lived glasses (a cache keyed by something that is reused would mix them up)"""
    for k in range(150):
        g = S.R.matl.SellmeierRefractor(1 + .01 * k, .2, .5, .01, .02, 100)
        n = [g.index_at(float(w)) for w in W]
        S.ensure("Abbe number of its own glass", S.eq(g.abbe(), (n[1] - 1) / (n[0] - n[2])))


@contract("P05", ["pyrayt.materials.Glass.abbe", "pyrayt.materials.SellmeierRefractor.index_at"], sym=False, conc=20)
def abbe_of_siblings(S):
    """bounded: glasses that differ from each other in one coefficient only, by a lot or by little"""
    k = [S.real(x, lo=lo, hi=hi) for x, lo, hi in (("b1", 0, 2), ("b2", 0, 2), ("b3", 0, 2), ("c1", 0, .1), ("c2", 0, .1), ("c3", 50, 300))]
    gs = [S.R.matl.SellmeierRefractor(*k)]
    for i in range(6):
        for by in (S.real("by%d" % i, lo=1.05, hi=1.8), 1 + 1e-5):
            gs.append(S.R.matl.SellmeierRefractor(*[x * by if i == j else x for j, x in enumerate(k)]))
    for g in gs + gs[::-1]:
        n = [g.index_at(float(w)) for w in W]
        if n[0] - n[2] > 1e-3:
            S.ensure("Abbe number of its own glass", S.eq(g.abbe(), (n[1] - 1) / (n[0] - n[2])))


@contract("P05", ["pyrayt.materials.Glass.abbe", "pyrayt.materials.glass"], sym=False, conc=2)
def abbe_of_catalogue(S):
    """bounded: every catalogue glass, asked twice and interleaved"""
    cat = S.R.matl.glass
    for _ in range(2):
        for nm, g in cat.items():
            n = [g.index_at(w) for w in (.4861, .5893, .6563)]
            if n[0] != n[2]:
                S.ensure("Abbe number of %s" % nm, S.eq(g.abbe(), (n[1] - 1) / (n[0] - n[2])))


@contract("P05", ["pyrayt.materials.SellmeierRefractor.index_at", "pyrayt.materials.BasicRefractor.index_at"], sym=False, conc=40)
def whole_wavelengths(S):
    """bounded: wavelengths given as whole numbers of microns (an integer array or an int), and as a strided view, index like the same wavelengths given as floats"""
    k = [S.real(x, lo=0, hi=2) for x in ("b1", "b2", "b3")] + [S.real("c1", lo=0, hi=S.const("0.2")), S.real("c2", lo=0, hi=S.const("0.2")), S.real("c3", lo=200, hi=300)]
    n0 = S.real("n0", lo=1, hi=3)
    for g in (S.R.matl.SellmeierRefractor(*k), S.R.matl.BasicRefractor(n0)):
        w = S.np.array([1, 2, 3, 4])
        law = [S.sqrt(n2(S, k, float(x))) if g.__class__.__name__[0] == "S" else n0 for x in w]
        for v in (w, w.astype(float), S.np.repeat(w, 2)[::2], w.reshape(2, 2)):
            n = g.index_at(v)
            S.ensure("same shape", S.np.shape(n) == v.shape)
            for x, y in zip(S.np.ravel(n), law):
                S.ensure("index follows the law", S.eq(x, y))
        S.ensure("index follows the law", S.eq(g.index_at(2), law[1]))
