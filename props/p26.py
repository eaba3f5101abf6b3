"""P26: baffles, apertures and prisms have the documented shape."""
from vc.engine import contract
from .common import *
from .parts import *

ASSUME = ["which points a primitive and a combination contain are the contracts of P06-P08, P12 and P13; that members follow their combination is P15's",
          "a ray meets a sheet without thickness where the contract of its primitive says (P06, P07); that rays crossing elsewhere go on unchanged is the tracer's contract (P16)"]


class Named:
    """two apertures with inputs of their own"""

    def __new__(cls, S, kind, name):
        real, flag = S.real, S.flag
        try:
            S.real = lambda n, **k: real(name + " " + n, **k)
            S.flag = lambda n: flag(name + " " + n)
            return Aperture(S, kind)
        finally:
            del S.real, S.flag


def absorbing(S, pr):
    """what the point lies on absorbs"""
    for o in leaves(pr.part):
        lv = pr.lv[id(o)]
        if o.material is not S.R.matl.absorber:
            S.ensure("only absorbing surfaces in the sheet", S.not_(S.and_(S.or_(*[S.eq(v, 0) for v in lv]), *[S.le(v, 0) for v in lv])))


@contract("P26", ["pyrayt.components.baffle", "pyrayt.components._create_aperture"], merge=True, budget=120, cases=[dict(size=k) for k in KINDS])
def baffle(S, size):
    """exactly the rectangle, circle or ellipse in the yz-plane absorbs"""
    ghost_world(S)
    ap = Aperture(S, size)
    y, z = ap.point()
    for e in ap.edges(y, z):
        S.assume(S.ne(e, 0))
    p = (S.const(0) if S.flag("in the plane") else S.real("x", nonzero=True)), y, z
    b = S.R.comp.baffle(ap.arg)
    want = S.and_(S.eq(p[0], 0), ap.contains(y, z))
    material_of(S, b, S.R.matl.absorber)
    if S.symbolic:
        S.ensure("the outline in the plane x = 0", S.iff(Probe(S, b, p).on_sheet(), want))
    else:
        crossing(S, b, p, want)


@contract("P26", ["pyrayt.components.aperture", "pyrayt.components.baffle", "pyrayt.components._create_aperture"], merge=True, budget=120,
          cases=[dict(size=k, opening=j) for k in KINDS for j in KINDS])
def aperture(S, size, opening):
    """exactly the outer region without the opening absorbs"""
    ghost_world(S)
    out, op = Named(S, size, "outer"), Named(S, opening, "opening")
    y, z = out.point() if S.flag("drawn around the outline") else op.point()
    for e in out.edges(y, z) + op.edges(y, z):
        S.assume(S.ne(e, 0))
    p = (S.const(0) if S.flag("in the plane") else S.real("x", nonzero=True)), y, z
    a = S.R.comp.aperture(out.arg, op.arg)
    want = S.and_(S.eq(p[0], 0), out.contains(y, z), S.not_(op.contains(y, z)))
    if S.symbolic:
        pr = Probe(S, a, p)
        S.ensure("the outline without the opening in the plane x = 0", S.iff(pr.on_sheet(), want))
        absorbing(S, pr)
    else:
        crossing(S, a, p, want)


@contract("P26", ["pyrayt.components.equilateral_prism"], merge=True, budget=120)
def prism(S):
    ghost_world(S)
    s, w = S.real("side", pos=True), S.real("width", pos=True)
    r3 = S.sqrt(S.const(3))
    h = S.div(r3, 2) * s
    if S.symbolic:
        x, y, z = S.real("x"), S.real("y"), S.real("z")
    else:
        x, y, z = S.real("x", lo=-.7 * s, hi=.7 * s), S.real("y", lo=-.7 * w, hi=.7 * w), S.real("z", lo=-.7 * h, hi=.7 * h)
    kw, mat = {}, S.R.matl.glass["BK7"]
    if S.flag("material given"):
        mat = S.R.matl.BasicRefractor(1.7)
        kw = dict(material=mat)
    p = x, y, z
    faces = [-z - S.div(h, 2), y - S.div(w, 2), -y - S.div(w, 2),  # base, ends
             S.div(r3, 2) * x + S.div(z, 2) - S.div(h, 4), -S.div(r3, 2) * x + S.div(z, 2) - S.div(h, 4)]  # sides
    for f in faces:
        S.assume(S.ne(f, 0))
    m = S.R.comp.equilateral_prism(s, w, **kw)
    material_of(S, m, mat)
    pr = Probe(S, m, p)
    pr.generic()
    S.ensure("exactly the triangular prism centred on the origin", S.iff(pr.contains(), S.and_(*[S.lt(f, 0) for f in faces])))
