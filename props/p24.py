"""P24: lens builders produce the documented solid of glass."""
from vc.engine import contract
from .common import *
from .parts import *

LENS = ["pyrayt.components._lens", "pyrayt.components._create_aperture"]
ASSUME = ["which points a primitive and a combination contain are the contracts of P06-P08, P12 and P13; that members follow their combination is P15's",
          "the surfaces span the aperture: |radius| is at least the half-diameter (half-diagonal for a rectangle, larger half-axis for an ellipse) of the aperture",
          "where a convex surface is a whole ball, its far side lies beyond the opposite surface (otherwise no such lens exists)"]

SIDES = ("plane", "positive", "negative")


def radius(S, name, kind, ap):
    """(argument, magnitude) of a radius whose sphere spans the aperture"""
    if kind == "plane":
        return (-S.inf if S.flag(name + " -inf") else S.inf), None
    m = S.real(name, pos=True)
    if not S.symbolic:
        if name not in S.values:
            m = m + float(ap.h2) ** .5
            S.used[name] = m
    S.assume(S.lt(ap.h2, m * m))
    return (m if kind == "positive" else -m), m


def height(S, m, rho2):
    """how far from the centre the sphere of radius m is at the distance rho from the axis"""
    S.lemma("the sphere reaches over the point", S.lt(rho2, m * m))
    s = S.sqrt(m * m - rho2)
    S.lemma("height of the sphere", S.and_(S.lt(0, s), S.eq(s * s, m * m - rho2)))
    return s


def check(S, part, ap, p, surfaces, material):
    """surfaces: (position of the vertex, signed curvature +1/-1/0, magnitude) of the left and right surface"""
    material_of(S, part, material)
    x, y, z = p
    pr = Probe(S, part, p)
    pr.generic()
    for e in ap.edges(y, z):
        S.assume(S.ne(e, 0))
    if not S.is_(ap.contains(y, z)):
        S.ensure("nothing beyond the rim of the aperture", S.not_(pr.contains()))
        return
    rho2 = y * y + z * z
    S.lemma("within the circle around the aperture", S.le(rho2, ap.h2))
    want, far = [], []
    ends = []
    for side, (v, sg, m) in zip((-1, 1), surfaces):
        if not sg:
            f = v
        else:
            s = height(S, m, rho2)
            c = v + sg * m
            S.lemma("no higher than the vertex", S.le(s, m))
            rim = S.sqrt(m * m - ap.h2)
            S.lemma("no lower than at the rim", S.and_(S.le(0, rim), S.le(rim, s)))
            f = c - sg * s
            if sg == -side:
                far.append((side, c + sg * s))  # the ball's other side
            u = x - c
            S.lemma("inside the ball between its two sides", S.iff(S.lt(u * u + rho2, m * m), S.and_(S.lt(-s, u), S.lt(u, s))))
        ends.append(f)
        S.assume(S.ne(x, f))
    for side, e in far:
        S.assume(S.le(ends[1], e) if side < 0 else S.le(e, ends[0]))
    S.ensure("glass exactly between the two surfaces", S.iff(pr.contains(), S.and_(S.lt(ends[0], x), S.lt(x, ends[1]))))


def where(S, ap, lo, hi):
    y, z = ap.point()
    x = S.real("x") if S.symbolic else S.real("x", lo=lo, hi=hi)
    return x, y, z


SIGN = {"plane": 0, "positive": 1, "negative": -1}


def glass(S, **kw):
    m = S.R.matl.BasicRefractor(1.7)
    return m


@contract("P24", LENS + ["pyrayt.components.thick_lens", "pyrayt.components._lens_full_thickness"], merge=True, budget=200, timeout=20000,
          cases=[dict(aperture=k, first=a, second=b) for k in KINDS for a in SIDES for b in SIDES])
def thick(S, aperture, first, second):
    ghost_world(S)
    ap = Aperture(S, aperture)
    r1, m1 = radius(S, "r1", first, ap)
    r2, m2 = radius(S, "r2", second, ap)
    t = S.real("thickness", pos=True)
    mat = glass(S)
    p = where(S, ap, -t, t)
    lens = S.R.comp.thick_lens(r1, r2, t, aperture=ap.arg, material=mat)
    check(S, lens, ap, p, [(-S.div(t, 2), SIGN[first], m1), (S.div(t, 2), SIGN[second], m2)], mat)


@contract("P24", LENS + ["pyrayt.components.biconvex_lens"], merge=True, budget=200, timeout=20000,
          cases=[dict(aperture=k, first=a, second=b) for k in KINDS for a in SIDES for b in SIDES])
def biconvex(S, aperture, first, second):
    """any sign of a radius means the same"""
    ghost_world(S)
    ap = Aperture(S, aperture)
    r1, m1 = radius(S, "r1", first, ap)
    r2, m2 = radius(S, "r2", second, ap)
    t = S.real("thickness", pos=True)
    mat = glass(S)
    p = where(S, ap, -t, t)
    lens = S.R.comp.biconvex_lens(r1, r2, t, aperture=ap.arg, material=mat)
    check(S, lens, ap, p, [(-S.div(t, 2), abs(SIGN[first]), m1), (S.div(t, 2), -abs(SIGN[second]), m2)], mat)


@contract("P24", LENS + ["pyrayt.components.plano_convex_lens"], merge=True, budget=200, timeout=20000,
          cases=[dict(aperture=k, curved=a) for k in KINDS for a in SIDES])
def plano_convex(S, aperture, curved):
    ghost_world(S)
    ap = Aperture(S, aperture)
    r, m = radius(S, "r", curved, ap)
    t = S.real("thickness", pos=True)
    mat = glass(S)
    p = where(S, ap, -t, t)
    lens = S.R.comp.plano_convex_lens(r, t, aperture=ap.arg, material=mat)
    check(S, lens, ap, p, [(-S.div(t, 2), 0, None), (S.div(t, 2), -abs(SIGN[curved]), m)], mat)
