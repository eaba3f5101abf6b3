"""P25: mirror builders produce the documented reflecting surface."""
from vc.engine import contract
from .common import *
from .parts import *
from .p15 import plain_boxes

MIRROR = ["pyrayt.components._mirror", "pyrayt.components._create_aperture"]
ASSUME = ["which points a primitive and a combination contain are the contracts of P06-P08, P12 and P13; that members follow their combination is P15's",
          "the surface spans the circle around the axis that encloses the aperture"]


def offset(S):
    """off-axis displacement: keyword arguments and its values"""
    if S.flag("on axis"):
        return {}, (S.const(0), S.const(0))
    a, b = S.real("off y"), S.real("off z")
    return dict(off_axis=S.pick("displacement as", (tuple, list))((a, b))), (a, b)


def mirror_material(S):
    """keyword arguments and the material meant"""
    if S.flag("default material"):
        return {}, S.R.matl.mirror
    m = S.R.matl._ReflectingMaterial()
    return dict(material=m), m


def place(S, ap, off, xlo, xhi):
    y, z = ap.point()
    return (S.real("x") if S.symbolic else S.real("x", lo=xlo, hi=xhi)), y + off[0], z + off[1]


def generic(S, pr, ap, y, z):
    pr.generic()
    for e in ap.edges(y, z):
        S.assume(S.ne(e, 0))


@contract("P25", MIRROR + ["pyrayt.components.plane_mirror"], merge=True, cases=[dict(aperture=k) for k in KINDS])
def plane(S, aperture):
    ghost_world(S)
    ap = Aperture(S, aperture)
    t = S.real("thickness", pos=True)
    kw, off = offset(S)
    mk, mat = mirror_material(S)
    x, y, z = p = place(S, ap, off, -2 * t, t)
    m = S.R.comp.plane_mirror(t, aperture=ap.arg, **kw, **mk)
    material_of(S, m, mat)
    pr = Probe(S, m, p)
    generic(S, pr, ap, y - off[0], z - off[1])
    S.assume(S.and_(S.ne(x, 0), S.ne(x, -t)))
    S.ensure("the aperture from x = -thickness to x = 0", S.iff(pr.contains(), S.and_(ap.contains(y - off[0], z - off[1]), S.lt(-t, x), S.lt(x, 0))))


@contract("P25", MIRROR + ["pyrayt.components.plane_mirror"], merge=True, cases=[dict(aperture=k) for k in KINDS])
def sheet(S, aperture):
    """a plane mirror of no thickness is its aperture in the yz-plane"""
    ghost_world(S)
    ap = Aperture(S, aperture)
    kw, off = offset(S)
    mk, mat = mirror_material(S)
    y, z = ap.point()
    for e in ap.edges(y, z):
        S.assume(S.ne(e, 0))
    p = (S.const(0) if S.flag("in the plane") else S.real("x", nonzero=True)), y + off[0], z + off[1]
    m = S.R.comp.plane_mirror(0, aperture=ap.arg, **kw, **mk)
    material_of(S, m, mat)
    want = S.and_(S.eq(p[0], 0), ap.contains(y, z))
    if S.symbolic:
        S.ensure("the aperture in the plane x = 0", S.iff(Probe(S, m, p).on_sheet(), want))
    else:
        crossing(S, m, p, want)


def reach(S, ap, off, bare=False):
    """radius of the circle around the axis that encloses the aperture: (l, dl) with l the displacement"""
    l = S.sqrt(off[0] * off[0] + off[1] * off[1])
    dl = S.sqrt(ap.h2) if ap.h is None else ap.h
    return l, dl


def far_enough(S, ap, off, y, z, l, dl):
    """a point of the aperture is no further from the axis than l + dl (triangle inequality, by Cauchy-Schwarz)"""
    u, v = y - off[0], z - off[1]
    S.lemma("within the circle around the aperture", S.lt(u * u + v * v, dl * dl))
    c = u * off[0] + v * off[1]
    w = u * off[1] - v * off[0]
    S.derive("Cauchy-Schwarz", (u * u + v * v) * (l * l) - c * c, ("sq", w))
    S.lemma("the product of the lengths", S.le(c * c, (l * dl) * (l * dl)))
    S.lemma("no further than both together", S.le(c, l * dl))
    S.lemma("the enclosing circle", S.lt(y * y + z * z, (l + dl) * (l + dl)))


def curved(S, m, ap, off, p, surface, back, curve_level, mat, sign, name):
    """the part lies between the back plane and the surface within the aperture; sign = side of the glass.. of the backing (-1: towards -x)"""
    x, y, z = p
    u, v = y - off[0], z - off[1]
    pr = Probe(S, m, p)
    generic(S, pr, ap, u, v)
    f = surface
    S.assume(S.and_(S.ne(x, f), S.ne(x, back)))
    lo, hi = (back, f) if sign < 0 else (f, back)
    S.ensure("%s: backed by the aperture from the back plane to the surface" % name, S.iff(pr.contains(), S.and_(S.lt(lo, x), S.lt(x, hi))))


def outside(S, m, ap, off, p):
    """decides and settles the case of a point beyond the aperture's rim"""
    x, y, z = p
    u, v = y - off[0], z - off[1]
    if S.is_(ap.contains(u, v)):
        return False
    pr = Probe(S, m, p)
    generic(S, pr, ap, u, v)
    S.ensure("nothing beyond the rim of the aperture", S.not_(pr.contains()))
    return True


def reflecting(S, m, mat, p, lo, hi, on, name):
    """at a point with its (y, z) in the aperture: the surface facing the light is the requested material's, any other one is absorbing.
    on(x) = the point lies on the documented curve, lo/hi = the documented extent along x"""
    surf = [o for _, o in m.surface_ids]
    good = [o for o in surf if o.material is mat]
    S.ensure("one surface carries the requested material, the others absorb",
             len(good) == 1 and all(o is good[0] or o.material is S.R.matl.absorber for o in surf))


SIDES = {"positive": 1, "negative": -1}


@contract("P25", MIRROR + ["pyrayt.components.spherical_mirror"], merge=True, budget=300, timeout=20000, cases=[dict(aperture=k, sign=s) for k in KINDS for s in SIDES])
def spherical(S, aperture, sign):
    ghost_world(S)
    sg = SIDES[sign]
    ap = Aperture(S, aperture)
    t = S.real("thickness", pos=True)
    kw, off = offset(S)
    mk, mat = mirror_material(S)
    l, dl = reach(S, ap, off)
    R = S.real("radius", pos=True)
    if not S.symbolic and "radius" not in S.values:
        R = R + float(l + dl)
        S.used["radius"] = R
    S.lemma("lengths", S.and_(S.le(0, l), S.lt(0, dl)))
    S.assume(S.lt(l + dl, R))
    S.lemma("the sphere reaches over the aperture", S.lt((l + dl) * (l + dl), R * R))
    x, y, z = p = place(S, ap, off, -2 * t - R / 2 if not S.symbolic else 0, 2 * t + R / 2 if not S.symbolic else 0)
    m = S.R.comp.spherical_mirror(sg * R, t, aperture=ap.arg, **kw, **mk)
    reflecting(S, m, mat, p, None, None, None, "spherical")
    if outside(S, m, ap, off, p):
        return
    far_enough(S, ap, off, y, z, l, dl)
    rho2 = y * y + z * z
    S.lemma("the sphere reaches over the point", S.lt(rho2, R * R))
    s = S.sqrt(R * R - rho2)
    S.lemma("height of the sphere", S.and_(S.lt(0, s), S.eq(s * s, R * R - rho2), S.le(s, R)))
    rim = S.sqrt(R * R - (l + dl) * (l + dl))
    S.lemma("no lower than at the rim", S.and_(S.lt(0, rim), S.eq(rim * rim, R * R - (l + dl) * (l + dl)), S.lt(rim, s)))
    f = sg * (R - s)
    c = x - sg * R
    S.lemma("inside the ball between its two sides", S.iff(S.lt(c * c + rho2, R * R), S.and_(S.lt(-s, c), S.lt(c, s))))
    curved(S, m, ap, off, p, f, -sg * t, None, mat, -sg, "spherical")
    # on the surface itself
    if S.symbolic:
        on_surface(S, m, mat, (f, y, z), ap, off)


def on_surface(S, m, mat, p, ap, off):
    """at a point of the documented curve within the open aperture: on the mirror's own surface, inside everything it is cut from"""
    pr = Probe(S, m, p)
    for o in leaves(m):
        lv = pr.lv[id(o)]
        if o.material is mat:
            S.ensure("the curve is the reflecting surface", S.and_(S.or_(*[S.eq(v, 0) for v in lv]), *[S.le(v, 0) for v in lv]))
        else:
            S.ensure("no absorbing surface on the curve", S.and_(*[S.lt(v, 0) for v in lv]))


@contract("P25", MIRROR + ["pyrayt.components.spherical_mirror"], merge=True, budget=300, timeout=20000, cases=[dict(aperture=k) for k in KINDS])
def spherical_flat(S, aperture):
    """an infinite radius is the plane x = 0"""
    ghost_world(S)
    ap = Aperture(S, aperture)
    t = S.real("thickness", pos=True)
    kw, off = offset(S)
    mk, mat = mirror_material(S)
    l, dl = reach(S, ap, off)
    S.lemma("lengths", S.and_(S.le(0, l), S.lt(0, dl)))
    x, y, z = p = place(S, ap, off, -2 * t if not S.symbolic else 0, 2 * t if not S.symbolic else 0)
    m = S.R.comp.spherical_mirror(S.inf, t, aperture=ap.arg, **kw, **mk)
    reflecting(S, m, mat, p, None, None, None, "flat")
    if outside(S, m, ap, off, p):
        return
    far_enough(S, ap, off, y, z, l, dl)
    for q in (y, z):
        S.lemma("coordinates within the enclosing circle", S.and_(S.le(q, l + dl), S.le(-l - dl, q)))
    curved(S, m, ap, off, p, S.const(0), -t, None, mat, -1, "flat")
    if S.symbolic:
        on_surface(S, m, mat, (S.const(0), y, z), ap, off)


@contract("P25", MIRROR + ["pyrayt.components.parabolic_mirror"], merge=True, budget=300, timeout=20000, cases=[dict(aperture=k) for k in KINDS])
def parabolic(S, aperture):
    ghost_world(S)
    ap = Aperture(S, aperture)
    t = S.real("thickness", pos=True)
    kw, off = offset(S)
    mk, mat = mirror_material(S)
    F = S.real("focus", pos=True)
    l, dl = reach(S, ap, off)
    S.lemma("lengths", S.and_(S.le(0, l), S.lt(0, dl)))
    m = S.R.comp.parabolic_mirror(F, t, aperture=ap.arg, **kw, **mk)
    y, z = ap.point()
    y, z = y + off[0], z + off[1]
    rho2 = y * y + z * z
    x = S.real("x") if S.symbolic else S.real("x", lo=-F - 2 * t, hi=rho2 / (4 * F) - F + t)
    p = x, y, z
    reflecting(S, m, mat, p, None, None, None, "parabolic")
    if outside(S, m, ap, off, p):
        return
    u, v = y - off[0], z - off[1]
    if aperture == "circle":
        far_enough(S, ap, off, y, z, l, dl)
    else:
        a0, b0 = S.abs_(off[0]), S.abs_(off[1])
        S.lemma("within the bounding rectangle", S.and_(S.lt(u, ap.a), S.lt(-ap.a, u), S.lt(v, ap.b), S.lt(-ap.b, v)))
        S.lemma("no further in y", S.lt(y * y, (a0 + ap.a) * (a0 + ap.a)))
        S.lemma("no further in z", S.lt(z * z, (b0 + ap.b) * (b0 + ap.b)))
    q = S.div(rho2, 4 * F)
    f = q - F
    S.lemma("inside the paraboloid in front of its surface", S.iff(S.lt(rho2 - 4 * F * (x + F), 0), S.lt(f, x)))
    curved(S, m, ap, off, p, f, -F - t, None, mat, -1, "parabolic")
    if S.symbolic:
        on_surface(S, m, mat, (f, y, z), ap, off)


@contract("P25", ["tinygfx.g3d.primitives.Paraboloid.normal", "tinygfx.g3d.world_objects.TracerSurface.get_world_normals", "pyrayt.materials._ReflectingMaterial.trace",
                  "pyrayt.components.parabolic_mirror"], merge=True, budget=120, timeout=20000)
def focusing(S):
    """a ray parallel to the axis that strikes the curved face leaves through the focus"""
    plain_boxes(S)
    F, a, t = S.real("focus", pos=True), S.real("aperture y", pos=True), S.real("thickness", pos=True)
    y, z = S.real("y"), S.real("z")
    rho2 = y * y + z * z
    S.gap(rho2)
    S.assume(S.lt(4 * rho2, a * a))
    m = S.R.comp.parabolic_mirror(F, t, aperture=a)
    face = [o for _, o in m.surface_ids if o.material is S.R.matl.mirror]
    S.ensure("one reflecting face", len(face) == 1)
    h = S.div(rho2, 4 * F)
    if S.symbolic:
        S.assume(S.lt(h * S.const("1.0001") + S.const("0.001"), S.div(3, 2) * S.div(a * a, 4 * F)))  # away from the rim of the paraboloid
    x = h - F
    rs = S.R.pyrayt.RaySet(1)
    rs.rays = S.array([[[x], [y], [z], [1]], [[-1 if S.flag("from the front") else 1], [0], [0], [0]]])
    S.root(rho2 + 4 * F * F)
    out = face[0].material.trace(face[0], rs)
    d = [c[0] for c in S.tolist(out.rays[1])]
    q = [c[0] for c in S.tolist(out.rays[0])]
    S.ensure("leaves from where it struck", veq(S, q, [x, y, z, 1]))
    S.ensure("along a line through the focus", veq(S, S.cross(q[:3], d[:3]), [0, 0, 0]))
    S.ensure("unit direction", S.eq(norm2(S, d), 1))


@contract("P25", [], sym=False, conc=40)
def traced(S):
    """mirrors traced end to end: off-axis parabolas focus, spheres reflect about their radius, other faces absorb"""
    np, C = S.np, S.R.comp
    ap = Aperture(S, S.pick("aperture", KINDS))
    kw, off = offset(S)
    off = np.array(off, dtype=float)
    mat = S.R.matl.mirror
    F = float(ap.a + ap.b + np.linalg.norm(off)) * (1 + S.rng.rand())
    kind = S.pick("kind", ["sphere", "negative sphere", "parabola", "flat", "plane"])
    t = .1 + S.rng.rand()
    m = {"sphere": lambda: C.spherical_mirror(2 * F, t, aperture=ap.arg, **kw), "negative sphere": lambda: C.spherical_mirror(-2 * F, t, aperture=ap.arg, **kw),
         "parabola": lambda: C.parabolic_mirror(F, t, aperture=ap.arg, **kw), "flat": lambda: C.spherical_mirror(np.inf, t, aperture=ap.arg, **kw),
         "plane": lambda: C.plane_mirror(t, aperture=ap.arg, **kw)}[kind]()
    n = 12
    y, z = S.rng.uniform(-.7, .7, n) * ap.a + off[0], S.rng.uniform(-.7, .7, n) * ap.b + off[1]
    rho2 = y ** 2 + z ** 2
    x = {"sphere": lambda: 2 * F - np.sqrt(4 * F * F - rho2), "negative sphere": lambda: -2 * F + np.sqrt(4 * F * F - rho2), "parabola": lambda: rho2 / (4 * F) - F}.get(kind, lambda: 0 * rho2)()
    side = -1 if kind == "negative sphere" else 1
    back = {"parabola": -F - t, "negative sphere": t}.get(kind, -t)
    for front in (True, False):
        rays = np.zeros((2, 4, n))
        rays[0, 0] = (9 * F + 2 * t) * side * (1 if front else -1)
        rays[0, 1], rays[0, 2], rays[0, 3] = y, z, 1
        rays[1, 0] = -side * (1 if front else -1)
        h, i = m.intersect(rays)
        lut = dict(m.surface_ids)
        for k in range(n):
            if not ap.contains(y[k] - off[0], z[k] - off[1]):
                continue
            f = np.where(h[:, k] > 0, h[:, k], np.inf)
            j = int(np.argmin(f))
            S.ensure("hit", np.isfinite(f[j]))
            px = rays[0, 0, k] + f[j] * rays[1, 0, k]
            S.ensure("the front hits the documented surface, the back the back plane", S.eq(px, x[k] if front else back))
            o = lut[i[j, k]]
            S.ensure("the front reflects, the back absorbs (a plane mirror reflects on both)", o.material is (mat if front or kind == "plane" else S.R.matl.absorber))
            if front and kind == "parabola":
                rs = S.R.pyrayt.RaySet(1)
                rs.rays[0, :, 0], rs.rays[1, :, 0] = (px, y[k], z[k], 1), rays[1, :, k]
                d = np.asarray(o.material.trace(o, rs).rays[1])[:3, 0]
                S.ensure("through the focus", np.linalg.norm(np.cross(np.array([px, y[k], z[k]]), d)) < 1e-5 * F)
    y, z = off[0] + 1.3 * ap.a * np.array([1, -1, 0, 0]), off[1] + 1.3 * ap.b * np.array([0, 0, 1, -1])
    rays = np.zeros((2, 4, 4))
    rays[0, 0], rays[0, 1], rays[0, 2], rays[0, 3], rays[1, 0] = -9 * F - 2 * t, y, z, 1, 1
    S.ensure("nothing beyond the rim", not np.any(np.isfinite(m.intersect(rays)[0])))
