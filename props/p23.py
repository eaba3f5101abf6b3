"""P23: lamps emit within their area and cone, static lamps identically."""
from vc.engine import contract
from .common import *
from .p09 import ok_axis
from .p22 import common_fields

COVERS = ["pyrayt.components.Lamp.__init__", "pyrayt.components.Lamp._local_ray_generation", "pyrayt.components._sphere_sample", "pyrayt.components.Source.generate_rays",
          "pyrayt.components.StaticLamp.__init__", "pyrayt.components.StaticLamp._local_ray_generation"]


def lamp(S, kind):
    w, l = S.real("width", pos=True), S.real("length", pos=True)
    a = S.real("max angle", lo=0, hi=90, strict=True)
    wl = S.real("wavelength", pos=True)
    cls = getattr(S.R.comp, kind)
    how = S.pick("arguments", ["keywords", "positional", "defaults"])
    if how == "keywords":
        o = cls(width=w, length=l, max_angle=a, wavelength=wl)
    elif how == "positional":
        o = cls(w, l, a, wl)
    else:
        o, a, wl = cls(w, l), 90, S.const("0.633")
    if how != "defaults":
        # what the cosine is like between 0 and 90 degrees
        c = S.cos(S.div(a * S.pi(), 180))
        S.assume(S.and_(S.le(0, c), S.lt(c, 1)))
    return o, w, l, a, wl


def local(S, n, rs, M):
    """the rays seen from the lamp: positions and (not normalised) directions"""
    K = S.np.linalg.inv(M)
    return S.np.matmul(K, S.np.array(rs.rays[0])), S.np.matmul(K, S.np.array(rs.rays[1]))


def emitted(S, n, rs, w, l, a):
    """for a lamp in its starting pose"""
    ca = S.cos(S.div(a * S.pi(), 180))
    for p, d, it in S.lanes(n, S.np.array(rs.rays[0]), S.np.array(rs.rays[1]), rs.intensity):
        S.ensure("starts in the plane of the lamp", S.and_(S.eq(p[0], 0), S.eq(p[3], 1)))
        S.ensure("within its width", S.and_(S.le(-w, 2 * p[1]), S.le(2 * p[1], w)))
        S.ensure("within its length", S.and_(S.le(-l, 2 * p[2]), S.le(2 * p[2], l)))
        S.ensure("unit direction", S.and_(S.eq(norm2(S, d), 1), S.eq(d[3], 0)))
        S.ensure("at most the maximum angle off the axis", S.le(ca, d[0]))
        S.ensure("lambertian intensity", S.eq(it, 100 * d[0]))


@contract("P23", COVERS, merge=True, cases=[dict(kind=k) for k in ("Lamp", "StaticLamp")], budget=60)
def emits(S, kind):
    N = S.N()
    o, w, l, a, wl = lamp(S, kind)
    if S.flag("tuned"):
        wl = S.real("new wavelength", pos=True)
        o.wavelength = wl
    rs = o.generate_rays(N)
    S.ensure("one ray set of that many rays", S.shape_ok(rs, (13, N)) and isinstance(rs, S.R.pyrayt.RaySet))
    for v, ix, g in S.lanes(N, rs.wavelength, rs.index, rs.generation):
        S.ensure("the lamp's wavelength, index 1, generation 0", S.and_(S.eq(v, wl), S.eq(ix, 1), S.eq(g, 0)))
    emitted(S, N, rs, w, l, a)


def placed(S, o, tag="M"):
    M = S.matrix(tag)
    ok_axis(S, M)
    o.transform(M)
    return M


def twin(S, o, kind, w, l, a, wl): return getattr(S.R.comp, kind)(w, l, a, wl)


def nonzero(S, N, M, rs):
    """an invertible pose maps a unit direction to a nonzero vector"""
    for v in S.lanes(N, S.np.matmul(M, S.np.array(rs.rays[1]))):
        S.assume(S.lt(0, norm2(S, v)))


def same_in(S, N, rs, ref, M, w):
    """rs is the pattern ref in the pose M"""
    want_p, want_d = S.np.matmul(M, S.np.array(ref.rays[0])), S.np.matmul(M, S.np.array(ref.rays[1]))
    for p, d, it, ix, g, v, wp, wd, it0 in S.lanes(N, S.np.array(rs.rays[0]), S.np.array(rs.rays[1]), rs.intensity, rs.index, rs.generation, rs.wavelength, want_p, want_d, ref.intensity):
        S.ensure("starts at its place, carried by the pose", veq(S, p, wp))
        S.ensure("unit direction", S.eq(norm2(S, d), 1))
        L = S.sqrt(norm2(S, wd))
        S.ensure("along its direction, carried by the pose", veq(S, [x * L for x in d], wd))
        S.ensure("intensity does not depend on the pose", S.eq(it, it0))
        S.ensure("the lamp's current wavelength, index 1, generation 0", S.and_(S.eq(v, w), S.eq(ix, 1), S.eq(g, 0)))


@contract("P23", COVERS, merge=True, cases=[dict(kind=k) for k in ("Lamp", "StaticLamp")], budget=60)
def emits_in_place(S, kind):
    """the same random numbers give the same pattern in every pose"""
    N = S.N()
    o, w, l, a, wl = lamp(S, kind)
    moved = getattr(S.R.comp, kind)(w, l, a, wl)
    M = S.matrix("M")
    ok_axis(S, M)
    moved.transform(M)

    def here():
        rs = o.generate_rays(N)
        nonzero(S, N, M, rs)
        return rs
    ref, rs = S.same_chance(here, lambda: moved.generate_rays(N))
    same_in(S, N, rs, ref, M, wl)


@contract("P23", COVERS, merge=True, budget=60)
def static(S):
    """a static lamp repeats its pattern for the same count, at its current pose and wavelength, whatever was done to earlier sets"""
    N = S.N()
    o, w, l, a, wl = lamp(S, "StaticLamp")
    first = o.generate_rays(N)
    ref = first.copy()
    M = S.np.identity(4)
    for step in range(2):
        what = S.pick("between", ["nothing", "moved", "tuned", "set changed", "another lamp"] + (["other count"] if step == 0 else []))
        if what == "moved":
            A = S.matrix("M%d" % step)
            M = S.np.matmul(A, M)
            ok_axis(S, M)
            o.transform(A)
        elif what == "tuned":
            wl = S.real("new wavelength%d" % step, pos=True)
            o.wavelength = wl
        elif what == "set changed":
            first.rays[0] += 1
            first.rays[1] = 0
            first.intensity *= 0
            first.wavelength = 7
            first.id = 3
        elif what == "another lamp":
            x = S.R.comp.StaticLamp(S.real("its width", pos=True), S.real("its length", pos=True), a, wl)
            x.generate_rays(N)
        elif what == "other count":
            o.generate_rays(S.N("k"))
            if not S.symbolic:
                for k in range(int(S.rng.choice([0, 6, 40, 300]))):
                    o.generate_rays(N + 1 + k)
    nonzero(S, N, M, ref)
    rs = o.generate_rays(N)
    same_in(S, N, rs, ref, M, wl)
    S.ensure("ids", S.same_array(rs.id, ref.id))
    S.ensure("the pose is untouched", S.same_array(o.get_world_transform(), M))


@contract("P23", [], sym=False, conc=60)
def at_large(S):
    """many rays after a history of moves; static lamps against their own first answer"""
    np = S.np
    kind = S.pick("kind", ["Lamp", "StaticLamp"])
    w, l, a = float(S.rng.choice([.5, 1, 3])), float(S.rng.choice([.5, 2])), float(S.rng.choice([5, 30, 60, 89, 90]))
    o = getattr(S.R.comp, kind)(w, l, a)
    M = np.eye(4)
    base = {}
    for step in range(1 + S.choice("steps", 4)):
        for _ in range(S.choice("ops", 3)):
            name, op, A = pick_op(S)
            op(o)
            M = A @ M
            if np.linalg.cond(M) > 1e3:
                S.assume(False)
        n = int(S.rng.choice([1, 2, 50, 400]))
        rs = o.generate_rays(n)
        p, d = np.linalg.inv(M) @ np.asarray(rs.rays[0]), np.linalg.inv(M) @ np.asarray(rs.rays[1])
        d /= np.linalg.norm(d, axis=0)
        S.ensure("unit", np.allclose(np.linalg.norm(np.asarray(rs.rays[1]), axis=0), 1))
        S.ensure("the area", np.all(np.abs(p[1]) <= w / 2 + 1e-6) and np.all(np.abs(p[2]) <= l / 2 + 1e-6) and np.allclose(p[0], 0, atol=1e-6))
        S.ensure("the cone", np.all(d[0] >= np.cos(np.radians(a)) - 1e-6))
        S.ensure("the intensity", np.allclose(rs.intensity, 100 * d[0], atol=1e-4))
        if n == 400:
            S.ensure("fills the area and the cone", np.ptp(p[1]) > .8 * w and np.ptp(p[2]) > .8 * l and np.min(d[0]) < 1 - .6 * (1 - np.cos(np.radians(a)))
                     and np.min(d[1]) < 0 < np.max(d[1]) and np.min(d[2]) < 0 < np.max(d[2]))
        if kind == "StaticLamp":
            if n in base:
                S.ensure("the same local pattern", np.allclose(base[n][0], p, atol=1e-6) and np.allclose(base[n][1], d, atol=1e-6))
            base[n] = (p, d)
            rs[:] = 5
