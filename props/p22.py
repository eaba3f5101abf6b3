"""P22: deterministic sources emit the documented ray pattern."""
from vc.engine import contract
from .common import *
from .p09 import ok_axis

COVERS = ["pyrayt.components.Source.__init__", "pyrayt.components.Source.generate_rays", "pyrayt.components.Source.wavelength"]


stretch = [1]


def pattern(S, kind):
    """a source of that kind and its documented pattern: (i, n) -> local position, local unit direction"""
    C = S.R.comp
    w = S.real("wavelength", pos=True)
    pi = S.pi()
    stretch[0] = 1
    if kind == "line":
        s = S.real("spacing", nonneg=True)
        src = C.LineOfRays(s, w) if S.flag("positional") else C.LineOfRays(spacing=s, wavelength=w)

        def f(i, n, many): return [0, S.div(s * i, n - 1) - S.div(s, 2) if many else 0, 0, 1], [1, 0, 0, 0]
    elif kind == "circle":
        d = S.real("diameter", pos=True)
        src = C.CircleOfRays(d, w) if S.flag("positional") else C.CircleOfRays(diameter=d, wavelength=w)

        def f(i, n, many):
            t = S.div(2 * pi * i, n)
            return [0, S.div(d, 2) * S.sin(t), S.div(d, 2) * S.cos(t), 1], [1, 0, 0, 0]
    elif kind == "cone":
        a = S.real("angle", lo=0, hi=90, strict=True)
        src = C.ConeOfRays(a, w) if S.flag("positional") else C.ConeOfRays(cone_angle=a, wavelength=w)

        def f(i, n, many):
            if not many:
                c = S.cos(S.div(a * pi, 180))
                S.assume(S.lt(0, c))
                S.root(c * stretch[0])
                return [0, 0, 0, 1], [1, 0, 0, 0]      # a single ray goes along the axis
            t, al = S.div(2 * pi * i, n), S.div(a * pi, 180)
            return [0, 0, 0, 1], [S.cos(al), S.sin(al) * S.sin(t), S.sin(al) * S.cos(t), 0]
    else:
        a = S.real("angle", lo=0, hi=360)
        src = C.WedgeOfRays(a, w) if S.flag("positional") else C.WedgeOfRays(angle=a, wavelength=w)

        def f(i, n, many):
            al = S.div(a * pi, 180)
            t = S.div(al * i, n - 1) - S.div(al, 2) if many else S.div(0 - al, 2)
            return [0, 0, 0, 1], [S.cos(t), S.sin(t), 0, 0]
    return src, f, w


KINDS = ["line", "circle", "cone", "wedge"]
CLS = dict(line="LineOfRays", circle="CircleOfRays", cone="ConeOfRays", wedge="WedgeOfRays")


def many_rays(S, N, single):
    """one ray or more than one"""
    if single:
        return 1, False
    if S.symbolic:
        S.assume(S.le(2, S.count(N)))
        return N, True
    return N + 1, True


def common_fields(S, n, rs, w):
    S.ensure("one ray set of that many rays", S.shape_ok(rs, (13, n)) and isinstance(rs, S.R.pyrayt.RaySet))
    for wl, ix, g, it in S.lanes(n, rs.wavelength, rs.index, rs.generation, rs.intensity):
        S.ensure("the source's wavelength, index 1, generation 0, full intensity", S.and_(S.eq(wl, w), S.eq(ix, 1), S.eq(g, 0), S.eq(it, 100)))
    if not S.symbolic:
        S.ensure("distinct ids", len(set(rs.id.tolist())) == n)
    else:
        for i, j in zip(S.lane_index(n) if not isinstance(n, int) else range(n), S.lanes(n, rs.id)):
            S.ensure("ids count the rays", S.eq(i, j))


def lanes_of(S, n):
    return S.lane_index(n) if not isinstance(n, int) or not S.symbolic else range(n)


def nondegenerate(S, n, many, f, M):
    """an invertible pose maps a unit direction to a nonzero vector"""
    for i in lanes_of(S, n):
        lp, ld = f(i, S.count(n) if not isinstance(n, int) else n, many)
        S.assume(S.lt(0, norm2(S, S.tolist(S.np.matmul(M, S.array(ld))))))


def carried(S, n, many, rs, f, M):
    pos, dr = S.np.array(rs.rays[0]), S.np.array(rs.rays[1])
    for i, p, d in zip(lanes_of(S, n), S.lanes(n, pos), S.lanes(n, dr)):
        lp, ld = f(i, S.count(n) if not isinstance(n, int) else n, many)
        wp, wd = S.tolist(S.np.matmul(M, S.array(lp))), S.tolist(S.np.matmul(M, S.array(ld)))
        S.ensure("starts at its place in the pattern, carried by the pose", veq(S, p, wp))
        l = S.sqrt(norm2(S, wd))
        S.ensure("a unit direction", S.eq(norm2(S, d), 1))
        S.ensure("points along the pattern's direction, carried by the pose", S.and_(*[S.eq(a * l, b) for a, b in zip(d, wd)]))


@contract("P22", COVERS, merge=True, cases=[dict(kind=k, single=s) for k in KINDS for s in (False, True)], budget=60)
def emits(S, kind, single):
    N = S.N()
    n, many = many_rays(S, N, single)
    src, f, w = pattern(S, kind)
    M = S.np.identity(4)
    if S.flag("moved"):
        M = S.matrix("M")
        ok_axis(S, M)
        nondegenerate(S, n, many, f, M)
        stretch[0] = S.sqrt(norm2(S, S.tolist(S.np.matmul(M, S.array([1, 0, 0, 0])))))
        src.transform(M)
    if S.flag("tuned"):
        w = S.real("new wavelength", pos=True)
        src.wavelength = w
    if not many:
        f(0, 1, many)
    S.ensure("the wavelength reads back", S.eq(src.wavelength, w))
    if S.flag("asked before"):
        first = src.generate_rays(n)
        first.rays[0] += 1
        first.wavelength = 9
    rs = src.generate_rays(n)
    common_fields(S, n, rs, w)
    carried(S, n, many, rs, f, M)
    S.ensure("the source stays where it is", S.same_array(src.get_world_transform(), M))


@contract("P22", [], sym=False, conc=80)
def at_large(S):
    """many rays after a history of moves, judged by the geometry alone"""
    np = S.np
    kind = S.pick("kind", KINDS)
    a = float(S.rng.choice([1, 10., 30., 45, 89., 90, 120., 180.])) if kind in ("cone", "wedge") else float(S.rng.choice([.5, 1, 2, 7.]))
    src = getattr(S.R.comp, CLS[kind])(a)
    M = np.eye(4)
    for _ in range(S.choice("ops", 4)):
        name, op, A = pick_op(S)
        op(src)
        M = A @ M
        if np.linalg.cond(M) > 1e3:
            S.assume(False)
    n = 2 + S.choice("n", 200)
    if S.flag("asked before"):
        src.generate_rays(n - 1)
    rs = src.generate_rays(n)
    p, d = np.linalg.inv(M) @ np.asarray(rs.rays[0]), np.linalg.inv(M) @ np.asarray(rs.rays[1])
    S.ensure("unit", np.allclose(np.linalg.norm(np.asarray(rs.rays[1]), axis=0), 1))
    S.ensure("points and vectors", np.allclose(p[3], 1) and np.allclose(d[3], 0))
    d = d / np.linalg.norm(d, axis=0)
    if kind in ("line", "circle"):
        S.ensure("parallel to the axis", np.allclose(d.T, [1, 0, 0, 0], atol=1e-6))
    if kind == "line":
        y = np.sort(p[1])
        S.ensure("along y", np.allclose(p[0], 0, atol=1e-6) and np.allclose(p[2], 0, atol=1e-6))
        S.ensure("evenly over the width", np.allclose(y, -a / 2 + a * np.arange(n) / (n - 1), atol=1e-6))
    elif kind == "circle":
        t = np.sort(np.arctan2(p[2], p[1]))
        S.ensure("on the circle", np.allclose(np.hypot(p[1], p[2]), a / 2) and np.allclose(p[0], 0, atol=1e-6))
        S.ensure("evenly spaced", np.allclose(np.diff(np.append(t, t[0] + 2 * np.pi)), 2 * np.pi / n, atol=1e-6))
    else:
        S.ensure("from the origin", np.allclose(p.T, [0, 0, 0, 1], atol=1e-6))
    if kind == "cone":
        S.ensure("at the cone angle", np.allclose(d[0], np.cos(np.radians(a)), atol=1e-6))
        if abs(np.sin(np.radians(a))) > 1e-3:
            t = np.sort(np.arctan2(d[2], d[1]))
            S.ensure("evenly spaced", np.allclose(np.diff(np.append(t, t[0] + 2 * np.pi)), 2 * np.pi / n, atol=1e-5))
    elif kind == "wedge":
        t = np.sort(np.arctan2(d[1], d[0]))
        S.ensure("in the plane", np.allclose(d[2], 0, atol=1e-6))
        S.ensure("evenly over the wedge", a > 179 or np.allclose(t, np.radians(-a / 2 + a * np.arange(n) / (n - 1)), atol=1e-6))
    S.ensure("fields", np.allclose(rs.index, 1) and np.allclose(rs.generation, 0) and np.allclose(rs.intensity, 100) and np.allclose(rs.wavelength, .633) and len(set(rs.id.tolist())) == n)
