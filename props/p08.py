"""P08: primitive normals are unit, outward and perpendicular to the surface."""
from vc.engine import contract
from .common import *

ASSUME = ["points on a wall or face keep a distance of 1e-4*(1+|h|) from the planes of neighbouring caps or faces (the code decides which face a point is on with a tolerance of 1e-8+1e-5*|h|)"]


def far(S, x, h):
    """x differs from h by more than the code's tolerance"""
    tol = S.const("0.0001") * (1 + S.abs_(h))
    S.assume(S.or_(S.lt(tol, x - h), S.lt(x - h, -tol)))


def check(S, prim, p, N, expected, name):
    """normal(batch) and normal(single point) are the expected unit normals; inputs keep their values"""
    p0 = S.np.array(p)
    n = prim.normal(p)
    S.ensure("points are not modified", S.same_array(p, p0))
    S.ensure("one 4-vector per point", S.shape_ok(n, (4,) if N is None else (4, N)))
    for pt, nn in (S.lanes(N, p0, n) if N is not None else [(S.tolist(p0), S.tolist(n))]):
        e = expected(pt)
        S.ensure("%s: the outward unit normal" % name, veq(S, nn[:3], e))
        S.ensure("%s: a vector" % name, S.eq(nn[3], 0))
        S.ensure("%s: unit length" % name, S.eq(norm2(S, nn), 1))


def both(S):
    return S.N() if S.flag("batch") else None


def surface_point(S, N, x, y, z):
    p = S.np.ones((4,) if N is None else (4, N))
    p[0], p[1], p[2] = x, y, z
    return p


def circle(S, N, name):
    """a point of the unit circle"""
    th = S.arr(name, (), N) if N is not None else S.real(name)
    return S.np.cos(th), S.np.sin(th)


def each(S, N, *xs):
    if N is not None:
        return S.lanes(N, *[S.array(x) for x in xs])
    ys = tuple(S.entries(S.array(x))[0] for x in xs)
    return [ys if len(ys) > 1 else ys[0]]


@contract("P08", ["tinygfx.g3d.primitives.Sphere.normal"])
def sphere(S):
    r = S.real("radius", pos=True)
    N = both(S)
    u = S.unit("u", N)
    p = r * u
    p[3] = 1
    check(S, S.R.prim.Sphere(r), p, N, lambda q: [S.div(q[i], r) for i in range(3)], "sphere")


@contract("P08", ["tinygfx.g3d.primitives.Cylinder.normal"])
def cylinder_wall(S):
    r, lo, size = S.real("radius", pos=True), S.real("zmin"), S.real("height", pos=True)
    hi = lo + size
    capped = S.flag("capped")
    N = both(S)
    c, s = circle(S, N, "phi")
    z = lo + size * S.arr("z", (), N, lo=0, hi=1, strict=True)
    for zz in each(S, N, z):
        far(S, zz, lo)
        far(S, zz, hi)
    p = surface_point(S, N, r * c, r * s, z)
    check(S, S.R.prim.Cylinder(r, lo, hi, capped), p, N, lambda q: [S.div(q[0], r), S.div(q[1], r), 0], "cylinder wall")


@contract("P08", ["tinygfx.g3d.primitives.Cylinder.normal"], cases=[dict(top=True), dict(top=False)])
def cylinder_cap(S, top):
    r, lo, size = S.real("radius", pos=True), S.real("zmin"), S.real("height", pos=True)
    hi = lo + size
    far(S, hi, lo)
    far(S, lo, hi)
    N = both(S)
    x, y = S.arr("x", (), N), S.arr("y", (), N)
    for a, b in each(S, N, x, y):
        S.assume(S.le(a * a + b * b, r * r))
    p = surface_point(S, N, x, y, hi if top else lo)
    check(S, S.R.prim.Cylinder(r, lo, hi), p, N, lambda q: [0, 0, 1 if top else -1], "cylinder cap")


@contract("P08", ["tinygfx.g3d.primitives.Paraboloid.normal"])
def paraboloid_wall(S):
    f, h = S.real("focus", pos=True), S.real("height", pos=True)
    N = both(S)
    x, y = S.arr("x", (), N), S.arr("y", (), N)
    z = (x * x + y * y) / (4 * f)
    for zz in each(S, N, z):
        S.assume(S.lt(zz, h))
        far(S, zz, h)
    p = surface_point(S, N, x, y, z)

    def expected(q):
        l = S.sqrt(q[0] * q[0] + q[1] * q[1] + 4 * f * f)
        return [S.div(q[0], l), S.div(q[1], l), S.div(-2 * f, l)]
    check(S, S.R.prim.Paraboloid(f, h), p, N, expected, "paraboloid")


@contract("P08", ["tinygfx.g3d.primitives.Paraboloid.normal"])
def paraboloid_cap(S):
    f, h = S.real("focus", pos=True), S.real("height", pos=True)
    N = both(S)
    x, y = S.arr("x", (), N), S.arr("y", (), N)
    for a, b in each(S, N, x, y):
        S.assume(S.le(a * a + b * b, 4 * f * h))
    p = surface_point(S, N, x, y, h)
    check(S, S.R.prim.Paraboloid(f, h), p, N, lambda q: [0, 0, 1], "paraboloid cap")


@contract("P08", ["tinygfx.g3d.primitives.Cube.normal", "tinygfx.g3d.primitives.Cube.__init__"], cases=[dict(axis=i, upper=u) for i in range(3) for u in (False, True)])
def cuboid_face(S, axis, upper):
    lo = [S.real("lo%d" % i) for i in range(3)]
    size = [S.real("size%d" % i, pos=True) for i in range(3)]
    hi = [l + s for l, s in zip(lo, size)]
    far(S, hi[axis], lo[axis])
    far(S, lo[axis], hi[axis])
    N = both(S)
    xs = [lo[i] + size[i] * S.arr("x%d" % i, (), N, lo=0, hi=1, strict=True) for i in range(3)]
    for t in each(S, N, *xs):
        for i in range(3):
            if i != axis:
                far(S, t[i], lo[i])
                far(S, t[i], hi[i])
    xs[axis] = hi[axis] if upper else lo[axis]
    p = surface_point(S, N, *xs)
    check(S, S.R.prim.Cube(tuple(lo), tuple(hi)), p, N, lambda q: [(1 if upper else -1) if i == axis else 0 for i in range(3)], "cuboid face")


@contract("P08", ["tinygfx.g3d.primitives.Cube.normal"], cases=[dict(k=2), dict(k=3)])
def cuboid_edges(S, k):
    """on an edge or corner of the cuboid: a unit vector between the normals of the faces that meet there"""
    lo = [S.real("lo%d" % i) for i in range(3)]
    size = [S.real("size%d" % i, pos=True) for i in range(3)]
    hi = [l + s for l, s in zip(lo, size)]
    N = S.N()
    free = S.choice("free axis", 3) if k == 2 else None
    xs, e = [], []
    for i in range(3):
        if i == free:
            x = lo[i] + size[i] * S.arr("x%d" % i, (), N, lo=0, hi=1, strict=True)
            for t in each(S, N, x):
                far(S, t, lo[i])
                far(S, t, hi[i])
            xs.append(x)
            e.append(0)
        else:
            far(S, hi[i], lo[i])
            far(S, lo[i], hi[i])
            up = S.flag("upper")
            xs.append(hi[i] if up else lo[i])
            e.append(S.div(1 if up else -1, S.sqrt(k)))
    p = surface_point(S, N, *xs)
    check(S, S.R.prim.Cube(tuple(lo), tuple(hi)), p, N, lambda q: e, "cuboid edge")


@contract("P08", ["tinygfx.g3d.primitives.Plane.normal"])
def plane(S):
    N = both(S)
    p = surface_point(S, N, S.arr("x", (), N), S.arr("y", (), N), 0)
    check(S, S.R.prim.Plane(S.real("width", pos=True), S.real("length", pos=True)), p, N, lambda q: [0, 0, 1], "plane")
