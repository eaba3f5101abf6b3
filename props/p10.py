"""P10: surfaces and their normals follow the object's transform."""
from vc.engine import contract
from .common import *
from .p09 import ok_axis

TRUST = ["the primitive's own contract (P06, P07, P08) stands in for the primitive: the surface is checked against any primitive"]
W_COVERS = ["tinygfx.g3d.world_objects.TracerSurface.intersect", "tinygfx.g3d.world_objects.TracerSurface.get_world_normals",
            "tinygfx.g3d.world_objects.TracerSurface.__init__", "tinygfx.g3d.world_objects.WorldObject.to_object_coordinates",
            "tinygfx.g3d.world_objects.Intersectable.invert_normals", "tinygfx.g3d.world_objects.Intersectable.reset_normals"]


def stub_surface(S, hits=None, normals=None):
    """a TracerSurface over a primitive of which only the contract is known"""
    np = S.np

    class Prim:
        def __init__(self):
            self.bounding_points = np.ones((4, 2))
            self.bounding_points[:3, 0] = 0
            self.rays, self.points = [], []

        def intersect(self, rays):
            self.rays.append(np.array(rays))
            return hits.copy()

        def normal(self, points):
            self.points.append(np.array(points))
            return normals.copy()

    class Surface(S.R.world.TracerSurface):
        surface = Prim

    return Surface(surface_args=())


@contract("P10", W_COVERS, merge=True)
def hits(S):
    N = S.N()
    kind = S.pick("hits", ["finite", "miss", "half"])
    h = S.arr("h", (2,), N)
    if kind == "miss":
        h[:] = S.inf
    elif kind == "half":
        h[0] = -S.inf if S.flag("from infinity") else S.inf
    o = stub_surface(S, hits=h)
    M = S.matrix("M")
    ok_axis(S, M)
    o.transform(M)
    rays = S.rays("ray", N)
    r0 = S.np.array(rays)
    d, ids = o.intersect(rays)
    S.ensure("distances and ids per ray", S.shape_ok(d, (2, N)) and S.shape_ok(ids, (2, N)))
    S.ensure("rays are not modified", S.same_array(rays, r0))
    prim = o.primitive
    S.ensure("the primitive was asked", len(prim.rays) >= 1)
    for local in prim.rays:
        S.ensure("the primitive sees the rays in object coordinates", S.same_array(local, S.np.matmul(S.np.linalg.inv(M), r0)))
    for hh, (a, b), i in S.lanes(N, h, d, ids):
        if S.is_(S.le(hh[0], hh[1])):
            S.ensure("distances are the primitive's, ascending", S.and_(S.le(a, b), S.eq(a, hh[0]), S.eq(b, hh[1])))
        else:
            S.ensure("distances are the primitive's, ascending", S.and_(S.le(a, b), S.eq(a, hh[1]), S.eq(b, hh[0])))
        S.ensure("labelled with the surface's id", S.and_(S.eq(i[0], o.get_id()), S.eq(i[1], o.get_id())))


def pull_back(S, M, n, N=None):
    """the local normals as functionals on world directions: u -> n.(M^-1 u); never the zero functional as M is invertible"""
    K = S.np.linalg.inv(M)
    g = S.np.matmul(S.np.transpose(K), n)
    for q in (S.lanes(N, g) if N is not None else [S.tolist(g)]):
        S.assume(S.lt(0, norm2(S, q)))
    return K


def follows(S, K, w, n, u, ku, sg):
    """world normal w and local normal n give every direction u (ku in object space) the same side; `u2` shows the factor is common"""
    x, a = S.dot(w[:3], u[:3]), S.dot(n[:3], ku[:3])
    S.ensure("unit length", S.eq(norm2(S, w), 1))
    S.ensure("a vector", S.eq(w[3], 0))
    k = S.tolist(K)
    l = S.sqrt(S.dot(*[[S.dot([k[r][c] for r in range(3)], n[:3]) for c in range(3)]] * 2))
    S.ensure("every direction keeps its side of the surface, the opposite one while inverted", S.eq(x * l, sg * a))


@contract("P10", W_COVERS, merge=True)
def normals(S):
    N = S.N()
    n = S.unit("n", N)
    o = stub_surface(S, normals=n)
    M = S.matrix("M")
    ok_axis(S, M)
    o.transform(M)
    K = pull_back(S, M, n, N)
    k = S.choice("inversions", 4)
    for _ in range(k):
        o.invert_normals()
    if S.flag("reset"):
        o.reset_normals()
        k = 0
    p = S.point("p", N)
    p0 = S.np.array(p)
    w = o.get_world_normals(p)
    S.ensure("one 4-vector per point", S.shape_ok(w, (4, N)))
    S.ensure("points are not modified", S.same_array(p, p0))
    for local in o.primitive.points:
        S.ensure("the primitive sees the points in object coordinates", S.same_array(local, S.np.matmul(S.np.linalg.inv(M), p0)))
    u = S.vector("u", N)
    for wn, ln, uu, ku in S.lanes(N, w, n, u, S.np.matmul(K, u)):
        follows(S, K, wn, ln, uu, ku, -1 if k % 2 else 1)


@contract("P10", W_COVERS, merge=True)
def single_point(S):
    """the normal at one point alone"""
    n = S.unit("n")
    o = stub_surface(S, normals=n)
    M = S.matrix("M")
    ok_axis(S, M)
    o.transform(M)
    K = pull_back(S, M, n)
    p = S.point("p")
    w = o.get_world_normals(p)
    S.ensure("a 4-vector", S.shape_ok(w, (4,)))
    u = S.vector("u")
    follows(S, K, S.tolist(w), S.tolist(n), S.tolist(u), S.tolist(S.np.matmul(K, u)), 1)


SHAPES = {
    "Sphere": (lambda S: (S.real("radius", pos=True),), lambda S, a, p: S.dot(p[:3], p[:3]) - a[0] * a[0]),
    "Cylinder": (lambda S: (lambda lo: (S.real("radius", pos=True), lo, lo + S.real("len", pos=True)))(S.real("lo")),
                 lambda S, a, p: S.max_(p[0] * p[0] + p[1] * p[1] - a[0] * a[0], a[1] - p[2], p[2] - a[2])),
    "Paraboloid": (lambda S: (S.real("focus", pos=True), S.real("height", pos=True)), lambda S, a, p: S.max_(p[0] * p[0] + p[1] * p[1] - 4 * a[0] * p[2], p[2] - a[1])),
    "Cuboid": (lambda S: tuple(zip(*[(lambda lo: (lo, lo + S.real("size%d" % i, pos=True)))(S.real("lo%d" % i)) for i in range(3)])),
               lambda S, a, p: S.max_(*[S.max_(a[0][i] - p[i], p[i] - a[1][i]) for i in range(3)])),
}


@contract("P10", [], sym=False, cases=[dict(shape=s) for s in sorted(SHAPES)], conc=120)
def shapes(S, shape):
    """the library's own shapes in world space, end to end: hits bound the inside, normals point out"""
    mk, f = SHAPES[shape]
    a = mk(S)
    o = getattr(S.R.world, shape)(*a)
    M = S.matrix("M")
    o.transform(M)
    if S.flag("moved again"):
        name, op, A = pick_op(S)
        W = S.np.matmul(A, M)
        op(o)
    else:
        W = M
    if S.np.linalg.cond(W) > 1e3:
        S.assume(False)
    N = S.N()
    rays = S.rays("ray", N)
    inv = S.np.linalg.inv(W)
    # aim some rays at the shape
    if S.flag("aimed"):
        q = S.np.matmul(W, S.point("target", N))
        rays[1] = q - rays[0]
    h, ids = o.intersect(rays)
    for (x, y), ry in S.lanes(N, h, rays):
        ry = S.np.array(ry)

        def at(t): return S.np.matmul(inv, ry[0] + t * ry[1])

        def inside(t): return f(S, a, at(t))
        ts = S.rng.uniform(-6, 6, 25)
        fin = S.finite(x) and S.finite(y)
        tol = 1e-6 * (1 + float(S.np.abs(inv).max()) * (1 + float(S.np.abs(ry).max())) * 10) ** 2
        for t in list(ts) + ([x + (y - x) * k / 7 for k in range(1, 7)] + [x - .01 - .1 * k for k in range(3)] + [y + .01 + .1 * k for k in range(3)] if fin else []):
            v = inside(t)
            if abs(v) < tol:
                continue
            S.ensure("inside exactly between the hits", (v < 0) == (fin and x < t < y))
        if fin and y - x > 1e-3:
            for t in (x, y):
                p = ry[0] + t * ry[1]
                n = o.get_world_normals(p[:, None])[:, 0]
                n1 = o.get_world_normals(p)
                S.ensure("single point and batch agree", S.same_array(n, n1))
                S.ensure("unit", S.eq(norm2(S, n), 1))
                # a little along the normal is outside, a little against it is inside
                e = 1e-4
                vals = [f(S, a, S.np.matmul(inv, p + s * e * n)) for s in (1, -1)]
                if all(abs(v) > 1e-7 for v in vals):
                    S.ensure("the normal points out", vals[0] > 0 or vals[1] < 0)
                    # away from edges both hold
                    S.ensure("sides", vals[0] > vals[1])


@contract("P10", [], sym=False, cases=[dict(shape=s) for s in sorted(SHAPES)], conc=8)
def big_batches(S, shape):
    """thousands of rays and points on a placed shape, against few at a time"""
    np = S.np
    o = getattr(S.R.world, shape)(*SHAPES[shape][0](S))
    o.rotate_x(S.rng.uniform(0, 360)).rotate_z(S.rng.uniform(0, 360)).move(*S.rng.uniform(-30, 30, 3))
    n = S.pick("rays", [130, 300, 1100, 5000])
    c = o.get_position()[:3]
    rays = np.zeros((2, 4, n))
    rays[0, 3] = 1
    rays[0, :3] = c[:, None] + S.rng.uniform(-6, 6, (3, n))
    rays[1, :3] = c[:, None] + S.rng.uniform(-1, 1, (3, n)) - rays[0, :3]
    h, ids = o.intersect(rays.copy())
    with np.errstate(all="ignore"):
        pts = rays[0] + np.where(np.isfinite(h[0]), h[0], 0) * rays[1]
    normals = o.get_world_normals(pts.copy())
    same = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-7, atol=1e-8, equal_nan=True)
    S.ensure("one column per ray", h.shape[-1] == n and np.shape(ids) == h.shape and normals.shape == (4, n))
    met = np.isfinite(h[0])
    for k in S.rng.randint(0, n - 7, 12):
        some = slice(k, k + 7)
        h7, i7 = o.intersect(rays[..., some].copy())
        S.ensure("the same crossings as a few at a time", same(h7, h[:, some]) and np.array_equal(i7, ids[:, some]))
        if met[some].any():
            S.ensure("the same normals as a few at a time", same(o.get_world_normals(pts[:, some].copy())[:, met[some]], normals[:, some][:, met[some]]))
