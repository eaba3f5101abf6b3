"""P01: mirror reflection."""
from vc.engine import contract
from .common import *


def reflect_post(S, tag, v, n, r):
    vn, rn = S.dot(v[:3], n[:3]), S.dot(r[:3], n[:3])
    S.ensure(tag + "normal component reversed", S.eq(rn, -vn))
    S.ensure(tag + "tangential component kept", S.and_(*[S.eq(r[i] - rn * n[i], v[i] - vn * n[i]) for i in range(3)]))
    S.ensure(tag + "length preserved", S.eq(norm2(S, r), norm2(S, v)))
    S.ensure(tag + "stays a direction", S.eq(r[3], 0))


@contract("P01", ["tinygfx.g3d.operations.reflect", "tinygfx.g3d.operations.element_wise_dot"], cases=[dict(form=f) for f in ("batch", "single", "one_normal")])
def reflect(S, form):
    N = S.N() if form != "single" else None
    v = S.vector("v", N, nonzero=False)
    n = S.unit("n", N if form == "batch" else None)
    v0, n0 = S.np.array(v), S.np.array(n)
    r = S.R.ops.reflect(v, n)
    S.ensure("arguments are not modified", S.and_(S.same_array(v, v0), S.same_array(n, n0)))
    S.ensure("shape", S.shape_ok(r, (4, N) if N is not None else (4,)))
    if N is None:
        reflect_post(S, "", S.tolist(v0), S.tolist(n0), S.tolist(r))
    else:
        for a, b in S.lanes(N, v0, r):
            if form == "one_normal":
                reflect_post(S, "", a, S.tolist(n0), b)
        if form == "batch":
            for a, m, b in S.lanes(N, v0, n0, r):
                reflect_post(S, "", a, m, b)


@contract("P01", ["tinygfx.g3d.operations.reflect"])
def reflect_forms_agree(S):
    N = S.N()
    v = S.vector("v", N, nonzero=False)
    n = S.unit("n")
    many = S.R.ops.reflect(S.np.array(v), S.np.tile(S.np.array(n)[:, None], (1, N)))
    one = S.R.ops.reflect(S.np.array(v), S.np.array(n))
    S.ensure("one normal for all = that normal for each", S.same_array(many, one))
    w = S.vector("w", None, nonzero=False)
    single = S.R.ops.reflect(S.np.array(w), S.np.array(n))
    col = S.R.ops.reflect(S.np.array(w)[:, None], S.np.array(n)[:, None])
    S.ensure("a single vector = a batch of one", S.same_array(single, col[:, 0]))


@contract("P01", ["pyrayt.materials._ReflectingMaterial.trace", "pyrayt._pyrayt.RaySet"])
def mirror_trace(S):
    N = S.N()
    rs = rayset(S, N)
    n = S.unit("n", N)
    surf = StubSurface(S, n, S.R.matl.mirror)
    b = snap(S, rs)
    out = S.R.matl.mirror.trace(surf, rs)
    a = snap(S, out)
    S.ensure("normals are those at the rays' own positions", S.and_(*[S.same_array(p, b["pos"]) for p in surf.asked]))
    S.ensure("one result per ray", S.shape_ok(out, (13, N)))
    unchanged(S, "mirror", N, b, a, ("pos",) + FIELDS)
    for v, m, r in S.lanes(N, b["dir"], n, a["dir"]):
        reflect_post(S, "", v, m, r)


@contract("P01", ["pyrayt.materials._ReflectingMaterial.trace", "tinygfx.g3d.world_objects.TracerSurface.get_world_normals"], conc=80,
          cases=[dict(shape=s) for s in ("Sphere", "XYPlane", "Cuboid", "Cylinder", "Paraboloid")], sym=False)
def mirror_on_placed_surface(S, shape):
    """end to end on the real surfaces (bounded): reflect at a real hit of a moved object"""
    np = S.np
    T = S.matrix("T")
    obj = getattr(S.R.cg, shape)(*{"Sphere": (1.5,), "Paraboloid": (1, 2), "XYPlane": (4, 4), "Cuboid": (), "Cylinder": (1, -1, 1)}[shape], material=S.R.matl.mirror)
    obj.transform(T)
    if S.flag("inv"):
        obj.invert_normals()
    N = S.N()
    rays = S.rays("ray", N, unit=True)
    rays[1] *= S.real("len", lo=.5, hi=2)
    for k in range(N):  # towards the shape
        rays[1, :, k] = T @ np.append(S.rng.uniform(-.9, .9, 3) * (1, 1, shape != "XYPlane") + (0, 0, shape == "Paraboloid"), 1) - rays[0, :, k]
    if S.flag("to the same place"):
        rays[1] = rays[1, :, :1] + 1e-5 * S.rng.uniform(-1, 1, (4, 1)) * (rays[1] - rays[1, :, :1])
        rays[0] = rays[0, :, :1] + 1e-5 * S.rng.uniform(-1, 1, (4, 1)) * (rays[0] - rays[0, :, :1])
    h, _ = obj.intersect(rays)
    good = [k for k in range(N) if np.isfinite(h[0, k]) and (abs(h[1, k] - h[0, k]) > 1e-3 or shape == "XYPlane")]
    if not good or np.linalg.cond(T) > 1e3:
        S.assume(False)
    p = (rays[0] + h[0] * rays[1])[:, good]
    v = rays[1][:, good]
    q = np.linalg.inv(T) @ p
    x, y, z = q[:3]
    far = np.ones(len(good), bool)
    if shape == "Sphere":
        g = np.array([x, y, z])
    elif shape == "XYPlane":
        g = np.array([0 * x, 0 * x, 1 + 0 * x])
    elif shape == "Cuboid":
        o = np.argsort(np.abs(q[:3]), axis=0)
        g = np.eye(3)[:, o[2]]
        far = np.abs(np.sort(np.abs(q[:3]), axis=0)[1] - 1) > 1e-3
    else:
        cap = np.abs(np.abs(z) - 1) < 1e-6 if shape == "Cylinder" else np.abs(z - 2) < 1e-6
        far = np.abs(x * x + y * y - 1) > 1e-3 if shape == "Cylinder" else np.abs(x * x + y * y - 8) > 1e-2
        far = far | ~cap & (np.abs(np.abs(z) - 1) > 1e-3 if shape == "Cylinder" else np.abs(z - 2) > 1e-3)
        g = np.where(cap, np.array([[0], [0], [1.]]), np.array([x, y, 0 * x if shape == "Cylinder" else -2 + 0 * x]))
    g = np.linalg.inv(T)[:3, :3].T @ g
    g /= np.linalg.norm(g, axis=0)
    rs = S.R.pyrayt.RaySet(len(good))
    rs.rays = np.stack((p, v), axis=0)
    out = S.R.matl.mirror.trace(obj, rs)
    for k in range(len(good)):
        if far[k]:
            S.ensure("leaves from the point it arrived at", veq(S, out.rays[0, :, k], p[:, k]))
            reflect_post(S, "", v[:, k], g[:, k], out.rays[1, :, k])
