"""P04: material interaction is per ray and changes only what physics changes."""
from vc.engine import contract
from .common import *


def materials(S, N):
    law = S.arr("law", (), N, pos=True)

    class AnyGlass(S.R.matl.Glass):
        def index_at(self, w): return law
    return dict(mirror=S.R.matl.mirror, absorber=S.R.matl.absorber, glass=AnyGlass())


@contract("P04", ["pyrayt.materials._AbsorbingMaterial.trace", "pyrayt.materials._ReflectingMaterial.trace", "pyrayt.materials.Glass.trace"],
          cases=[dict(kind=k) for k in ("mirror", "absorber", "glass")])
def frame(S, kind):
    N = S.N()
    rs = rayset(S, N, rays=S.rays("ray", N, unit=True))
    n = S.unit("n", N)
    m = materials(S, N)[kind]
    surf = StubSurface(S, n, m)
    b = snap(S, rs)
    out = m.trace(surf, rs)
    a = snap(S, out)
    S.ensure("one result per ray", S.shape_ok(out, (13, N)))
    unchanged(S, kind, N, b, a, ("pos", "generation", "intensity", "wavelength", "id") + (() if kind == "glass" else ("index",)))
    if kind == "absorber":
        for d in S.lanes(N, a["dir"]):
            S.ensure("absorbed: zero direction", S.and_(*[S.eq(x, 0) for x in d]))
    else:
        for d in S.lanes(N, a["dir"]):
            S.ensure("direction stays a vector", S.eq(d[3], 0))


@contract("P04", ["pyrayt.materials._AbsorbingMaterial.trace", "pyrayt.materials._ReflectingMaterial.trace", "pyrayt.materials.Glass.trace"],
          cases=[dict(kind=k) for k in ("mirror", "absorber", "glass")])
def selection_commutes(S, kind):
    """interacting a selected sub-batch = selecting from the interacted batch (any mask)"""
    N = S.N()
    m = dict(mirror=S.R.matl.mirror, absorber=S.R.matl.absorber, glass=S.R.matl.BasicRefractor(S.real("n2", pos=True)))[kind]
    rs = rayset(S, N, rays=S.rays("ray", N, unit=True))
    n = S.unit("n", N)
    mask = S.arr("sel", (), N) > 0
    part = m.trace(StubSurface(S, n[..., mask]), rs[..., mask].copy())
    whole = m.trace(StubSurface(S, n), rs.copy())
    S.ensure("per ray", S.same_array(part, whole[..., mask]))


@contract("P04", ["pyrayt.materials"], cases=[dict(kind=k) for k in ("mirror", "absorber", "basic", "BK7")], sym=False, conc=60)
def batch_is_one_by_one(S, kind):
    """bounded: a batch against each of its rays on its own and in reverse order, on a real moved surface"""
    np = S.np
    m = dict(mirror=S.R.matl.mirror, absorber=S.R.matl.absorber, basic=S.R.matl.BasicRefractor(1.6), BK7=S.R.matl.glass["BK7"])[kind]
    obj = S.R.cg.Sphere(2, material=m)
    obj.transform(S.matrix("T"))
    N = S.N()
    how = S.pick("directions", ["unit", "any", "nearly unit but one"])
    rays = S.rays("ray", N, unit=how != "any")
    if how == "nearly unit but one":
        rays[1] *= 1 + 1e-4 * S.rng.uniform(-1, 1, N)
        rays[1, :, S.rng.randint(N)] *= 2
    rs = rayset(S, N, rays=rays)
    rs.wavelength = S.arr("wl", (), N, lo=.4, hi=.7)
    rs.index = S.arr("ix", (), N, lo=1, hi=2)
    whole = m.trace(obj, rs.copy())
    back = m.trace(obj, rs[..., ::-1].copy())[..., ::-1]
    S.ensure("any order", S.same_array(whole, back))
    for k in range(N):
        one = m.trace(obj, rs[..., k:k + 1].copy())
        S.ensure("one by one", S.same_array(whole[..., k:k + 1], one))


@contract("P04", ["pyrayt.materials"], cases=[dict(kind=k) for k in ("mirror", "absorber", "basic", "BK7")], sym=False, conc=30)
def wide_values(S, kind):
    """faint and bright, far and near, old and new rays with large ids, in batches of up to thousands: the fields that stay are the same numbers"""
    np = S.np
    m = dict(mirror=S.R.matl.mirror, absorber=S.R.matl.absorber, basic=S.R.matl.BasicRefractor(1.6), BK7=S.R.matl.glass["BK7"])[kind]
    n = S.pick("rays", [1, 2, 7, 120, 600, 3000])
    rs = S.R.pyrayt.RaySet(n)
    d, v = S.rng.normal(size=(2, 3, n))
    rs.rays[0, :3] = S.rng.uniform(-1, 1, (3, n)) * 10. ** S.rng.randint(-6, 7)
    rs.rays[1] = 0
    rs.rays[1, :3] = d / np.linalg.norm(d, axis=0)
    rs.intensity = 10. ** S.rng.uniform(-9, 9, n)
    rs.generation = S.rng.randint(0, 2000, n)
    rs.id = S.rng.randint(0, 2 ** 31, n)
    rs.wavelength = S.rng.uniform(.3, 2.5, n)
    rs.index = S.rng.uniform(1, 4, n)
    nrm = np.zeros((4, n))
    nrm[:3] = v / np.linalg.norm(v, axis=0)
    b = {k: np.array(getattr(rs, k)) for k in ("generation", "intensity", "wavelength", "id") + (() if kind in ("basic", "BK7") else ("index",))}
    pos = np.array(rs.rays[0])
    out = m.trace(StubSurface(S, nrm), rs)
    S.ensure("one result per ray", out.rays.shape == (2, 4, n))
    S.ensure("position stays", np.array_equal(out.rays[0], pos))
    for k in b:
        S.ensure(k + " stays", np.array_equal(getattr(out, k), b[k]))
