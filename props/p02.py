"""P02: refraction obeys Snell's law."""
from vc.engine import contract
from .common import *


def refract_post(S, d, n, n1, n2, ng, r, idx, what):
    """d: unit incoming direction"""
    c = S.dot(d[:3], n[:3])
    S.assume(S.ne(c, 0))
    nto = ng if S.is_(S.gt(c, 0)) else n2
    mu = S.div(n1, nto)
    rad = 1 - mu * mu * (1 - c * c)
    S.assume(S.ne(rad, 0))
    rn = S.dot(r[:3], n[:3])
    if S.is_(S.gt(rad, 0)):
        if what == "snell":
            S.ensure("tangential component scales by n1/n2 (Snell, in the plane of incidence)",
                     S.and_(*[S.eq(r[i] - rn * n[i], mu * (d[i] - c * n[i])) for i in range(3)]))
            S.ensure("continues to the other side", S.lt(0, rn * c))
            S.ensure("index is that of the medium entered", S.eq(idx, nto))
        else:
            S.ensure("transmitted: crosses the surface", S.lt(0, rn * c))
            S.ensure("transmitted: carries the index of the medium entered", S.eq(idx, nto))
    elif what != "snell":
        S.ensure("total internal reflection is specular", S.and_(*[S.eq(r[i], d[i] - 2 * c * n[i]) for i in range(3)]))
        S.ensure("keeps its index", S.eq(idx, n1))
    S.ensure("unit direction", S.eq(norm2(S, r), 1))
    S.ensure("stays a direction", S.eq(r[3], 0))


def run_refract(S, what, unit, glob):
    N = S.N()
    v = S.vector("v", N, unit=unit)
    n = S.unit("n", N)
    n1, n2 = S.arr("n1", (), N, pos=True), S.arr("n2", (), N, pos=True)
    ng = S.arr("ng", (), N, pos=True) if glob == "array" else S.real("ng", pos=True) if glob == "scalar" else None
    v0, n0 = S.np.array(v), S.np.array(n)
    n10, n20 = S.np.array(n1), S.np.array(n2)
    r, idx = S.R.ops.refract(v, n, n1, n2, *([] if ng is None else [ng]))
    S.ensure("shapes", S.shape_ok(r, (4, N)) and S.shape_ok(idx, (N,)))
    S.ensure("normals and indices are not modified", S.and_(S.same_array(n, n0), S.same_array(n1, n10), S.same_array(n2, n20)))
    for k, (a, m, i1, i2, rr, ii) in enumerate(S.lanes(N, v0, n0, n10, n20, r, idx)):
        g = 1 if ng is None else ng if glob == "scalar" else S.lanes(N, ng)[k]
        l = S.sqrt(norm2(S, a))
        refract_post(S, [S.div(x, l) for x in a[:3]], m, i1, i2, S.const(g) if ng is None else g, rr, ii, what)


@contract("P02", ["tinygfx.g3d.operations.refract"], cases=[dict(unit=u, glob=g) for u in (True, False) for g in ("default", "scalar", "array")])
def refract(S, unit, glob):
    run_refract(S, "snell", unit, glob)


def run_glass(S, what, disp):
    N = S.N()
    rs = rayset(S, N, rays=S.rays("ray", N, unit=True))
    n = S.unit("n", N)
    if disp == "sellmeier":
        g = S.R.matl.SellmeierRefractor(*[S.real(x, nonneg=True) for x in ("b1", "b2", "b3", "c1", "c2", "c3")])
    elif disp == "basic":
        g = S.R.matl.BasicRefractor(S.real("n0", pos=True))
    else:
        # any dispersion law: index_at is known by its contract only (one positive index per wavelength)
        law = S.arr("law", (), N, pos=True)

        class AnyGlass(S.R.matl.Glass):
            def index_at(self, w):
                S.ensure("the index is asked for at each ray's own wavelength", S.same_array(S.np.array(w), S.np.array(rs.wavelength)))
                return law
        g = AnyGlass()
    surf = StubSurface(S, n, g)
    b = snap(S, rs)
    if disp == "any":
        law0 = S.np.array(law)
    else:
        if disp == "sellmeier":
            for w in S.lanes(N, b["wavelength"]):
                w2 = w * w
                for c in (g.c1, g.c2, g.c3):
                    S.assume(S.ne(w2, c))
                S.assume(S.gt(1 + sum(S.div(bb * w2, w2 - c) for bb, c in ((g.b1, g.c1), (g.b2, g.c2), (g.b3, g.c3))), 0))
        law0 = g.index_at(S.np.array(b["wavelength"]))
    out = g.trace(surf, rs)
    a = snap(S, out)
    S.ensure("normals are those at the rays' own positions", S.and_(*[S.same_array(p, b["pos"]) for p in surf.asked]))
    unchanged(S, "glass", N, b, a, ("pos", "generation", "intensity", "wavelength", "id"))
    for d, m, i1, i2, r, idx in S.lanes(N, b["dir"], n, b["index"], law0, a["dir"], a["index"]):
        refract_post(S, d, m, i1, i2, S.const(1), r, idx, what)


@contract("P02", ["pyrayt.materials.Glass.trace", "pyrayt.materials.BasicRefractor.index_at", "pyrayt.materials.SellmeierRefractor.index_at"],
          cases=[dict(disp=d) for d in ("any", "basic", "sellmeier")], budget=90)
def glass_trace(S, disp):
    run_glass(S, "snell", disp)
