"""P18: every trace ends, dropping exactly the dead rays."""
from vc.engine import contract
from .trace import *
from .p16 import COVERS, ASSUME, traced
from .p17 import any_generation as step


@contract("P18", COVERS, cases=[dict(limit=k) for k in (1, 2, 3, 4)], merge=True, stubs=True, budget=120, bounded="up to four generations")
def survivors(S, limit):
    N = S.N()
    rs = source_rays(S, N)
    comps = system(S, [(1, 1)], dims=True)
    t, df = traced(S, N, rs, comps, limit)
    check(S, N, rs, comps, df, limit)


@contract("P18", COVERS, merge=True, stubs=True, budget=60, advisory=True)
def any_generation(S):
    """induction over the generations: from any ray set at any generation exactly the living rays are recorded and handed on, and the count grows
    towards the limit, so that the trace ends"""
    step(S)


@contract("P18", [], sym=False, conc=12)
def endless(S, limits=(1, 2, 15, 40, 70, 130, 260)):
    """rays between parallel mirrors go on to the limit, whatever it is"""
    np, W = S.np, S.R.world
    comps = [W.XYPlane(2, 2, material=S.R.matl.mirror).rotate_y(90).move_x(x) for x in (-3, 3)]
    if S.flag("an absorber beside them"):
        comps.append(W.XYPlane(2, 2, material=S.R.matl.absorber).rotate_y(90).move(1, 5, 0))
    n = S.N()
    rs = S.R.pyrayt.RaySet(n)
    r = np.zeros((2, 4, n))
    r[0, 3] = 1
    r[0, :3] = S.rng.uniform(-.9, .9, (3, n))
    r[1, 0] = S.rng.choice([-1, 1], n)
    lost = S.rng.rand(n) < .3
    r[0, 1, lost] += 5
    rs.rays = r
    k = int(S.rng.choice(limits))
    t = S.R.pyrayt.RayTracer(Source(S, rs), comps, rays_per_source=n, generation_limit=k)
    df = t.trace()
    for j in range(n):
        g = df[df["id"] == j].sort_values("generation") if len(df) else df
        if lost[j]:
            S.ensure("a ray that leaves is not followed", len(g) <= 1)
            continue
        S.ensure("one record per generation up to the limit", list(g["generation"]) == list(range(k)))
        S.ensure("to and fro", np.allclose(np.abs(g["x1"]), 3, atol=1e-3) and np.allclose(np.sign(g["x1"]), r[1, 0, j] * (-1.) ** np.arange(k)))


@contract("P18", [], sym=False, conc=60)
def scenes(S):
    """the library's own shapes: resonators and absorbers up to a generation limit"""
    comps = [shape(S) for _ in range(1 + S.choice("components", 3))]
    if S.flag("resonator"):
        W = S.R.world
        for x in (-3, 3):
            comps.append(W.XYPlane(8, 8, material=S.R.matl.mirror).rotate_y(90).move_x(x))
    n = 1 + S.choice("n", 20)
    rs = real_rays(S, n)
    k = 1 + S.choice("limit", 6)
    t = S.R.pyrayt.RayTracer(Source(S, rs), comps, rays_per_source=n)
    t.set_generation_limit(k)
    df = t.trace()
    S.ensure("at most the limit per ray", len(df) == 0 or df.groupby("id").size().max() <= k)
    S.ensure("one record per ray and generation", not df.duplicated(["id", "generation"]).any())
    real_check(S, comps, rs, df, k)
