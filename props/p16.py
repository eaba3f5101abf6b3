"""P16: each ray interacts with the nearest surface ahead of it."""
from vc.engine import contract
from .trace import *

COVERS = ["pyrayt._pyrayt.RayTracer.trace", "pyrayt._pyrayt.RayTracer._st_initialize", "pyrayt._pyrayt.RayTracer._st_propagate", "pyrayt._pyrayt.RayTracer._st_interact",
          "pyrayt._pyrayt.RayTracer._st_finish", "pyrayt._pyrayt.RayTracer.reset", "pyrayt._pyrayt._RayTraceDataframe.insert"]
ASSUME = ["components and materials meet their own contracts (P01-P15): they answer per ray and repeatably", "positive crossings of different surfaces do not tie"]


def traced(S, N, rs, comps, limit, **kw):
    t = S.R.pyrayt.RayTracer(Source(S, rs), comps, rays_per_source=N, generation_limit=limit, **kw)
    df = t.trace()
    return t, df


SPECS = {"one component": [(2, 2)], "two components": [(2, 1), (1, 1)], "two surfaces each": [(1, 2), (1, 2)], "three components": [(1, 1), (1, 1), (1, 1)]}


@contract("P16", COVERS, cases=[dict(spec=s) for s in SPECS], merge=True, stubs=True, budget=120)
def one_step(S, spec):
    N = S.N()
    rs = source_rays(S, N, dead=False)
    for v in S.lanes(N, rs.intensity):
        S.assume(S.le(1, v))
    rs.id = S.np.arange(N)
    comps = system(S, SPECS[spec], absorbs=False)
    given = list(reversed(comps)) if S.flag("reversed") else comps
    if len(given) == 1 and S.flag("unlisted"):
        given = given[0]
    t, df = traced(S, N, rs, given, 1)
    check(S, N, rs, comps, df, 1)


@contract("P16", COVERS, cases=[dict(spec=s) for s in ("one", "two")], merge=True, stubs=True, budget=120)
def deflected(S, spec):
    """the outcome is the one of the surface's own material, at the crossing"""
    N = S.N()
    rs = source_rays(S, N, dead=False)
    for v in S.lanes(N, rs.intensity):
        S.assume(S.le(1, v))
    comps = system(S, {"one": [(1, 2)], "two": [(1, 1), (1, 1)]}[spec], absorbs=False)
    t, df = traced(S, N, rs, comps, 2)
    check(S, N, rs, comps, df, 2)


@contract("P16", COVERS, merge=True, stubs=True, budget=100, advisory=True)
def any_components(S):
    """induction over the components: any number of them amounts to one that reports the nearest crossing of all"""
    N = S.N()
    rs = source_rays(S, N, dead=False)
    rs.id = S.np.arange(N)
    seen, new = system(S, [(1, 1), (2, 1)], absorbs=False)
    folds(S, lambda comps: traced(S, N, rs, comps, 1), seen, new)


@contract("P16", [], sym=False, conc=12, stubs=True)
def crowd(S):
    """hundreds of surfaces"""
    N = S.N()
    rs = source_rays(S, N, dead=False)
    rs.intensity = 1 + S.np.array(rs.intensity)
    rs.id = S.np.arange(N)
    comps = system(S, [(1, 1)] * int(S.rng.choice([30, 140, 300, 560])), absorbs=False)
    t, df = traced(S, N, rs, comps, 2)
    check(S, N, rs, comps, df, 2)


class Wall:
    """met at given distances, whatever the ray"""

    def __init__(self, S, k, distances):
        self.S, self.distances, self.k = S, distances, k
        self.material = Material(S, "wall%d" % k, absorbs=True)
    surface_ids = property(lambda s: ((s.k, s),))
    def intersect(self, r):
        np = self.S.np
        return np.tile(np.array(self.distances)[:, None], r.shape[-1]), np.full((len(self.distances), r.shape[-1]), self.k)


@contract("P16", [], sym=False, conc=60, stubs=True)
def any_distance(S):
    """surfaces as near as a millionth or as far as a hundred million, ahead and behind, some hardly apart"""
    np = S.np
    N = S.N()
    rs = S.R.pyrayt.RaySet(N)
    rs.rays[1, 0] = 1
    at = lambda: float(S.rng.choice([-1, 1, 1]) * 10 ** S.rng.uniform(-7, 8))
    base = at()
    walls = []
    for k in range(S.pick("walls", [1, 2, 3, 8])):
        ds = [S.inf if S.rng.rand() < .15 else at() if S.rng.rand() < .6 else base * (1 + float(S.rng.choice([1, -1])) * 10 ** S.rng.uniform(-5, -2)) for _ in range(S.pick("crossings", [1, 2, 4, 300]))]
        walls.append(Wall(S, 3 + 2 * k, sorted(ds)))
    t = S.R.pyrayt.RayTracer(Source(S, rs), walls, rays_per_source=N, generation_limit=1)
    df = t.trace()
    ahead = sorted((d, w.k) for w in walls for d in w.distances if 0 < d < S.inf)
    if not ahead:
        return S.ensure("nothing is met", len(df) == 0)
    S.ensure("every ray meets the nearest surface ahead", len(df) == N and np.all(df["surface"] == ahead[0][1]) and np.allclose(df["x1"], ahead[0][0], rtol=1e-9, atol=0))


@contract("P16", [], sym=False, conc=80)
def scenes(S):
    """the library's own shapes, sources' rays in a batch against each ray traced on its own"""
    comps = [shape(S) for _ in range(1 + S.choice("components", 5))]
    n = 1 + S.choice("n", 30)
    rs = real_rays(S, n)
    k = 1 + S.choice("limit", 4)
    order = list(S.rng.permutation(len(comps)))
    t = S.R.pyrayt.RayTracer(Source(S, rs), [comps[i] for i in order], rays_per_source=n, generation_limit=k)
    df = t.trace()
    real_check(S, comps, rs, df, k)


@contract("P16", [], sym=False, conc=6)
def long_rows(S):
    """a combination of a long row of spheres, met from before, between and behind them"""
    np, W, R = S.np, S.R.world, S.R
    n = S.pick("spheres", [20, 50, 90])
    row = [W.Sphere(.3, material=R.matl.absorber).move_x(k) for k in range(n)]
    S.rng.shuffle(row)
    while len(row) > 1:
        a, b = row.pop(0), row.pop(int(S.rng.randint(len(row))))
        row.append(R.csg.union(a, b))
    N = 40
    rs = S.R.pyrayt.RaySet(N)
    x = S.rng.randint(-2, n + 2, N) + .5
    rs.rays[0, 0] = x
    way = S.rng.choice([-1, 1], N)
    rs.rays[1, :3] = 0
    rs.rays[1, 0] = way
    df = S.R.pyrayt.RayTracer(Source(S, rs), row[0], rays_per_source=N, generation_limit=1).trace()
    # forwards: the next sphere's near side, or the first one's when still before it; backwards likewise from the last one
    nxt = np.where(way > 0, np.maximum(np.ceil(x), 0), np.minimum(np.floor(x), n - 1))
    meets = (nxt >= 0) & (nxt <= n - 1)
    df = df.set_index("id").sort_index()
    S.ensure("every ray that meets a sphere is recorded, no other", len(df) == meets.sum() and set(df.index) == set(np.flatnonzero(meets)))
    S.ensure("the near side of the next sphere", np.allclose(df["x1"].to_numpy(), (nxt - .3 * way)[meets], atol=1e-6))


@contract("P16", [], sym=False, conc=5)
def many_shapes(S):
    """dozens of the library's own shapes of a few shared materials, some of them combinations of many"""
    comps = [shape(S) for _ in range(int(S.rng.choice([24, 45, 90])))]
    n = 1 + S.choice("n", 8)
    rs = real_rays(S, n)
    k = 1 + S.choice("limit", 4)
    t = S.R.pyrayt.RayTracer(Source(S, rs), list(comps), rays_per_source=n, generation_limit=k)
    real_check(S, comps, rs, t.trace(), k)
