"""P19: tracing is repeatable and always reflects the current system."""
from vc.engine import contract
from .trace import *
from .p16 import COVERS as C16, ASSUME
from .common import snap, unchanged, FIELDS

COVERS = C16 + ["pyrayt._pyrayt.RayTracer.__init__", "pyrayt._pyrayt.RayTracer.load_components", "pyrayt._pyrayt.RayTracer.get_system", "pyrayt._pyrayt.RayTracer.get_results",
                "pyrayt._pyrayt.RayTracer.set_rays_per_source", "pyrayt._pyrayt.RayTracer.get_rays_per_source", "pyrayt._pyrayt.RayTracer.set_generation_limit",
                "pyrayt._pyrayt.RayTracer.get_generation_limit", "pyrayt._pyrayt.RayTracer.calculate_source_ids"]


class Keeps:
    """a source that hands out the very ray set it keeps"""

    def __init__(self, rs): self.rs = rs
    def generate_rays(self, n): return self.rs


def setup(S, N, tag="ray"):
    rs = source_rays(S, N, dead=False, tag=tag)
    for v in S.lanes(N, rs.intensity):
        S.assume(S.le(1, v))
    return rs


def ensure_trace(S, N, rs, comps, df, limit, what):
    check(S, N, rs, comps, df, limit, what)
    if not S.symbolic:
        n = len(df)
        ids = set(df["id"].astype(int)) if n else set()
        S.ensure(what + "records of this trace only", ids <= set(range(N)) and n <= N * limit)


@contract("P19", COVERS, merge=True, stubs=True, budget=90)
def again(S):
    """twice the same, the sources' own rays untouched"""
    N = S.N()
    rs = setup(S, N)
    comps = system(S, [(1, 1)])
    b = snap(S, rs)
    t = S.R.pyrayt.RayTracer(Keeps(rs), comps, rays_per_source=N, generation_limit=2)
    df = t.trace()
    ensure_trace(S, N, rs, comps, df, 2, "first: ")
    S.ensure("the results are the trace", t.get_results() is df or not S.symbolic and t.get_results().equals(df))
    unchanged(S, "the source's rays", N, b, snap(S, rs), FIELDS + ("pos", "dir"))
    for c in comps:
        c.calls.clear()
    df2 = t.trace()
    ensure_trace(S, N, rs, comps, df2, 2, "second: ")
    ensure_trace(S, N, rs, comps, t.get_results(), 2, "results: ")
    unchanged(S, "the source's rays", N, b, snap(S, rs), FIELDS + ("pos", "dir"))


CHANGES = ["components loaded", "component list edited", "component moved", "limit", "source list edited", "source changed", "reset", "single component loaded"]


@contract("P19", COVERS, merge=True, stubs=True, budget=120, cases=[dict(change=c) for c in CHANGES])
def changed(S, change):
    """after a change the next trace is that of the current system"""
    N = S.N()
    rs = setup(S, N)
    comps = system(S, [(1, 1)], absorbs=False)
    srcs = [Source(S, rs)]
    limit = 2 if change == "limit" else 1
    t = S.R.pyrayt.RayTracer(srcs, comps, rays_per_source=N, generation_limit=limit)
    if S.flag("traced before"):
        t.trace()
    now, nrs = comps, rs
    i = 20

    def other():
        return [Component(S, "new", [Surface(S, i, Material(S, "new", absorbs=False))], 1)]

    if change == "components loaded":
        now = other()
        t.load_components(now)
        S.ensure("the system is the one loaded", t.get_system() is now or list(t.get_system()) == now)
    elif change == "single component loaded":
        now = other()
        t.load_components(now[0])
        S.ensure("the system is the one loaded", list(t.get_system()) == now)
    elif change == "component list edited":
        comps.append(other()[0])
        S.ensure("the system is the one edited", list(t.get_system()) == comps)
    elif change == "component moved":
        # the same object answers differently from now on
        comps[0].o = Oracle(S, "moved", 1)
        comps[0].memo.clear()
    elif change == "limit":
        limit = S.pick("limit", [1, 3])
        t.set_generation_limit(limit)
        S.ensure("the limit is the one set", t.get_generation_limit() == limit)
    elif change == "source list edited":
        nrs = setup(S, N, "other")
        srcs[0] = Source(S, nrs)
    elif change == "source changed":
        nrs = setup(S, N, "other")
        srcs[0].rs = nrs
    elif change == "reset":
        t.reset()
        S.ensure("a reset leaves no records", len(records(S, t.get_results(), 0)) == 0)
    for c in now:
        c.calls.clear()
    df = t.trace()
    ensure_trace(S, N, nrs, now, df, limit, "")


@contract("P19", COVERS, merge=True, stubs=True, budget=60)
def asks_for_the_current_count(S):
    """every source is asked for the current number of rays, and the rays of a source carry its source id"""
    N = S.N()
    K = S.N("k")

    class Src:
        asked = None

        def generate_rays(self, n):
            self.asked = n
            rs = S.R.pyrayt.RaySet(n)
            rs.rays = S.rays("r", n)
            return rs

    srcs = [Src(), Src()]
    S.n_src = 2
    comps = [Component(S, "c", [Surface(S, 5, Material(S, "m", absorbs=False))], 1, kinds="finite")]
    t = S.R.pyrayt.RayTracer(srcs[0], comps, rays_per_source=N, generation_limit=1)
    S.ensure("the count is the one given", S.eq(t.get_rays_per_source(), N))
    if S.flag("changed"):
        t.set_rays_per_source(K)
        S.ensure("the count is the one set", S.eq(t.get_rays_per_source(), K))
        N = K
    t.trace()
    S.ensure("the source is asked for that many", S.eq(srcs[0].asked, N))
    if S.flag("changed afterwards"):  # for the next trace, not for these results
        t.set_rays_per_source(N + 1)
    t.calculate_source_ids()
    df = t.get_results()
    for j in S.lane_index(N):
        for row in records(S, df, j):
            S.ensure("the only source has id 0", S.eq(row["source_id"], 0))


@contract("P19", COVERS, stubs=True, budget=60, cases=[dict(sources=s, rays=r) for s, r in ((1, 3), (2, 2), (3, 1), (2, 3))], bounded="up to three sources of up to three rays")
def source_ids(S, sources, rays):
    """several sources of a few rays: the rays follow the order of the sources, with distinct ids, and the source id names the source"""
    starts = [[S.real("x%d.%d" % (s, r)) for r in range(rays)] for s in range(sources)]
    np = S.np

    class Src:
        def __init__(self, k): self.k = k

        def generate_rays(self, n):
            rs = S.R.pyrayt.RaySet(n)
            for i in range(rays):
                rs.rays[0, 0, i] = starts[self.k][i]
            rs.rays[1, 2] = 1
            return rs

    class Wall:
        """one unit ahead of everything"""
        def __init__(self): self.surface_ids = ((9, self),)
        material = Material(S, "m", absorbs=False)
        def intersect(self, r): return np.ones((1, r.shape[-1])), np.full((1, r.shape[-1]), 9)

    t = S.R.pyrayt.RayTracer([Src(k) for k in range(sources)], Wall(), rays_per_source=rays, generation_limit=1)
    t.trace()
    if S.flag("changed afterwards"):  # for the next trace, not for these results
        t.set_rays_per_source(1 + rays % 3)
    t.calculate_source_ids()
    df = t.get_results()
    if S.symbolic:
        rows = [{c: b[c].p[k] for c in b} for b in df.blocks for k in range(b["id"].p.size)]
    else:
        rows = [dict(zip(df.columns, r)) for r in df.values]
    S.ensure("one record per ray", len(rows) == sources * rays)
    seen = set()
    for row in rows:
        i = int(S.num(row["id"]))
        seen.add(i)
        S.ensure("the ray of that id", 0 <= i < sources * rays and S.eq(row["x0"], starts[i // rays][i % rays]))
        S.ensure("the source of that ray", S.eq(row["source_id"], i // rays))
    S.ensure("distinct ids", len(seen) == len(rows))


@contract("P19", ["pyrayt._pyrayt.RayTracer.calculate_source_ids"], sym=False, conc=12)
def many_rays(S):
    """any number of rays per source, up to hundreds: each source's rays carry its place in the list of sources"""
    np = S.np
    n, m = S.rng.randint(1, 700), int(S.rng.choice([1, 2, 3, 5, 20]))
    if S.rng.rand() < .5:
        n = int(S.rng.choice([49, 98, 103, 107, 161, 187, 196, 197, 300, 512]))
    srcs = [S.R.comp.LineOfRays(1.).move(k, 0, 0) for k in range(m)]
    if S.rng.rand() < .4:  # a source may be listed more than once
        srcs = [srcs[i] for i in S.rng.randint(0, m, m)]
    wall = S.R.world.XYPlane(1e3, 1e3, material=S.R.matl.mirror).rotate_y(90).move_x(50)
    t = S.R.pyrayt.RayTracer(srcs, [wall], rays_per_source=n, generation_limit=1)
    t.trace()
    if S.rng.rand() < .3:
        t.set_rays_per_source(S.rng.randint(1, 700))
    t.calculate_source_ids()
    d = t.get_results()
    S.ensure("one record per ray", len(d) == n * m)
    S.ensure("the source id is the place of the source", all(round(x) == round(float(srcs[int(i)].get_position()[0])) for i, x in zip(d["source_id"], d["x0"]))
             and np.array_equal(np.asarray(d["source_id"], float), np.asarray(d["id"], float) // n))


@contract("P19", [], sym=False, conc=50)
def scenes(S):
    """the library's own sources and shapes: a history of changes against a newly built tracer"""
    np, C, R = S.np, S.R.comp, S.R

    def src():
        s = S.pick("source", [lambda: C.LineOfRays(2.), lambda: C.ConeOfRays(20.), lambda: C.CircleOfRays(2.), lambda: C.WedgeOfRays(40.), lambda: C.StaticLamp(1., 1., 30.)])()
        s.rotate_z(S.rng.uniform(0, 360))
        return s.move(*S.rng.uniform(-2, 2, 3))

    def poses():
        return [np.array(x.get_world_transform()) for x in srcs + comps]
    srcs, comps = [src() for _ in range(1 + S.choice("sources", 3))], [shape(S) for _ in range(1 + S.choice("components", 3))]
    n, k = 1 + S.choice("n", 9), 1 + S.choice("limit", 4)
    t = R.pyrayt.RayTracer(srcs, comps, rays_per_source=n, generation_limit=k)
    for step in range(1 + S.choice("steps", 4)):
        what = S.pick("change", ["none", "move", "move source", "load", "count", "limit", "append", "wavelength", "normals"])
        if what == "move":
            pick_op(S)[1](S.pick("who", comps))
        elif what == "move source":
            pick_op(S, ops=["move", "rotate_x", "rotate_y", "rotate_z"])[1](S.pick("who", srcs))
        elif what == "load":
            comps = [shape(S) for _ in range(1 + S.choice("components", 3))]
            t.load_components(comps)
        elif what == "count":
            n = 1 + S.choice("n", 9)
            t.set_rays_per_source(n)
        elif what == "limit":
            k = 1 + S.choice("limit", 4)
            t.set_generation_limit(k)
        elif what == "append":
            comps.append(shape(S))
        elif what == "wavelength":
            S.pick("who", srcs).wavelength = .4 + .3 * S.rng.rand()
        elif what == "normals":
            S.pick("who", comps).invert_normals()
        if any(np.linalg.cond(p) > 1e3 for p in poses()):
            S.assume(False)
        p0 = poses()
        df = t.trace()
        S.ensure("tracing moves nothing", all(np.array_equal(a, b) for a, b in zip(p0, poses())))
        fresh = R.pyrayt.RayTracer(list(srcs), list(comps), rays_per_source=n, generation_limit=k).trace()
        S.ensure("as a new tracer on the current system", len(df) == len(fresh) and np.array_equal(df.values.astype(float), fresh.values.astype(float)))
        S.ensure("the results are the last trace", t.get_results().equals(df))
        t.calculate_source_ids()
        d = t.get_results()
        if len(d):
            S.ensure("source ids", bool((d["source_id"] == (d["id"] // n).astype(int)).all()) and d["source_id"].max() < len(srcs))
            g0 = d[d["generation"] == 0]
            rays0 = np.hstack([s.generate_rays(n) for s in srcs])
            ids = g0["id"].astype(int).values
            S.ensure("starting rays are the sources'", np.allclose(g0[["x0", "y0", "z0"]].values.astype(float), np.asarray(rays0)[:3, ids].T)
                     and np.allclose(g0["wavelength"].values.astype(float), np.asarray(rays0)[10, ids]))


@contract("P19", COVERS, stubs=True, budget=60, merge=True, cases=[dict(sources=s) for s in (1, 2, 3, 4)], bounded="up to four sources")
def source_ids_any(S, sources):
    """a few sources of any number of rays each: the rays follow the order of the sources, with distinct ids, and the source id names the source"""
    N, np = S.N(), S.np
    starts = [S.point("start%d" % k, N) for k in range(sources)]

    class Src:
        def __init__(self, k): self.k = k

        def generate_rays(self, n):
            rs = S.R.pyrayt.RaySet(n)
            rs.rays[0] = starts[self.k]
            rs.rays[1, 2] = 1
            return rs

    class Wall:
        """one unit ahead of everything"""
        def __init__(self): self.surface_ids = ((9, self),)
        material = Material(S, "m", absorbs=False)
        def intersect(self, r): return np.ones((1, r.shape[-1])), np.full((1, r.shape[-1]), 9)

    t = S.R.pyrayt.RayTracer([Src(k) for k in range(sources)], Wall(), rays_per_source=N, generation_limit=1)
    t.trace()
    if S.flag("changed afterwards"):  # for the next trace, not for these results
        t.set_rays_per_source(N + 1)
    t.calculate_source_ids()
    df = t.get_results()
    COL = ("id", "source_id", "x0", "y0", "z0")
    if S.symbolic:
        rows = [[b[c].p[k] for c in COL] for b in df.blocks for k in range(b["id"].p.size)]
        S.ensure("one record per ray", len(rows) == sources)
        j = S.lane_index(N)[0]
        spec = [(k * S.count(N) + j, [starts[k].p[x][0] for x in range(3)]) for k in range(sources)]
    else:
        rows = df[list(COL)].values.tolist()
        S.ensure("one record per ray", len(rows) == sources * N and len({r[0] for r in rows}) == len(rows))
        spec = [(k * N + j, [starts[k][x][j] for x in range(3)]) for k in range(sources) for j in range(N)]
    for (i, start), k in zip(spec, range(len(spec))):
        s = k if S.symbolic else k // N
        S.ensure("the ray of that source, and its source", S.or_(*[S.and_(S.eq(r[0], i), S.eq(r[1], s), veq(S, r[2:], start)) for r in rows if S.symbolic or r[0] == i]))
