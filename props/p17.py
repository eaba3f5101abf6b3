"""P17: the trace record is a chain of straight segments per ray."""
from vc.engine import contract
from .trace import *
from .p16 import COVERS, ASSUME, traced


@contract("P17", COVERS, cases=[dict(limit=k) for k in (1, 2, 3, 5)], merge=True, stubs=True, budget=120, bounded="up to five generations")
def chain(S, limit):
    N = S.N()
    rs = source_rays(S, N, dead=False)
    comps = system(S, [(1, 1)], absorbs=False)
    t, df = traced(S, N, rs, comps, limit)
    check(S, N, rs, comps, df, limit)


@contract("P17", COVERS, cases=[dict(limit=2)], merge=True, stubs=True, budget=120, bounded="up to two generations")
def chain_between(S, limit):
    """two components, dimming materials"""
    N = S.N()
    rs = source_rays(S, N, dead=False)
    comps = system(S, [(1, 1), (1, 1)], absorbs=False, dims=True)
    t, df = traced(S, N, rs, comps, limit)
    check(S, N, rs, comps, df, limit)


@contract("P17", COVERS, merge=True, stubs=True, budget=60, advisory=True)
def any_generation(S):
    """induction over the generations: from any ray set at any generation, one round of the state machine records the step of the chain and
    hands on the ray set of the next generation"""
    N = S.N()
    rs = source_rays(S, N)
    g = S.real("g", nonneg=True)
    L = S.real("limit")
    S.assume(S.le(g + 1, L))
    rs.generation = g
    ids = S.np.arange(N)
    rs.id = ids
    comps = system(S, [(1, 1)], dims=True)
    t = S.R.pyrayt.RayTracer(Source(S, rs), comps, rays_per_source=N, generation_limit=L)
    ST = t._States
    t._st_initialize()
    t._ray_set = rs.copy()
    t._generation_number = g
    t._st_propagate()
    S.ensure("then the rays interact", t._state == ST.INTERACT)
    t._st_interact()
    if S.is_(S.eq(g + 1, L)):
        S.ensure("the limit ends the trace", t._state == ST.FINISH)
    else:
        S.ensure("the count grows towards the limit", S.or_(t._state == ST.FINISH, S.and_(S.eq(t._generation_number, g + 1), S.lt(g + 1, L))))
    for ray in S.lanes(N, S.np.array(rs)):
        G = Ghost(S, comps, 1)
        ghost = G.run(ray)
        rows = records(S, t.get_results()) if S.symbolic else [r for r in (records(S, t.get_results(), ray[12]))]
        S.ensure("recorded exactly if it survives", len(rows) == len(ghost))
        for row, (r, d, s, hit) in zip(rows, ghost):
            S.ensure("the record is the step", veq(S, [row[c] for c in COLS[:12]], [g, r[9], r[10], r[11], r[12], s.ident] + r[:3] + hit[:3]))
        if S.symbolic:
            left = columns(S, t._ray_set)
            if t._state == ST.PROPAGATE:
                S.ensure("handed on exactly if it survives", len(left) == len(ghost))
                for q, (r, d, s, hit) in zip(left, ghost):
                    a = s.material.answer(G.met(s, hit))
                    o = S.const(OFFSET)
                    S.ensure("as its material left it, one generation on", veq(S, q, [a[i] + o * a[4 + i] for i in range(4)] + a[4:8] + [g + 1] + a[9:]))


@contract("P17", [], sym=False, conc=4)
def long_paths(S):
    """hundreds of generations between parallel mirrors: one record per ray and generation, counted from zero"""
    from .p18 import endless
    endless(S, (129, 258, 300))
