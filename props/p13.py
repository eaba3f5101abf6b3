"""P13: combined hits are ordered, labelled with their surface and never culled (and, shared with P12, the stretches of a combined object)."""
from vc.engine import contract
from .common import *
from vc.rows import Rows, STEPS
from vc.sym import Unsupported
from .p12 import flips, OPS3, within, boolean, ascending, ts, COVERS as ARRAY
from .p11 import solid

COVERS = ["tinygfx.g3d.csg.CSGSurface.intersect", "tinygfx.g3d.csg.CSGSurface.__init__", "tinygfx.g3d.csg.CSGSurface.surface_ids"] + ARRAY
ASSUME = ["the members keep their own contract: ascending hits with an even number of rows, a function of the ray alone, labelled with the member's surfaces",
          "the bounding box is hit by every ray that crosses the solid (P07 for the box, P11 for what it encloses)",
          "decided for members with any number of hits per ray where the code is whole-array steps over the merged rows (vc/rows.py), otherwise for 2+2, 4+2, 2+4 (every order of the hits)"]


def hits_in_rays(S, rows, N, special):
    """A batch of rays whose members' hits are an arbitrary function of the ray: each ray carries its members' hits in its own coordinates, so a stub
    member can read them off whatever sub-batch it is given, and the stub box can tell whether the solid is hit."""
    slots = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)]
    rays = S.arr("ray", (2, 4), N)
    parts, i = [], 0
    for name, r in zip("lr", rows):
        part = slots[i:i + r]
        i += r
        k = S.choice(name + " finite pairs", r // 2 + 1)
        unb = S.choice(name + " unbounded", 4) if special and k == 1 else 0
        for j, (u, v) in enumerate(part):
            if j >= 2 * k or (j == 1 and unb & 2):
                rays[u, v] = S.inf
            elif j == 0 and unb & 1:
                rays[u, v] = -S.inf
        if not S.symbolic:
            rays[[u for u, v in part], [v for u, v in part]] = S.np.sort(rays[[u for u, v in part], [v for u, v in part]], axis=0)
        parts.append(part)
    for row in S.lanes(N, rays):
        for part in parts:
            S.assume(ascending(S, [row[u][v] for u, v in part]))
    return rays, parts


class Members:
    def __init__(self, S, op, parts, ids):
        np, box = S.np, S.R.prim.Cube
        W, C = S.R.world, S.R.csg
        self.calls = []

        class Box:
            """stands for the real box under its contract: finite on every ray that crosses the solid, anything on the others"""
            def __init__(self, *a, **k):
                self.axis_spans = np.array([[0., 1.], [0., 1.], [0., 1.]])
                self.bounding_points = np.ones((4, 8))

            def intersect(self, rays):
                rays = np.atleast_3d(rays)
                l, r = [[rays[u, v] for u, v in p] for p in parts]
                any_l = np.any(np.stack([x < np.inf for x in l]), axis=0)
                any_r = np.any(np.stack([x < np.inf for x in r]), axis=0)
                need = {"UNION": np.logical_or(any_l, any_r), "INTERSECT": np.logical_and(any_l, any_r), "DIFFERENCE": any_l}[op]
                hit = np.logical_or(need, rays[1, 3] > 0)
                h = np.where(hit, rays[1, 3], np.inf)
                return np.stack((h, h))

        class Member(W.Intersectable):
            bounding_box = bounding_volume = _aobb = property(lambda s: s.hull)

            def __init__(self, part, ids):
                super().__init__()
                self.part, self.ids = part, ids
                self.hull = Box()

            def intersect(self, rays):
                rays = np.atleast_3d(rays)
                h = np.stack([rays[u, v] for u, v in self.part])
                i = np.stack([np.full(rays.shape[-1], k) for k in self.ids])
                return h, i

            @property
            def surface_ids(self):
                return tuple((k, "surface %d" % k) for k in sorted(set(self.ids)))

        S.R.prim.Cube = Box
        try:
            self.l, self.r = Member(parts[0], ids[0]), Member(parts[1], ids[1])
            self.o = C.CSGSurface(self.l, self.r, getattr(C.Operation, op))
        finally:
            self.restore = lambda: setattr(S.R.prim, "Cube", box)


def any_combined(S, op):
    """CSGSurface.intersect on members with any number of hits per ray: the hits and labels of a generic row of either member are read off the ray, as above.
    Returns hits, labels, and the table entries (even and odd row of either member) of hits and labels."""
    N = S.N()
    rays = S.arr("ray", (2, 4), N)
    rays[1, 0], rays[1, 1] = [S.arr("id of " + n, (), N, int_=True) for n in "lr"]
    miss = S.pick("rows are", [None, S.inf, -S.inf])
    if miss is not None:
        rays[0] = miss
    half = [S.real("half the rows of " + n, lo=1, int_=True) for n in "lr"]
    C, W, np = S.R.csg, S.R.world, S.np
    hit = S.real("box")

    class Box:
        """stands for the real box: some rays hit it"""
        axis_spans = property(lambda s: np.array([[0., 1.], [0., 1.], [0., 1.]]))
        bounding_points = property(lambda s: np.ones((4, 8)))

        def __init__(self, *a, **k): pass

        def intersect(self, rays):
            rays = np.atleast_3d(rays)
            h = np.where(rays[1, 3] > hit, rays[1, 3], np.inf)
            return np.stack((h, h))

    class Member(W.Intersectable):
        bounding_box = bounding_volume = _aobb = property(lambda s: s.hull)

        def __init__(self, k):
            super().__init__()
            self.k, self.hull = k, Box()

        def intersect(self, rays):
            rays = np.atleast_3d(rays)
            h = Rows.block(half[self.k], np.stack((rays[0, 2 * self.k], rays[0, 2 * self.k + 1])), asc=True)
            return h, Rows.block(half[self.k], np.stack((rays[1, self.k], rays[1, self.k])), like=h)

        surface_ids = property(lambda s: ((s.k, "surface"),))

    box, S.R.prim.Cube = S.R.prim.Cube, Box
    try:
        o = C.CSGSurface(Member(0), Member(1), getattr(C.Operation, op))
    finally:
        S.R.prim.Cube = box
    r0 = np.array(rays)
    h, i = o.intersect(rays)
    if not (isinstance(h, Rows) and isinstance(i, Rows)):
        raise Unsupported("rows computed by other means")
    S.ensure("rays are not modified", S.same_array(rays, r0))
    for x in (h, i):
        S.ensure("one column per ray, as many rows as both", S.and_(x.ndim == 2, x.lane == rays.d[2], S.eq(x.n, 2 * half[0] + 2 * half[1])))
    S.ensure("ascending", h.asc and h.dom[0] in ("merged", "sorted"))
    S.ensure("hits and labels in the same order", h.dom == i.dom)
    for row, hh, ii in S.lanes(N, rays, h.table(), i.table()):
        reached = S.lt(hit, row[1][3])
        for j, (s, p) in enumerate(STEPS):
            # a ray that crosses the combination reaches its box
            stays = S.and_(flips(op, s, p), reached)
            yield hh[j], ii[j], stays, row[0][2 * p + s[p]], row[1][p]


@contract("P13", COVERS, cases=[dict(op=o) for o in OPS3], conc=0, advisory=True, stubs=True)
def any_rows(S, op):
    """members with any number of hits per ray, any number of rays"""
    for h, i, stays, hit, label in any_combined(S, op):
        if bool(stays):
            S.ensure("never culled: a row stays exactly if it changes membership", S.eqv(h, hit))
            if S.finite(hit):
                S.ensure("a finite hit carries the id of the surface at that distance", S.eq(i, label))
        else:
            S.ensure("never culled: a row stays exactly if it changes membership", S.eqv(h, S.inf))


def combined(S, op, m, n):
    N = S.N()
    rays, parts = hits_in_rays(S, (m, n), N, m + n == 4)
    ids = [[11, 70012, 11, 70012][:m], [16777221, 16777221, 22, 22][:n]]  # not held by fewer digits
    r0 = S.np.array(rays)
    M = Members(S, op, parts, ids)
    h, i = M.o.intersect(rays)
    M.restore()
    S.ensure("rays are not modified", S.same_array(rays, r0))
    S.ensure("one column per ray", S.shape_ok(h, (m + n, N)) and S.shape_ok(i, (m + n, N)))
    T = S.arr("t", (), N)
    for hh, ii, ray, t in S.lanes(N, h, i, rays, T):
        l, r = [[ray[u][v] for u, v in p] for p in parts]
        S.assume(S.and_(*[S.ne(t, x) for x in l + r if S.finite(x)]))
        yield hh, ii, l, r, ids, t


@contract("P13", COVERS, merge=True, cases=[dict(op=o, m=m, n=n) for o in OPS3 for m, n in ((2, 2), (4, 2), (2, 4))], budget=200, stubs=True,
          bounded="members with 2+2, 4+2, 2+4 hits per ray, every order of the hits, any number of rays")
def combination(S, op, m, n):
    for hh, ii, l, r, ids, t in combined(S, op, m, n):
        S.ensure("ascending", ascending(S, hh))
        S.ensure("never culled: inside exactly where the combination is", S.iff(within(S, hh, t), boolean(S, op, within(S, l, t), within(S, r, t))))
        for x, k in zip(hh, ii):
            if S.finite(x):
                S.ensure("a finite hit carries the id of the surface at that distance",
                         S.or_(*[S.and_(S.eq(x, y), S.eq(k, j)) for p, q in ((l, ids[0]), (r, ids[1])) for y, j in zip(p, q)]))


@contract("P13", COVERS, stubs=True)
def surfaces(S):
    """the surfaces of a combination are those of its members, nothing else"""
    W, C = S.R.world, S.R.csg
    leaves = [W.Sphere(1), W.Cuboid(), W.Cylinder(1)]
    op = getattr(C.Operation, S.pick("operation", OPS3))
    t = C.CSGSurface(C.CSGSurface(leaves[0], leaves[1], op), leaves[2], op) if S.flag("left") else C.CSGSurface(leaves[0], C.CSGSurface(leaves[1], leaves[2], op), op)
    S.ensure("every member surface under its own id, once", list(sorted(t.surface_ids, key=lambda e: e[0])) == sorted([(o.get_id(), o) for o in leaves], key=lambda e: e[0]))
    S.ensure("ids are distinct", len({k for k, _ in t.surface_ids}) == 3)


def check_solid(S, labels):
    """random trees of the library's shapes against membership along the rays"""
    np = S.np
    o = solid(S, S.choice("depth", 4))
    for _ in range(S.choice("operations", 3)):
        pick_op(S)[1](S.pick("who", o.nodes))
    for n in o.nodes:
        if np.linalg.cond(n.get_world_transform()) > 1e3:
            S.assume(False)
    N = int(S.rng.choice([1, 2, 7]))
    rays = np.zeros((2, 4, N))
    rays[0, 3] = 1
    rays[0, :3] = S.rng.uniform(-4, 4, (3, N))
    rays[1, :3] = S.rng.normal(size=(3, N))
    for k in range(N):
        q = S.rng.rand()
        if q < .6:
            tgt = o.nodes[S.rng.randint(len(o.nodes))]
            rays[1, :, k] = tgt.get_world_transform() @ np.append(S.rng.uniform(-1, 1, 3), 1) - rays[0, :, k]
        elif q < .8:
            rays[1, :3, k] = np.eye(3)[S.rng.randint(3)] * S.rng.choice([-1, 1])
        else:
            tgt = o.nodes[S.rng.randint(len(o.nodes))]
            rays[0, :, k] = tgt.get_world_transform() @ np.append(S.rng.uniform(-.5, .5, 3), 1)
    h, ids = o.intersect(rays)
    lut = dict(o.surface_ids)
    for k in range(N):
        ray, hk = rays[:, :, k], h[:, k]
        L = np.linalg.norm(ray[1])
        if L < 1e-2:
            continue
        S.ensure("ascending", all(a <= b for a, b in zip(hk, hk[1:])))
        fin = hk[np.isfinite(hk)]
        cand = list(S.rng.uniform(-8, 8, 30) / L)
        for a, b in zip(fin, fin[1:]):
            cand += [a + (b - a) * f for f in (.1, .5, .9)]
        for a in fin:
            cand += [a - .01 / L, a + .01 / L]
        for t in cand:
            v = o.member(ray[0] + t * ray[1])
            if abs(v) < 1e-4 or any(abs(t - a) * L < 1e-5 for a in fin):
                continue
            inside = any(a < t < b for a, b in zip(hk[::2], hk[1::2]))
            S.ensure("inside exactly where the combination is", inside == (v < 0))
        if labels:
            for x, i in zip(hk, ids[:, k]):
                if np.isfinite(x):
                    S.ensure("a finite hit carries the id of the surface at that distance", i in lut and abs(lut[i].member(ray[0] + x * ray[1])) < 1e-5)
    if N > 1 and labels:
        for k in range(N):
            h1, i1 = o.intersect(rays[:, :, k])
            S.ensure("the same hits for a ray alone", np.allclose(h1[:, 0], h[:, k], atol=1e-7) and np.all((i1[:, 0] == ids[:, k]) | ~np.isfinite(h[:, k])))


@contract("P13", [], sym=False, conc=300)
def trees(S):
    check_solid(S, True)
