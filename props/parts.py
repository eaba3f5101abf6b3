"""Ghost geometry of the part builders: the real builders, the real scene objects with their real transforms and combinations run on primitives of
which only the contract is known (which points a primitive contains, P06-P08; which points a combination contains, P12/P13), so that which points the
finished part contains becomes a statement about the builder alone.  Concretely the part is probed by the hits of rays sent through it."""
from .common import *


def ghost_world(S):
    """replace the primitives by their contracts (symbolic evaluation only; the concrete one uses the library's own)"""
    if not S.symbolic:
        return
    np, W, C = S.np, S.R.world, S.R.csg

    class Ghost:
        def __init__(self, *args, **kw):
            self.args(*args, **kw)
            self.bounding_points = np.ones((4, 2))

        def invert_normals(self): raise NotImplementedError

    class Sphere(Ghost):
        def args(self, radius=1): self.r = S.num(radius)
        def levels(self, q): return [q[0] * q[0] + q[1] * q[1] + q[2] * q[2] - self.r * self.r]

    class Cylinder(Ghost):
        def args(self, radius=1, min_height=-1, max_height=1, capped=True):
            self.r, self.lo, self.hi = S.num(radius), S.num(min_height), S.num(max_height)
            assert capped
            S.ensure("the cylinder's radius is positive and its heights in order", S.and_(S.lt(0, self.r), S.le(self.lo, self.hi)))

        def levels(self, q): return [q[0] * q[0] + q[1] * q[1] - self.r * self.r, q[2] - self.hi, self.lo - q[2]]

    class Cuboid(Ghost):
        def args(self, min_corner=(-1, -1, -1), max_corner=(1, 1, 1)):
            self.lo, self.hi = [[S.num(c[i]) for i in range(3)] for c in (min_corner, max_corner)]
            for i in range(3):
                if S.is_(S.lt(self.hi[i], self.lo[i])):
                    self.lo[i], self.hi[i] = self.hi[i], self.lo[i]

        def levels(self, q): return [q[i] - self.hi[i] for i in range(3)] + [self.lo[i] - q[i] for i in range(3)]

    class Paraboloid(Ghost):
        def args(self, focus=1, height=1):
            self.f, self.h = S.num(focus), S.num(height)
            S.ensure("the paraboloid's focus and height are positive", S.and_(S.lt(0, self.f), S.lt(0, self.h)))

        def levels(self, q): return [q[0] * q[0] + q[1] * q[1] - 4 * self.f * q[2], q[2] - self.h]

    class Plane(Ghost):
        def args(self, width=2, length=2): self.w, self.l = S.num(width), S.num(length)
        def levels(self, q): return [q[2], -q[2], q[0] - S.div(self.w, 2), -q[0] - S.div(self.w, 2), q[1] - S.div(self.l, 2), -q[1] - S.div(self.l, 2)]

    for name, g in (("Sphere", Sphere), ("Cylinder", Cylinder), ("Cuboid", Cuboid), ("Paraboloid", Paraboloid), ("XYPlane", Plane)):
        getattr(W, name).surface = g

    class Box:
        """bounding boxes are P11's"""
        def __init__(self, *a, **k):
            self.axis_spans = np.array([[0., 1.], [0., 1.], [0., 1.]])
            self.bounding_points = np.ones((4, 8))

    S.R.prim.Cube = Box
    init = C.CSGSurface.__init__

    def remember(self, l, r, op, *a, **k):
        self.ghost_members = (l, r, op.name)
        init(self, l, r, op, *a, **k)

    C.CSGSurface.__init__ = remember


def local(S, o, p):
    return [c[0] for c in S.tolist(o.to_object_coordinates(S.array([[x] for x in p] + [[1]])))]


def leaves(o):
    if hasattr(o, "ghost_members"):
        l, r, _ = o.ghost_members
        return leaves(l) + leaves(r)
    return [o]


class Probe:
    """the part at the point p"""

    def __init__(self, S, part, p):
        self.S, self.part, self.p = S, part, p
        self.lv = {}
        if S.symbolic:
            for o in leaves(part):
                self.lv[id(o)] = o.primitive.levels(local(S, o, p))

    def generic(self):
        """assume the point on no surface"""
        S = self.S
        for l in self.lv.values():
            for v in l:
                S.assume(S.ne(v, 0))

    def contains(self, o=None):
        S = self.S
        if not S.symbolic:
            return probe(S, self.part, self.p)
        o = self.part if o is None else o
        if hasattr(o, "ghost_members"):
            l, r, op = o.ghost_members
            l, r = self.contains(l), self.contains(r)
            return {"UNION": S.or_(l, r), "INTERSECT": S.and_(l, r), "DIFFERENCE": S.and_(l, S.not_(r))}[op]
        return S.and_(*[S.lt(v, 0) for v in self.lv[id(o)]])


    def on_sheet(self, o=None):
        """is the point part of a sheet without thickness? (what is cut from a sheet is generic: the point is on none of its surfaces)"""
        S = self.S
        o = self.part if o is None else o
        if hasattr(o, "ghost_members"):
            l, r, op = o.ghost_members
            assert op == "DIFFERENCE"
            for q in leaves(r):
                for v in self.lv[id(q)]:
                    S.assume(S.ne(v, 0))
            return S.and_(self.on_sheet(l), S.not_(self.contains(r)))
        return S.and_(*[S.le(v, 0) for v in self.lv[id(o)]])


def probe(S, part, p, directions=3):
    """is p inside? decided by the number of hits ahead along random directions"""
    np = S.np
    votes = 0
    for _ in range(directions):
        rays = np.zeros((2, 4, 1))
        rays[0, :, 0] = list(p) + [1]
        d = S.rng.normal(size=3)
        rays[1, :3, 0] = d / np.linalg.norm(d)
        h = part.intersect(rays)[0][:, 0]
        if np.any(np.isnan(h)):
            return False
        votes += int(np.sum((h > 0) & np.isfinite(h))) % 2
    return votes * 2 > directions


def crossing(S, part, p, want, directions=3):
    """is the sheet at p? decided by whether a ray through p is hit there"""
    np = S.np
    for _ in range(directions):
        d = S.rng.normal(size=3)
        d[0] = S.rng.choice([-1, 1]) * (.2 + abs(d[0]))
        d /= np.linalg.norm(d)
        b = S.rng.uniform(.5, 5)
        rays = np.zeros((2, 4, 1))
        rays[0, :3, 0], rays[0, 3, 0], rays[1, :3, 0] = np.array(p, dtype=float) - b * d, 1, d
        h = part.intersect(rays)[0][:, 0]
        at = bool(np.any(np.isfinite(h) & (np.abs(h - b) < 1e-6)))
        S.ensure("hit where the sheet is, and nowhere else", S.iff(at, want))


# ------------------------------------------------------------------ apertures
KINDS = ("circle", "rectangle", "ellipse")


class Aperture:
    """an aperture argument of some kind with its documented meaning"""

    def __init__(self, S, kind):
        self.S, self.kind = S, kind
        a = S.real("aperture y", pos=True)
        if kind == "circle":
            self.arg, self.a, self.b = a, S.div(a, 2), S.div(a, 2)
            self.h, self.h2 = self.a, self.a * self.a
        else:
            b = S.real("aperture z", pos=True)
            self.a, self.b = S.div(a, 2), S.div(b, 2)
            self.arg = (a, b) if kind == "rectangle" else (-a, -b)
            self.h, self.h2 = None, self.a * self.a + self.b * self.b
            if kind == "ellipse":
                m = self.a if S.is_(S.le(self.b, self.a)) else self.b
                self.h, self.h2 = m, m * m
        if S.flag("as a list") and kind != "circle":
            self.arg = list(self.arg)

    def edges(self, y, z):
        """expressions negative inside, zero on the rim"""
        S, a, b = self.S, self.a, self.b
        if self.kind == "rectangle":
            return [y - a, -y - a, z - b, -z - b]
        if self.kind == "circle":
            return [y * y + z * z - a * a]
        return [y * y * b * b + z * z * a * a - a * a * b * b]

    def contains(self, y, z):
        return self.S.and_(*[self.S.lt(e, 0) for e in self.edges(y, z)])

    def point(self):
        """an arbitrary place in the yz-plane, drawn from around the aperture"""
        S = self.S
        if S.symbolic:
            return S.real("y"), S.real("z")
        return S.real("y", lo=-1.5 * self.a, hi=1.5 * self.a), S.real("z", lo=-1.5 * self.b, hi=1.5 * self.b)


def material_of(S, part, m):
    """every surface of the part carries the material m"""
    s = part.surface_ids
    S.ensure("every surface carries the requested material", len(s) > 0 and all(o.material is m for _, o in s))
