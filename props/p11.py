"""P11: bounding boxes enclose their shape after any history."""
from vc.engine import contract
from .common import *
from .p09 import ok_axis
from .p10 import SHAPES as SOLIDS

COVERS = ["tinygfx.g3d.world_objects.bounding_box", "tinygfx.g3d.world_objects.TracerSurface.__init__", "tinygfx.g3d.world_objects.TracerSurface._boundary_box_update_fn",
          "tinygfx.g3d.primitives._corners_to_cube_points", "tinygfx.g3d.primitives.Cube.__init__"]
CSG = ["tinygfx.g3d.csg.CSGSurface.__init__", "tinygfx.g3d.csg.CSGSurface._update_bounding_box", "tinygfx.g3d.csg.array_csg",
       "tinygfx.g3d.world_objects.Intersectable.attach_to", "tinygfx.g3d.world_objects.WorldObject._run_watchlist"]

# constructor arguments, what is known of a point of the solid, and ghost bounds of its coordinates
SHAPES = {}


def shape(f):
    SHAPES[f.__name__] = f
    return f


@shape
def Sphere(S):
    p = S.tolist(S.point('p'))
    r = S.real("radius", pos=True)
    S.assume(S.le(S.dot(p[:3], p[:3]), r * r))
    return p, (r,), [(-r, r)] * 3, [(r * r - p[i] * p[i], p[i], r) for i in range(3)]


@shape
def Cylinder(S):
    p = S.tolist(S.point('p'))
    r, lo, l = S.real("radius", pos=True), S.real("lo"), S.real("len", pos=True)
    S.assume(S.le(p[0] * p[0] + p[1] * p[1], r * r))
    S.assume(S.and_(S.le(lo, p[2]), S.le(p[2], lo + l)))
    return p, (r, lo, lo + l), [(-r, r), (-r, r), (lo, lo + l)], [(0, p[i], r) for i in range(2)]


@shape
def Paraboloid(S):
    p = S.tolist(S.point('p'))
    f, h = S.real("focus", pos=True), S.real("height", pos=True)
    S.assume(S.le(p[0] * p[0] + p[1] * p[1], 4 * f * p[2]))
    S.assume(S.le(p[2], h))
    S.assume(S.le(0, p[2]))
    R = S.sqrt(4 * f * h)
    S.lemma("below the rim's height", S.le(4 * f * p[2], 4 * f * h))
    return p, (f, h), [(-R, R), (-R, R), (0, h)], [(0, p[i], R) for i in range(2)]


@shape
def Cuboid(S):
    lo, sz = [S.real("lo%d" % i) for i in range(3)], [S.real("size%d" % i, pos=True) for i in range(3)]
    hi = [a + b for a, b in zip(lo, sz)]
    p = [S.between("p[%d]" % i, lo[i], hi[i]) for i in range(3)] + [1]
    a, b = list(lo), list(hi)
    k = S.choice("corner order", 3)
    if k:
        a[k], b[k] = b[k], a[k]
        if k == 2:
            a[0], b[0] = b[0], a[0]
    return p, (tuple(a), tuple(b)), list(zip(lo, hi)), []


@shape
def XYPlane(S):
    w, l = S.real("width", pos=True), S.real("length", pos=True)
    a, b = S.div(w, 2), S.div(l, 2)
    p = [S.between("p[0]", -a, a), S.between("p[1]", -b, b), S.const(0), 1]
    return p, (w, l), [(-a, a), (-b, b), (0, 0)], []


def encloses(S, name, o, p):
    for box in (o.bounding_box, o.bounding_volume):
        sp = S.tolist(box.axis_spans)
        S.ensure(name, S.and_(*[S.and_(S.le(sp[i][0], p[i]), S.le(p[i], sp[i][1])) for i in range(3)]))


@contract("P11", COVERS, cases=[dict(shape=s) for s in sorted(SHAPES)], merge=True)
def untransformed(S, shape):
    p, args, ghost, sq = SHAPES[shape](S)
    for gap, x, r in sq:
        # x*x <= r*r with r > 0
        S.lemma("no further out than the radius", S.and_(S.le(x, r), S.le(-r, x)))
    o = getattr(S.R.world, shape)(*args)
    encloses(S, "the box contains every point of the shape", o, p)


@contract("P11", COVERS, cases=[dict(shape=s) for s in sorted(SHAPES)], merge=True, budget=200)
def transformed(S, shape):
    """every point of the shape, in world space, after a transform of any kind (and, for the pose history, P09)"""
    p, args, ghost, sq = SHAPES[shape](S)
    for gap, x, r in sq:
        S.lemma("no further out than the radius", S.and_(S.le(x, r), S.le(-r, x)))
    o = getattr(S.R.world, shape)(*args)
    M = S.matrix("M")
    ok_axis(S, M)
    o.transform(M)
    m = S.tolist(M)
    k = S.choice("world axis", 3)
    row = m[k]
    up = dn = row[3]
    for i in range(3):
        lo, hi = ghost[i]
        a, b = (lo, hi) if S.is_(S.le(0, row[i])) else (hi, lo)
        if S.is_(S.le(0, row[i])):
            S.lemma("how far from the side", S.and_(S.le(0, row[i] * (hi - p[i])), S.le(0, row[i] * (p[i] - lo))))
        else:
            S.lemma("how far from the side", S.and_(S.le(row[i] * (hi - p[i]), 0), S.le(row[i] * (p[i] - lo), 0)))
        up, dn = up + row[i] * b, dn + row[i] * a
    x = S.dot(row, p)
    S.lemma("between two corners", S.and_(S.le(dn, x), S.le(x, up)))
    sp = S.tolist(o.bounding_box.axis_spans)
    S.ensure("the box contains every point of the transformed shape", S.and_(S.le(sp[k][0], x), S.le(x, sp[k][1])))


@contract("P11", COVERS, merge=True, budget=120)
def history(S):
    """the box is that of the current transform, whatever was done before"""
    corners = [S.tolist(S.point("corner%d" % i)) for i in range(2)]

    class Prim:
        def __init__(self):
            self.bounding_points = S.array([[corners[j][i] for j in range(2)] for i in range(4)])

    class Surface(S.R.world.TracerSurface):
        surface = Prim
        def intersect(self, rays): raise NotImplementedError

    o, q = Surface(surface_args=()), Surface(surface_args=())
    M = S.matrix("M")
    ok_axis(S, M)
    o.transform(M)
    if S.flag("read"):
        o.bounding_box
    name, op, A = pick_op(S)
    W = S.np.matmul(A, M)
    ok_axis(S, W)
    op(o)
    b = S.tolist(o.bounding_box.axis_spans)
    pts = S.tolist(S.np.matmul(W, S.array([[corners[j][i] for j in range(2)] for i in range(4)])))
    for i in range(3):
        for j in range(2):
            S.ensure("the box contains the image of every bounding point", S.and_(S.le(b[i][0], pts[i][j]), S.le(pts[i][j], b[i][1])))


# ------------------------------------------------------------------ combinations
class StubBox:
    """an Intersectable that keeps its own contract: its box contains its points, and it runs its watch list after every change"""
    def __new__(cls, S, name, axes=3, around=None):
        class Child(S.R.world.Intersectable):
            bounding_box = bounding_volume = _aobb = property(lambda s: s.hull)

            def intersect(self, rays): raise NotImplementedError

            def change(self, name, axes=3):
                if around:
                    self.box = [(x - S.real("%s.below%d" % (name, i), pos=True), x + S.real("%s.above%d" % (name, i), pos=True)) for i, x in enumerate(around)]
                else:
                    # along the other axes the unit interval
                    lo = [S.real("%s.lo%d" % (name, i)) if i < axes else 0 for i in range(3)]
                    self.box = [(a, a + S.real("%s.len%d" % (name, i), pos=True) if i < axes else 1) for i, a in enumerate(lo)]
                self.hull = S.R.prim.Cube([a for a, _ in self.box], [b for _, b in self.box])

        c = Child()
        c.change(name, axes)
        return c


@contract("P11", CSG, merge=True, cases=[dict(op=o) for o in ("UNION", "INTERSECT", "DIFFERENCE")], budget=200)
def combination(S, op):
    """whatever the members' boxes are, the box of the combination contains every point it has"""
    # the members' solids are arbitrary subsets of their boxes
    if op == "INTERSECT":
        # interior points of both (boxes that merely touch have no common interior)
        p = [S.real("p[%d]" % i) for i in range(3)]
        a, b = StubBox(S, "a", around=p), StubBox(S, "b", around=p)
    else:
        a, b = StubBox(S, "a"), StubBox(S, "b")
        o = b if op == "UNION" and S.flag("in B") else a
        p = [S.between("p[%d]" % i, *o.box[i]) for i in range(3)]
    c = S.R.csg.CSGSurface(a, b, getattr(S.R.csg.Operation, op))
    encloses(S, "the box contains every point of the combination", c, p)


@contract("P11", CSG, merge=True, budget=200)
def propagation(S):
    """a change of a member reaches the boxes of the combination and of everything above it; with a member's own contract (its box is right when
    its watch list runs) this is the induction step over the nesting depth: the combination's box is right when its own watch list runs"""
    C = S.R.csg
    a, b, q = StubBox(S, "a", 1), StubBox(S, "b", 1), StubBox(S, "q", 1)
    n = C.CSGSurface(a, b, C.Operation.UNION)
    log = []

    watcher = S.R.world.WorldObject()
    watcher.var_watchlist.append(lambda: log.append(n.bounding_box))
    n.attach_to(watcher)
    r = C.CSGSurface(q, n, C.Operation.UNION) if S.flag("nested on the right") else C.CSGSurface(n, q, C.Operation.UNION)
    w = S.pick("changed", [a, b, q])
    w.change("later", 1)
    w.transform(S.np.identity(4))
    p = [S.between("p[%d]" % i, *w.box[i]) for i in range(3)]
    encloses(S, "the outer box follows", r, p)
    if w is not q:
        encloses(S, "the inner box follows", n, p)
        S.ensure("watchers see the new box", bool(log) and all(S.is_(S.same_array(x.axis_spans, n.bounding_box.axis_spans)) for x in log[-1:]))


def solid(S, depth, full=False, ops=("UNION", "INTERSECT", "DIFFERENCE")):
    """a random combination of library shapes, with a membership function in terms of the current poses"""
    W = S.R.world
    if depth == 0 or not full and S.choice("leaf", 4) == 0:
        name = S.pick("shape", sorted(SOLIDS))
        mk, f = SOLIDS[name]
        a = mk(S)
        o = getattr(W, name)(*a)
        o.member = lambda p: f(S, a, S.np.matmul(S.np.linalg.inv(o.get_world_transform()), p))
        o.nodes = [o]
        return o
    l, r = solid(S, depth - 1, full, ops), solid(S, depth - 1, full, ops)
    if S.flag("moved before"):
        pick_op(S)[1](S.pick("who", l.nodes + r.nodes))
    return combine(S, l, r, ops)


def combine(S, l, r, ops):
    op = S.pick("operation", list(ops))
    o = S.R.csg.CSGSurface(l, r, getattr(S.R.csg.Operation, op))
    o.member = {"UNION": lambda p: min(l.member(p), r.member(p)), "INTERSECT": lambda p: max(l.member(p), r.member(p)),
                "DIFFERENCE": lambda p: max(l.member(p), -r.member(p))}[op]
    o.nodes = [o] + l.nodes + r.nodes
    return o


def enclosed(S, nodes):
    """points in and around every leaf: each node's box contains those the node has"""
    for n in nodes:
        if S.np.linalg.cond(n.get_world_transform()) > 1e4:
            S.assume(False)
    pts = [S.np.append(S.rng.uniform(-5, 5, 3), 1) for _ in range(8)]
    for n in nodes:
        if len(n.nodes) == 1:
            b = n.primitive.bounding_points[:3]
            lo, hi = S.np.min(b, axis=1), S.np.max(b, axis=1)
            for k in range(10):
                f = S.rng.rand(3) if k < 4 else S.rng.choice([.001, .5, .999], 3)
                pts.append(n.get_world_transform() @ S.np.append(lo + f * (hi - lo), 1))
    for p in pts:
        for n in nodes:
            if n.member(p) < -1e-7:
                sp = n.bounding_box.axis_spans
                for i in range(3):
                    S.ensure("the box contains every point of the solid", sp[i][0] - 1e-7 <= p[i] <= sp[i][1] + 1e-7)


@contract("P11", [], sym=False, conc=150)
def trees(S):
    """random trees of the library's shapes, any node moved at any time"""
    full = S.choice("full", 3) == 0
    ops = ("UNION",) if S.flag("unions only") else ("UNION", "INTERSECT", "DIFFERENCE")
    o = solid(S, S.choice("depth", 4) if not full else S.pick("depth", [2, 3]), full, ops)
    for _ in range(S.choice("operations", 4)):
        pick_op(S)[1](S.pick("who", o.nodes))
        if S.flag("look in between"):
            enclosed(S, o.nodes)
    enclosed(S, o.nodes)


@contract("P11", [], sym=False, conc=60)
def shared_member(S):
    """a shape that is a member of several combinations (of one another, or side by side): every box follows it"""
    leaf = solid(S, 0)
    tops = []
    for _ in range(S.pick("combinations", [2, 3, 4, 5, 7])):
        other = solid(S, 0)
        tops.append(combine(S, *((leaf, other) if S.flag("first") else (other, leaf)), ("UNION", "UNION", "INTERSECT", "DIFFERENCE")))
    for _ in range(1 + S.choice("operations", 2)):
        pick_op(S)[1](leaf)
    for t in tops:
        enclosed(S, t.nodes)
