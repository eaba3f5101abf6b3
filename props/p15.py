"""P15: members of a combination or group move with it as a rigid whole."""
from vc.engine import contract
from .common import *
from .p09 import ok_axis, observe
from .p11 import solid
from .trace import Visited

COVERS = ["tinygfx.g3d.world_objects.ObjectGroup.__init__", "tinygfx.g3d.world_objects.ObjectGroup._append_world_transform", "tinygfx.g3d.csg.CSGSurface._append_world_transform",
          "tinygfx.g3d.world_objects.WorldObject._append_world_transform", "tinygfx.g3d.csg.CSGSurface.__init__"]
ASSUME = ["that world rays see the moved solid follows with P10 and P12, which give the hits as a function of the members' current transforms",
          "an object is a member once"]


def plain_boxes(S):
    """bounding boxes are another property (P11): keep their numbers out of this one"""
    np = S.np

    class Box:
        def __init__(self, *a, **k):
            self.axis_spans = np.array([[0., 1.], [0., 1.], [0., 1.]])
            self.bounding_points = np.ones((4, 8))

        def intersect(self, rays):
            return np.zeros((2, np.atleast_3d(rays).shape[-1]))

    S.R.prim.Cube = Box


def leaf(S):
    class Prim:
        def __init__(self):
            self.bounding_points = S.np.ones((4, 2))

    class Surface(S.R.world.TracerSurface):
        surface = Prim
        def intersect(self, rays): raise NotImplementedError

    return Surface(surface_args=())


# how to build a tree from three leaves: -> (root, all nodes)
def _csg(S, a, b):
    o = S.R.csg.CSGSurface(a, b, getattr(S.R.csg.Operation, S.pick("operation", ["UNION", "DIFFERENCE"])))
    o.ghost_members = [a, b]
    return o


def _group(S, *m):
    o = S.R.world.ObjectGroup(list(m))
    o.ghost_members = list(m)
    return o


TREES = {
    "csg": lambda S, a, b, c: (lambda r: (r, [r, a, b]))(_csg(S, a, b)),
    "csg of csg, left": lambda S, a, b, c: (lambda n: (lambda r: (r, [r, n, a, b, c]))(_csg(S, n, c)))(_csg(S, a, b)),
    "csg of csg, right": lambda S, a, b, c: (lambda n: (lambda r: (r, [r, n, a, b, c]))(_csg(S, a, n)))(_csg(S, b, c)),
    "group": lambda S, a, b, c: (lambda r: (r, [r, a, b, c]))(_group(S, a, b, c)),
    "group of csg": lambda S, a, b, c: (lambda n: (lambda r: (r, [r, n, a, b, c]))(_group(S, n, c)))(_csg(S, a, b)),
    "group of group": lambda S, a, b, c: (lambda n: (lambda r: (r, [r, n, a, b, c]))(_group(S, a, n)))(_group(S, b, c)),
    "group of group of csg": lambda S, a, b, c: (lambda m: (lambda n: (lambda r: (r, [r, n, m, a, b, c]))(_group(S, n)))(_group(S, m, c)))(_csg(S, a, b)),
    "group extended later": lambda S, a, b, c: (lambda r: (r.append(b), r.extend([c]), r.ghost_members.extend([b, c]), (r, [r, a, b, c]))[-1])(_group(S, a)),
    "group with a source": lambda S, a, b, c: (lambda s: (lambda r: (r, [r, s, a]))(_group(S, a, s)))(S.R.comp.LineOfRays()),
}


def placed(S, tree):
    """the tree with every leaf, and then the root, at an arbitrary place"""
    plain_boxes(S)
    leaves = [leaf(S) for _ in range(3)]
    for i, o in enumerate(leaves[:2]):
        M = S.matrix("M%d" % i)
        ok_axis(S, M)
        o.transform(M)
    root, nodes = TREES[tree](S, *leaves)
    return root, nodes


@contract("P15", COVERS, merge=True, cases=[dict(tree=t) for t in sorted(TREES)], budget=100, bounded="trees of up to three levels")
def rigid(S, tree):
    root, nodes = placed(S, tree)
    if S.flag("moved as a whole before"):
        B = S.matrix("B")
        for n in nodes:
            ok_axis(S, S.np.matmul(B, n.get_world_transform()))
        root.transform(B)
    before = [S.np.array(n.get_world_transform()) for n in nodes]
    name, op, A = pick_op(S)
    for b in before:
        ok_axis(S, S.np.matmul(A, b))
    r = op(root)
    S.ensure("operations can be chained", r is root)
    for n, b in zip(nodes, before):
        observe(S, n, S.np.matmul(A, b), "%s applied once to every member: " % name)


@contract("P15", COVERS, merge=True, cases=[dict(tree=t) for t in sorted(TREES)], budget=100, bounded="trees of up to three levels")
def member_alone(S, tree):
    root, nodes = placed(S, tree)
    k = S.choice("member", len(nodes))
    n = nodes[k]
    below = {id(n)}
    stack = [n]
    while stack:
        x = stack.pop()
        for y in getattr(x, "ghost_members", []):
            below.add(id(y))
            stack.append(y)
    before = [S.np.array(x.get_world_transform()) for x in nodes]
    A = S.matrix("A")
    for b in before:
        ok_axis(S, S.np.matmul(A, b))
    n.transform(A)
    for x, b in zip(nodes, before):
        S.ensure("only the member, and what belongs to it, moves", S.same_array(x.get_world_transform(), S.np.matmul(A, b) if id(x) in below else b))


@contract("P15", COVERS, merge=True, advisory=True, stubs=True)
def any_depth(S):
    """induction over the nesting: whatever the members are, each is given exactly the same operation once"""
    plain_boxes(S)
    W, C = S.R.world, S.R.csg
    log = []

    class Member(W.Intersectable):
        bounding_box = bounding_volume = _aobb = property(lambda s: s.hull)
        def __init__(self):
            super().__init__()
            self.hull = S.R.prim.Cube()
        def intersect(self, rays): raise NotImplementedError
        def transform(self, m):
            log.append((self, m))
            return self

    a, b = Member(), Member()
    root = C.CSGSurface(a, b, C.Operation.UNION) if S.flag("csg") else W.ObjectGroup([a, b])
    name, op, A = pick_op(S)
    ok_axis(S, A)
    op(root)
    S.ensure("every member once", len(log) == 2 and {id(x) for x, _ in log} == {id(a), id(b)})
    for x, m in log:
        S.ensure("the same operation", S.same_array(m, A))


@contract("P15", COVERS, merge=True, advisory=True)
def any_members(S):
    """induction over the number of members of a group: the loop over them carries nothing from one to the next, so any number of them are
    each given what two are given"""
    a, b = leaf(S), leaf(S)
    g = S.R.world.ObjectGroup([a, b])
    g.data = Visited(S, [a, b])
    before = [S.np.array(x.get_world_transform()) for x in (a, b, g)]
    A = S.matrix("A")
    for x in before:
        ok_axis(S, S.np.matmul(A, x))
    g.transform(A)
    S.ensure("every member is visited, and nothing is carried over", len(g.data.notes) > 0 and not any(n for _, n in g.data.notes))
    for x, m in zip((a, b, g), before):
        S.ensure("the same operation", S.same_array(x.get_world_transform(), S.np.matmul(A, m)))


@contract("P15", [], sym=False, conc=25)
def wide_groups(S):
    """groups of up to hundreds of members, some of them groups or combinations themselves: everything moves along once"""
    np, W = S.np, S.R.world
    leaves, nodes = [], []

    def member(depth):
        if depth and S.rng.rand() < .05:
            return group(depth - 1, S.rng.choice([0, 1, 2, 5]))
        if S.rng.rand() < .1:
            a, b = solid(S, 0), solid(S, 0)
            leaves.extend([a, b])
            o = S.R.csg.CSGSurface(a, b, S.pick("operation", list(S.R.csg.Operation)))
        else:
            o = solid(S, 0)
            leaves.append(o)
        nodes.append(o)
        return o

    def group(depth, n):
        how = S.pick("filled", ["at once", "appended", "extended", "inserted"])
        m = [member(depth) for _ in range(n)]
        g = W.ObjectGroup(m) if how == "at once" else W.ObjectGroup()
        if how == "appended":
            for x in m:
                g.append(x)
        elif how == "extended":
            g.extend(m)
        elif how == "inserted":
            for x in m:
                g.insert(S.rng.randint(len(g) + 1), x)
        nodes.append(g)
        return g
    g = group(2, int(S.rng.choice([3, 20, 70, 150, 300])))
    for x in leaves[:5]:
        pick_op(S)[1](x)
    every = {id(x): x for x in leaves + nodes}.values()
    before = [np.array(x.get_world_transform()) for x in every]
    name, op, A = pick_op(S)
    op(g)
    for x, b in zip(every, before):
        S.ensure("every member is carried along once", np.allclose(x.get_world_transform(), np.matmul(A, b), atol=1e-9, rtol=1e-9))


@contract("P15", [], sym=False, conc=200)
def solids_move(S):
    """random combinations: hits of moved rays on the moved solid are the hits of the original"""
    np = S.np
    o = solid(S, S.choice("depth", 4))
    for _ in range(S.choice("before", 3)):
        pick_op(S)[1](o)
    g = S.R.world.ObjectGroup([o]) if S.flag("grouped") else None
    rays = np.zeros((2, 4, 8))
    rays[0, 3] = 1
    rays[0, :3] = S.rng.uniform(-4, 4, (3, 8))
    for k in range(8):
        t = o.nodes[S.rng.randint(len(o.nodes))]
        rays[1, :, k] = t.get_world_transform() @ np.append(S.rng.uniform(-1, 1, 3), 1) - rays[0, :, k]
    h, i = o.intersect(rays)
    name, op, A = pick_op(S)
    op(g if g is not None else o)
    if np.linalg.cond(o.get_world_transform()) > 1e3 or any(np.linalg.cond(n.get_world_transform()) > 1e3 for n in o.nodes):
        S.assume(False)
    h1, i1 = o.intersect(np.matmul(A, rays))
    for k in range(8):
        fin = h[:, k][np.isfinite(h[:, k])]
        if len(fin) > 1 and np.min(np.diff(fin)) < 1e-3:
            continue        # grazing
        if len(fin) == 0 and np.isfinite(h1[:, k]).any() and np.min(np.diff(h1[:, k][np.isfinite(h1[:, k])])) < 1e-3:
            continue
        S.ensure("moved rays see the moved solid", np.allclose(h[:, k], h1[:, k], atol=1e-5, rtol=1e-5))
        S.ensure("and the same surfaces", all(a == b for a, b, x in zip(i[:, k], i1[:, k], h[:, k]) if np.isfinite(x)))
