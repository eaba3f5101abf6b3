"""P20: pinned objects return to their starting pose."""
from vc.engine import contract
from .common import *
from .p09 import ok_axis, observe
from .p15 import TREES, placed, leaf, plain_boxes
from .p11 import solid

COVERS = ["pyrayt._pyrayt.pin.__init__", "pyrayt._pyrayt.pin.__enter__", "pyrayt._pyrayt.pin.__exit__", "tinygfx.g3d.world_objects.WorldObject.transform",
          "tinygfx.g3d.world_objects.WorldObject.get_world_transform"]
ASSUME = ["operations inside the block are applied to the pinned objects themselves; an object and a member of it are not pinned together",
          "np.linalg.inv returns the two-sided inverse (contract of the dependency)", "the poses passed through are not degenerate (P09)"]


class Stop(Exception):
    pass


EXC = [Stop, KeyError, ValueError, IndexError, TypeError, AttributeError, RuntimeError, ZeroDivisionError, StopIteration, AssertionError, KeyboardInterrupt, GeneratorExit, SystemExit,
       OSError, ArithmeticError, NotImplementedError, LookupError]


def within(S, pinned, how, work):
    """run work in a pin context, leaving it normally or by an exception -> whether an exception propagated as raised"""
    if how == "leaves normally":
        with S.R.pyrayt.pin(*pinned) as got:
            work()
        return list(got) == list(pinned)
    e = (Stop if S.symbolic else S.pick("exception", EXC))()
    try:
        with S.R.pyrayt.pin(*pinned):
            if how == "raises at once":
                raise e
            work()
            raise e
    except BaseException as x:
        if x is not e:
            raise
        return True
    return False


WAYS = ["leaves normally", "raises", "raises at once"]


@contract("P20", COVERS, merge=True, cases=[dict(tree=t) for t in sorted(TREES)], budget=150, bounded="pinned trees of up to three levels")
def one(S, tree):
    root, nodes = placed(S, tree)
    before = [S.np.array(n.get_world_transform()) for n in nodes]
    how = S.pick("way out", WAYS)
    B = S.matrix("B")
    op = A = None
    if S.flag("two operations"):
        name, op, A = pick_op(S, "op", ["move", "scale", "rotate_y", "transform"])

    def work():
        for b in before:
            ok_axis(S, S.np.matmul(B, b))
        root.transform(B)
        if op:
            for b in before:
                ok_axis(S, S.np.matmul(A, S.np.matmul(B, b)))
            op(root)

    for b in before:
        ok_axis(S, b)
    ok = within(S, [root], how, work)
    S.ensure("the context hands out the objects / the exception propagates", ok)
    for n, b in zip(nodes, before):
        observe(S, n, b, "as on entry: ")


@contract("P20", COVERS, merge=True, budget=150)
def several(S):
    """several pinned objects, each moved differently or not at all, nested contexts"""
    plain_boxes(S)
    a, b = leaf(S), S.R.comp.LineOfRays() if S.flag("source") else leaf(S)
    Ma, Mb = S.matrix("Ma"), S.matrix("Mb")
    ok_axis(S, Ma), ok_axis(S, Mb)
    a.transform(Ma), b.transform(Mb)
    Ma, Mb = S.np.array(a.get_world_transform()), S.np.array(b.get_world_transform())
    A, B = S.matrix("A"), S.matrix("B")
    for x in (S.np.matmul(A, Ma), S.np.matmul(B, Mb)):
        ok_axis(S, x)
    order = [a, b] if S.flag("order") else [b, a]
    nested = S.flag("nested contexts")
    how = S.pick("way out", WAYS[:2])

    def work():
        a.transform(A)
        if nested:
            mid = S.np.array(a.get_world_transform())
            S.ensure("inner context propagates", within(S, [b], "leaves normally", lambda: b.transform(B)))
            S.ensure("inner context restores its own object", S.same_array(b.get_world_transform(), Mb))
            S.ensure("inner context leaves the others", S.same_array(a.get_world_transform(), mid))
        elif S.flag("both"):
            b.transform(B)

    S.ensure("the context hands out the objects / the exception propagates", within(S, order, how, work))
    observe(S, a, Ma, "as on entry: ")
    observe(S, b, Mb, "as on entry: ")
    # still usable
    a.transform(A)
    observe(S, a, S.np.matmul(A, Ma), "moved after the context: ")


@contract("P20", COVERS, merge=True, budget=60)
def pinned_again(S):
    """a context object is good for more than one use, each restoring the pose of its own entry"""
    plain_boxes(S)
    a = leaf(S)
    M, A = S.matrix("M"), S.matrix("A")
    ok_axis(S, M), ok_axis(S, S.np.matmul(A, M)), ok_axis(S, A)
    c = S.R.pyrayt.pin(a)
    with c:
        a.transform(M)
    observe(S, a, S.np.identity(4), "first use: ")
    a.transform(M)
    with c:
        a.transform(A)
    observe(S, a, M, "second use: ")


@contract("P20", COVERS, merge=True, advisory=True, stubs=True, budget=60)
def any_depth(S):
    """induction over the nesting: whatever the members of a pinned object are, what it passes on to them when the block is left takes back all it
    passed on to them inside, so a member that is itself a combination restores its own members likewise"""
    plain_boxes(S)
    W, C = S.R.world, S.R.csg
    np = S.np
    log = {}

    class Member(W.Intersectable):
        bounding_box = bounding_volume = _aobb = property(lambda s: s.hull)

        def __init__(self):
            super().__init__()
            self.hull = S.R.prim.Cube()

        def intersect(self, rays): raise NotImplementedError

        def transform(self, m):
            log[id(self)] = np.matmul(m, log.get(id(self), np.identity(4)))
            return self

    a, b = Member(), Member()
    root = C.CSGSurface(a, b, C.Operation.DIFFERENCE) if S.flag("csg") else W.ObjectGroup([a, b])
    M, A = S.matrix("M"), S.matrix("A")
    for x in (M, A, np.matmul(A, M)):
        ok_axis(S, x)
    root.transform(M)
    log.clear()
    ok = within(S, [root], S.pick("way out", WAYS), lambda: root.transform(A))
    S.ensure("the context hands out the objects / the exception propagates", ok)
    for m in (a, b):
        S.ensure("each member has been taken back to where it was", S.same_array(log.get(id(m), np.identity(4)), np.identity(4)))


@contract("P20", [], sym=False, conc=150)
def solids(S):
    """derived state of the restored pose: boxes and hits of random combinations"""
    np = S.np
    o = solid(S, S.choice("depth", 4))
    for _ in range(S.choice("before", 3)):
        pick_op(S)[1](S.pick("who", o.nodes))
    nodes = [n for n in o.nodes]
    poses = [n.get_world_transform() for n in nodes]
    if any(np.linalg.cond(x) > 1e3 for x in poses):
        S.assume(False)
    boxes = [np.array(n.bounding_box.axis_spans) for n in nodes]
    rays = np.zeros((2, 4, 8))
    rays[0, 3] = 1
    rays[0, :3] = S.rng.uniform(-4, 4, (3, 8))
    for k in range(8):
        t = nodes[S.rng.randint(len(nodes))]
        rays[1, :, k] = t.get_world_transform() @ np.append(S.rng.uniform(-1, 1, 3), 1) - rays[0, :, k]
    h, i = o.intersect(rays)
    p = o if S.flag("itself") else S.R.world.ObjectGroup([o])

    def work():
        for _ in range(1 + S.choice("moves", 4)):
            pick_op(S, ops=["move", "scale", "rotate_x", "rotate_y", "move_z", "transform"])[1](p)
        p.get_world_transform(), o.bounding_box

    S.ensure("the exception propagates", within(S, [p], S.pick("way out", WAYS), work))
    for n, m, b in zip(nodes, poses, boxes):
        S.ensure("pose", np.allclose(n.get_world_transform(), m, atol=1e-6))
        S.ensure("box", np.allclose(n.bounding_box.axis_spans, b, atol=1e-5))
    h1, i1 = o.intersect(rays)
    for k in range(8):
        fin = [x[:, k][np.isfinite(x[:, k])] for x in (h, h1)]
        if any(len(f) > 1 and np.min(np.diff(f)) < 1e-3 for f in fin):
            continue
        S.ensure("hits", np.allclose(h[:, k], h1[:, k], atol=1e-5))
