"""P09: an object's pose is always the product of the operations applied to it."""
from vc.engine import contract
from .common import *

COVERS = ["tinygfx.g3d.world_objects.WorldObject." + f for f in (
    "__init__", "_append_world_transform", "_run_watchlist", "_world_matrix_update_handler", "get_position", "get_orientation", "get_world_transform",
    "_get_object_transform", "get_object_transform", "to_object_coordinates", "to_world_coordinates", "move", "move_x", "move_y", "move_z", "scale", "scale_x",
    "scale_y", "scale_z", "scale_all", "rotate_x", "rotate_y", "rotate_z", "transform", "_sin_cos", "_transfer_matrix")]
ASSUME = ["the image of the local z-axis is at least 1e-6 long (the code rejects shorter ones)", "np.linalg.inv returns the two-sided inverse (contract of the dependency)",
          "transforms are affine and invertible"]


def ok_axis(S, W):
    """the code refuses poses that shrink the z-axis below 1e-7"""
    z = [S.tolist(W)[i][2] for i in range(3)]
    S.assume(S.lt(S.const("0.000000000001"), S.dot(z, z)))


def observe(S, o, W, what=""):
    """every public reading of the pose agrees with the world transform W"""
    np = S.np
    S.ensure(what + "world transform is the product of the operations", S.same_array(o.get_world_transform(), W))
    inv = o.get_object_transform()
    S.ensure(what + "object transform is its inverse", S.same_array(inv, np.linalg.inv(W)))
    w = S.tolist(W)
    pos, d = S.tolist(o.get_position()), S.tolist(o.get_orientation())
    S.ensure(what + "position is the image of the local origin", S.and_(*[S.eq(pos[i], w[i][3]) for i in range(4)]))
    l = S.sqrt(w[0][2] * w[0][2] + w[1][2] * w[1][2] + w[2][2] * w[2][2])
    S.ensure(what + "orientation is the unit image of the local z-axis", S.and_(*[S.eq(d[i], S.div(w[i][2], l)) for i in range(3)], S.eq(d[3], 0)))


def read(o):
    o.get_world_transform(), o.get_object_transform(), o.get_position(), o.get_orientation()


@contract("P09", COVERS)
def fresh(S):
    o = S.R.world.WorldObject()
    observe(S, o, S.np.identity(4))


@contract("P09", COVERS, budget=200)
def history(S):
    """transform, then any operation, then another transform, with readings anywhere in between"""
    o = S.R.world.WorldObject()
    M0 = S.matrix("M0")
    ok_axis(S, M0)
    early, mid = S.flag("read before"), S.flag("read between")
    if early:
        read(o)
    r = o.transform(M0)
    S.ensure("operations can be chained", r is o)
    if mid:
        read(o)
    name, op, A = pick_op(S)
    W = S.np.matmul(A, M0)
    ok_axis(S, W)
    r = op(o)
    S.ensure("operations can be chained", r is o)
    observe(S, o, W, name + ": ")
    observe(S, o, W, name + " (read again): ")
    M1 = S.matrix("M1")
    W1 = S.np.matmul(M1, W)
    ok_axis(S, W1)
    o.transform(M1)
    observe(S, o, W1, name + ", transform: ")


@contract("P09", COVERS)
def returned_matrices_are_copies(S):
    o = S.R.world.WorldObject()
    M = S.matrix("M")
    W = S.np.array(M)
    ok_axis(S, W)
    o.transform(M)
    M[0, 3] = 5
    M[1, 1] = 7
    observe(S, o, W, "argument modified: ")
    a, b = o.get_world_transform(), o.get_object_transform()
    for m in (a, b):
        m[0, 3] = 5
        m[2, 2] = 9
    observe(S, o, W, "returned matrices modified: ")


@contract("P09", COVERS)
def round_trip(S):
    o = S.R.world.WorldObject()
    M = S.matrix("M")
    ok_axis(S, M)
    o.transform(M)
    N = S.N()
    p = S.point("p", N) if S.flag("points") else S.vector("p", N)
    p0 = S.np.array(p)
    q = o.to_object_coordinates(p)
    S.ensure("there and back", S.same_array(o.to_world_coordinates(q), p0))
    S.ensure("back and there", S.same_array(o.to_object_coordinates(o.to_world_coordinates(p)), p0))
    S.ensure("object coordinates are the image under the object transform", S.same_array(q, S.np.matmul(S.np.linalg.inv(M), p0)))
    S.ensure("coordinates are not modified", S.same_array(p, p0))


@contract("P09", ["tinygfx.g3d.world_objects.WorldObject.scale", "tinygfx.g3d.world_objects.WorldObject.scale_x", "tinygfx.g3d.world_objects.WorldObject.scale_y",
                  "tinygfx.g3d.world_objects.WorldObject.scale_z", "tinygfx.g3d.world_objects.WorldObject.scale_all"])
def negative_scales(S):
    o = S.R.world.WorldObject()
    M = S.matrix("M")
    ok_axis(S, M)
    o.transform(M)
    a, b, c = S.real("a"), S.real("b"), S.real("c")
    k = S.pick("operation", ["scale", "scale_x", "scale_y", "scale_z", "scale_all"])
    if k == "scale":
        S.assume(S.or_(S.lt(a, 0), S.lt(b, 0), S.lt(c, 0)))
        f = lambda: o.scale(a, b, c)
    else:
        S.assume(S.lt(a, 0))
        f = lambda: getattr(o, k)(a)
    S.ensure("negative scales are rejected", S.raises(f, ValueError))
    observe(S, o, M, "after the rejected scale: ")


@contract("P09", ["tinygfx.g3d.world_objects.WorldObject._sin_cos"])
def unknown_units(S):
    o = S.R.world.WorldObject()
    M = S.matrix("M")
    ok_axis(S, M)
    o.transform(M)
    k = S.pick("operation", ["rotate_x", "rotate_y", "rotate_z"])
    S.ensure("unknown angle units are rejected", S.raises(lambda: getattr(o, k)(S.real("a"), "turns"), ValueError))
    observe(S, o, M, "after the rejected rotation: ")


def state(S, o):
    """everything an object stores that is data"""
    out = {}
    for k, v in sorted(vars(o).items()):
        if (type(v) is int and v == o.get_id()) or callable(v) or isinstance(v, (list, tuple)) and any(callable(x) for x in v):
            continue
        out[k] = v
    return out


@contract("P09", COVERS, advisory=True, conc=0, budget=100)
def state_after_history(S):
    """closing the induction: the stored state after any operation is the state of a new object given the product at once, and reading changes no state"""
    W = S.R.world
    M0 = S.matrix("M0")
    ok_axis(S, M0)
    a = W.WorldObject().transform(M0)
    name, op, A = pick_op(S)
    P = S.np.matmul(A, M0)
    ok_axis(S, P)
    op(a)
    b = W.WorldObject().transform(P)
    sa, sb = state(S, a), state(S, b)
    S.ensure("same fields", sorted(sa) == sorted(sb))
    for k in sa:
        same = sa[k] == sb[k] if isinstance(sa[k], (bool, str, type(None))) else S.same_array(sa[k], sb[k])
        S.ensure("%s: %s depends on the product only" % (name, k), same)
    before = {k: S.np.array(v) if hasattr(v, "shape") else v for k, v in sa.items()}
    read(a)
    for k, v in state(S, a).items():
        S.ensure("reading leaves %s alone" % k, before[k] == v if isinstance(v, (bool, str, type(None))) else S.same_array(before[k], v))
