"""P14: normals of combined solids point out of the combined solid."""
from vc.engine import contract
from .common import *
from .p10 import stub_surface
from .p11 import solid

COVERS = ["tinygfx.g3d.csg.CSGSurface.__init__", "tinygfx.g3d.csg.CSGSurface.invert_normals", "tinygfx.g3d.world_objects.Intersectable.invert_normals",
          "tinygfx.g3d.world_objects.TracerSurface.get_world_normals", "tinygfx.g3d.csg.union", "tinygfx.g3d.csg.intersect", "tinygfx.g3d.csg.difference"]
ASSUME = ["next to a boundary point that lies on one member only, the combined solid is that member or its complement: it is the complement exactly when "
          "an odd number of the differences above the member have it on their right",
          "the normal of a member on its own points out of it (P08, P10)", "reset_normals is not called on a combination"]
OPS3 = ["UNION", "INTERSECT", "DIFFERENCE"]


def build(S, leaves, made):
    """an arbitrary binary tree over the leaves in this order; notes for every leaf how often it is on the right of a difference"""
    if len(leaves) == 1:
        return leaves[0][0], [leaves[0]]
    k = 1 + S.choice("split", len(leaves) - 1)
    l, ll = build(S, leaves[:k], made)
    r, rr = build(S, leaves[k:], made)
    op = S.pick("operation", OPS3)
    C = S.R.csg
    if S.flag("by function") if len(leaves) == 2 else False:
        o = {"UNION": C.union, "INTERSECT": C.intersect, "DIFFERENCE": C.difference}[op](l, r)
    else:
        o = C.CSGSurface(l, r, getattr(C.Operation, op))
    if op == "DIFFERENCE":
        for e in rr:
            e[2] += 1
    made.append(o)
    return o, ll + rr


@contract("P14", COVERS, merge=True, cases=[dict(n=n) for n in (2, 3, 4)], budget=200, bounded="combinations of up to 4 members, every tree and every mixture of operations")
def trees_of(S, n):
    leaves = []
    for i in range(n):
        nv = S.unit("n%d" % i)
        leaves.append([stub_surface(S, normals=nv), nv, 0])
    made = []
    o, _ = build(S, leaves, made)
    if n <= 3 and S.flag("moved"):
        o.move(1, 2, 3)
    p = S.point("p")
    for leaf, nv, k in leaves:
        w, v = S.tolist(leaf.get_world_normals(p)), S.tolist(nv)
        sg = -1 if k % 2 else 1
        S.ensure("the member's own outward normal, reversed once per difference it is subtracted in", S.and_(*[S.eq(w[i], sg * v[i]) for i in range(3)]))


@contract("P14", COVERS, merge=True)
def inverted_member(S):
    """whatever a member's orientation was before, a difference reverses it once and the other operations leave it"""
    nl, nr = S.unit("nl"), S.unit("nr")
    l, r = stub_surface(S, normals=nl), stub_surface(S, normals=nr)
    l.rotate_x(90).move(.5)
    for _ in range(S.choice("l before", 3)):
        l.invert_normals()
    for _ in range(S.choice("r before", 3)):
        r.invert_normals()
    p = S.point("p")
    wl, wr = S.tolist(l.get_world_normals(p)), S.tolist(r.get_world_normals(p))
    op = S.pick("operation", OPS3)
    o = S.R.csg.CSGSurface(l, r, getattr(S.R.csg.Operation, op))
    xl, xr = S.tolist(l.get_world_normals(p)), S.tolist(r.get_world_normals(p))
    sg = -1 if op == "DIFFERENCE" else 1
    S.ensure("the left member keeps its orientation", S.and_(*[S.eq(a, b) for a, b in zip(xl, wl)]))
    S.ensure("the right member is reversed by a difference only", S.and_(*[S.eq(a, sg * b) for a, b in zip(xr, wr)]))
    o.invert_normals()
    yl, yr = S.tolist(l.get_world_normals(p)), S.tolist(r.get_world_normals(p))
    S.ensure("inverting a combination inverts every member", S.and_(*[S.eq(a, -b) for a, b in zip(yl + yr, xl + xr)]))


@contract("P14", COVERS, advisory=True, stubs=True)
def any_depth(S):
    """induction over the nesting: members of any kind are told to invert once by a difference (right one only), and once each by inverting the whole"""
    W, C = S.R.world, S.R.csg

    class Member(W.Intersectable):
        n = 0
        bounding_box = bounding_volume = _aobb = property(lambda s: s.hull)
        def __init__(self):
            super().__init__()
            self.hull = S.R.prim.Cube()
        def intersect(self, rays): raise NotImplementedError
        def invert_normals(self): self.n += 1

    l, r = Member(), Member()
    op = S.pick("operation", OPS3)
    o = C.CSGSurface(l, r, getattr(C.Operation, op))
    S.ensure("only the right member of a difference is inverted", l.n % 2 == 0 and r.n % 2 == (op == "DIFFERENCE"))
    a, b = l.n, r.n
    o.invert_normals()
    S.ensure("inverting a combination inverts every member once", (l.n - a) % 2 == 1 and (r.n - b) % 2 == 1)


@contract("P14", [], sym=False, conc=300)
def outward(S):
    """random trees of the library's shapes: step off the surface along the reported normal"""
    np = S.np
    o = solid(S, S.choice("depth", 4) + S.choice("deeper", 2))
    if S.flag("moved"):
        pick_op(S)[1](o)
    for n in o.nodes:
        if np.linalg.cond(n.get_world_transform()) > 100:
            S.assume(False)
    N = 6
    rays = np.zeros((2, 4, N))
    rays[0, 3] = 1
    rays[0, :3] = S.rng.uniform(-4, 4, (3, N))
    for k in range(N):
        tgt = o.nodes[S.rng.randint(len(o.nodes))]
        rays[1, :, k] = tgt.get_world_transform() @ np.append(S.rng.uniform(-1, 1, 3), 1) - rays[0, :, k]
        rays[1, :, k] /= max(np.linalg.norm(rays[1, :, k]), 1e-3)
    h, ids = o.intersect(rays)
    lut = dict(o.surface_ids)
    e = 1e-4
    for k in range(N):
        for x, i in zip(h[:, k], ids[:, k]):
            if not np.isfinite(x):
                continue
            p = rays[0, :, k] + x * rays[1, :, k]
            n = lut[i].get_world_normals(p[:, None])[:, 0]
            inside = [[o.member(p + s * d * n) for d in (e / 3, e, 3 * e)] for s in (1, -1)]
            if all(v > 0 for v in inside[0]) == all(v < 0 for v in inside[0]) or all(v > 0 for v in inside[1]) == all(v < 0 for v in inside[1]):
                continue        # next to an edge
            if (inside[0][0] > 0) != (inside[1][0] > 0):
                S.ensure("the normal points out of the combined solid", inside[0][0] > 0)
