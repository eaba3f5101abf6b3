"""Ghost definitions and stand-ins shared by the contracts."""


def veq(S, a, b):
    """componentwise equality of two lists of scalars"""
    return S.and_(*[S.eq(x, y) for x, y in zip(a, b)])


def norm2(S, v): return S.dot(v[:3], v[:3])


class StubSurface:
    """a surface of which only its contract is known: get_world_normals returns the given unit normals for the positions it is asked about"""

    def __init__(self, S, normals, material=None):
        self.S, self.normals, self.material, self.asked = S, normals, material, []

    def get_world_normals(self, positions):
        self.asked.append(self.S.np.array(positions))
        return self.normals.copy()

    def get_id(self): return 7


def rayset(S, N, rays=None, **fields):
    """a RaySet of N rays with arbitrary contents"""
    rs = S.R.pyrayt.RaySet(N)
    if rays is None:
        rays = S.rays("ray", N)
    rs.rays = rays
    for f, kw in (("generation", dict(nonneg=True)), ("intensity", dict(nonneg=True)), ("wavelength", dict(pos=True)), ("index", dict(pos=True)), ("id", {})):
        v = fields.get(f)
        setattr(rs, f, S.arr("f." + f, (), N, **kw) if v is None else v)
    return rs


FIELDS = ("generation", "intensity", "wavelength", "index", "id")


def snap(S, rs):
    """copies of everything a ray set holds"""
    d = {f: S.np.array(getattr(rs, f)) for f in FIELDS}
    d["pos"], d["dir"] = S.np.array(rs.rays[0]), S.np.array(rs.rays[1])
    return d


def unchanged(S, name, N, before, after, keys):
    for k in keys:
        S.ensure("%s: %s unchanged" % (name, k), S.same_array(before[k], after[k]))


def refraction_spec(S, d, n, n1, nto):
    """(transmitted?, spec of the new direction given r) for a unit direction d, unit normal n"""
    c = S.dot(d[:3], n[:3])
    mu = S.div(n1, nto)
    return c, mu, 1 - mu * mu * (1 - c * c)


# ------------------------------------------------------------ pose operations
def mat(S, rows):
    return S.array(rows)


def affine(S, a=None, t=(0, 0, 0)):
    a = a or [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    return mat(S, [list(a[i]) + [t[i]] for i in range(3)] + [[0, 0, 0, 1]])


def rot(S, axis, th):
    c, s = S.cos(th), S.sin(th)
    a = {0: [[1, 0, 0], [0, c, -s], [0, s, c]], 1: [[c, 0, s], [0, 1, 0], [-s, 0, c]], 2: [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis]
    return affine(S, a)


def diag(S, x, y, z): return affine(S, [[x, 0, 0], [0, y, 0], [0, 0, z]])


OPS = ["move", "move_x", "move_y", "move_z", "scale", "scale_x", "scale_y", "scale_z", "scale_all", "rotate_x", "rotate_y", "rotate_z",
       "rotate_x:deg", "rotate_y:deg", "rotate_z:deg", "rotate_x:rad", "rotate_y:rad", "rotate_z:rad", "transform", "move:x", "scale:y"]


def pick_op(S, tag="op", ops=OPS):
    """one arbitrary pose operation -> (name, how to apply it to an object, its matrix)"""
    n = S.pick(tag, ops)
    name, _, opt = n.partition(":")
    x, y, z = [S.amount("%s.%s" % (tag, k), name.partition("_")[0] if opt != "rad" else opt) for k in "xyz"]
    i = "xyz".find(name[-1])
    if name == "move":
        if opt:
            return n, lambda o: o.move(x), affine(S, t=(x, 0, 0))
        return n, lambda o: o.move(x, y, z), affine(S, t=(x, y, z))
    if name.startswith("move_"):
        return n, lambda o: getattr(o, name)(x), affine(S, t=[x if k == i else 0 for k in range(3)])
    if name == "scale":
        if opt:
            return n, lambda o: o.scale(y=x), diag(S, 1, x, 1)
        return n, lambda o: o.scale(x, y, z), diag(S, x, y, z)
    if name == "scale_all":
        return n, lambda o: o.scale_all(x), diag(S, x, x, x)
    if name.startswith("scale_"):
        return n, lambda o: getattr(o, name)(x), diag(S, *[x if k == i else 1 for k in range(3)])
    if name.startswith("rotate_"):
        th = x if opt == "rad" else S.div(x * S.pi(), 180)
        args = (x, opt) if opt else (x,)
        return n, lambda o: getattr(o, name)(*args), rot(S, i, th)
    m = S.matrix("%s.M" % tag)
    return n, lambda o: o.transform(m), m
