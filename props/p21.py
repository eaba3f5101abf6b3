"""P21: ray set fields are independent, aligned views of each ray."""
from vc.engine import contract
from .common import *

COVERS = ["pyrayt._pyrayt.RaySet.__new__", "pyrayt._pyrayt.RaySet.__init__", "pyrayt._pyrayt.RaySet.n_rays", "pyrayt._pyrayt.RaySet.metadata", "pyrayt._pyrayt.RaySet.rays"] + [
    "pyrayt._pyrayt.RaySet." + f for f in FIELDS]
ALL = FIELDS + ("pos", "dir")


def filled(S, N, tag="f"):
    """a ray set with arbitrary contents, written field by field, and what was written"""
    rs = S.R.pyrayt.RaySet(N)
    ghost = {}
    for f in FIELDS:
        v = S.arr("%s.%s" % (tag, f), (), N)
        setattr(rs, f, v)
        ghost[f] = S.np.array(v)
    r = S.arr(tag + ".rays", (2, 4), N)
    rs.rays = r
    ghost["pos"], ghost["dir"] = S.np.array(r[0]), S.np.array(r[1])
    return rs, ghost


def now(S, rs):
    d = {f: getattr(rs, f) for f in FIELDS}
    d["pos"], d["dir"] = rs.rays[0], rs.rays[1]
    return d


def holds(S, N, what, rs, ghost, skip=()):
    d = now(S, rs)
    S.ensure("%s: the count" % what, S.eq(rs.n_rays, N) if not S.symbolic else S.shape_ok(rs.generation, (N,)))
    for k in ALL:
        if k not in skip:
            S.ensure("%s: %s" % (what, k), S.shape_ok(d[k], ((4, N) if k in ("pos", "dir") else (N,))) and S.same_array(d[k], ghost[k]))


@contract("P21", COVERS)
def defaults(S):
    N = S.N()
    rs = S.R.pyrayt.RaySet(N)
    d = now(S, rs)
    S.ensure("shapes", S.and_(*[S.shape_ok(d[k], (4, N) if k in ("pos", "dir") else (N,)) for k in ALL]))
    idx = S.lane_index(N)
    for j, (p, v, g, i, w, x, n) in enumerate(S.lanes(N, d["pos"], d["dir"], d["generation"], d["intensity"], d["wavelength"], d["index"], d["id"])):
        S.ensure("at the origin", veq(S, p, [0, 0, 0, 1]))
        S.ensure("no direction", veq(S, v, [0, 0, 0, 0]))
        S.ensure("generation 0, intensity 100, 0.633 um, index 1", S.and_(S.eq(g, 0), S.eq(i, 100), S.eq(w, S.const("0.633")), S.eq(x, 1)))
        S.ensure("ids count the rays", S.eq(n, idx[j]))


@contract("P21", COVERS)
def fields_read_back(S):
    N = S.N()
    rs, ghost = filled(S, N)
    holds(S, N, "written", rs, ghost)
    for k, f in enumerate(FIELDS):
        for row, v in S.lanes(N, rs.metadata, ghost[f]):
            S.ensure("metadata lists the fields in order", S.eq(row[k], v))


@contract("P21", COVERS, cases=[dict(field=f) for f in ALL])
def one_field_written(S, field):
    """whole, as a scalar, in place, and for a selection of rays"""
    N = S.N()
    rs, ghost = filled(S, N)
    how = S.pick("how", ["whole", "scalar", "in place", "selection", "item"])
    sel = S.arr("selected", (), N)
    mask = sel > 0
    vec = field in ("pos", "dir")
    row = 0 if field == "pos" else 1
    new = S.arr("new", (4,) if vec else (), N)
    x = S.real("x")
    want = S.np.array(new)
    if vec:
        if how == "whole":
            rs.rays[row] = new
        elif how == "scalar":
            rs.rays[row] = x
            want = S.np.zeros(new.shape) + x
        elif how == "in place":
            rs.rays[row] += new
            want = ghost[field] + new
        elif how == "selection":
            rs.rays[row, ..., mask] = x
            want = S.np.where(mask, x, ghost[field])
        else:
            k = S.choice("component", 4)
            rs.rays[row, k] = new[k]
            want = S.np.array(ghost[field])
            want[k] = new[k]
    else:
        if how == "whole":
            setattr(rs, field, new)
        elif how == "scalar":
            setattr(rs, field, x)
            want = S.np.zeros(new.shape) + x
        elif how == "in place":
            g = getattr(rs, field)
            g += new
            want = ghost[field] + new
        elif how == "selection":
            getattr(rs, field)[mask] = x
            want = S.np.where(mask, x, ghost[field])
        else:
            rs.metadata[FIELDS.index(field)] = new
    ghost = dict(ghost)
    ghost[field] = want
    holds(S, N, "only that field, only those rays", rs, ghost)


@contract("P21", COVERS)
def all_metadata_written(S):
    N = S.N()
    rs, ghost = filled(S, N)
    m = S.arr("meta", (5,), N)
    rs.metadata = m
    for k, f in enumerate(FIELDS):
        ghost[f] = S.np.array(m[k])
    holds(S, N, "written together", rs, ghost)


@contract("P21", COVERS)
def selection(S):
    """a selection keeps each ray together, is independent storage, and writes back to the same rays"""
    N = S.N()
    rs, ghost = filled(S, N)
    sel = S.arr("selected", (), N)
    mask = sel > 0
    sub = rs[..., mask]
    d = now(S, sub)
    for k in ALL:
        S.ensure("the selected rays' %s" % k, S.same_array(d[k], ghost[k][..., mask]))
    sub.intensity = 0
    sub.rays[0] += 1
    holds(S, N, "the original is untouched", rs, ghost)
    rs[..., mask] = sub
    for k in ALL:
        want = ghost[k]
        if k == "intensity":
            want = S.np.where(mask, 0, want)
        if k == "pos":
            want = S.np.where(mask, want + 1, want)
        ghost[k] = want
    holds(S, N, "written back to the same rays", rs, ghost)


@contract("P21", COVERS)
def copies(S):
    N = S.N()
    rs, ghost = filled(S, N)
    c = rs.copy()
    holds(S, N, "the copy", c, ghost)
    S.ensure("a copy is a ray set", isinstance(c, S.R.pyrayt.RaySet))
    c.rays[1] = 7
    for f in FIELDS:
        setattr(c, f, 3)
    holds(S, N, "the original", rs, ghost)


@contract("P21", COVERS)
def joined(S):
    """joining sets end to end (as the tracer does)"""
    N = K = S.N("n")
    a, ga = filled(S, N, "a")
    b, gb = filled(S, K, "b")
    j = S.np.hstack([a, b]).view(S.R.pyrayt.RaySet)
    d = now(S, j)
    for k in ALL:
        S.ensure("the joined %s, in order" % k, S.same_array(d[k], S.np.hstack([ga[k], gb[k]])))
    j.id = S.np.arange(j.n_rays)
    S.ensure("the count adds up", S.shape_ok(j.generation, (N + K,)))
    S.ensure("ids count the rays", S.same_array(j.id, S.np.arange(N + K)))
    for k in ALL:
        if k != "id":
            S.ensure("renumbering leaves %s" % k, S.same_array(now(S, j)[k], S.np.hstack([ga[k], gb[k]])))


@contract("P21", [], sym=False, conc=20)
def empty(S):
    rs = S.R.pyrayt.RaySet(0)
    S.ensure("no rays", rs.n_rays == 0 and rs.rays.shape == (2, 4, 0) and all(getattr(rs, f).shape == (0,) for f in FIELDS))
    n = S.choice("n", 50)
    rs = S.R.pyrayt.RaySet(n)
    S.ensure("ids are distinct", len(set(rs.id.tolist())) == n)
    j = S.np.hstack([S.R.pyrayt.RaySet(n), S.R.pyrayt.RaySet(3)]).view(S.R.pyrayt.RaySet)
    j.id = S.np.arange(j.n_rays)
    S.ensure("ids are distinct", len(set(j.id.tolist())) == n + 3)
