"""Stand-ins for the tracer's collaborators, of which only the contract is known, and the ghost trace they determine.

A component answers each ray with arbitrary hits labelled with its own surfaces, a material answers each ray with an arbitrary outcome;
both answer the same ray always alike and each ray on its own (the contracts P01-P15 establish for the library's own)."""
import ast, inspect, sys, textwrap
from .common import *

OFFSET = "0.000001"


class Oracle:
    """an unknown function of a ray: a fresh unknown per distinct ray (symbolic), a random affine function (concrete)"""

    def __init__(self, S, name, n, **kw):
        self.S, self.name, self.n, self.kw, self.memo = S, name, n, kw, {}
        if not S.symbolic:
            self.a = S.rng.uniform(-1, 1, (n, 9))

    def raw(self, x):
        S = self.S
        if not S.symbolic:
            return [float(v) for v in self.a @ S.np.array(list(x)[:8] + [1.0])]
        r = recall(S, self.memo, x)
        if r is None:
            k = key(S, x)
            self.memo[k] = Answer([S.real("%s%d.%d" % (self.name, len(self.memo), i), **self.kw) for i in range(self.n)])
            self.memo[k].asked = list(x)
            r = self.memo[k]
        return r


class Answer(list):
    """an answer that remembers what it was given for"""
    asked = ()


def recall(S, memo, x):
    """the answer already given for arguments provably the same as x: a function answers alike on them"""
    k = key(S, x)
    if k in memo:
        return memo[k]
    for r in memo.values():
        if len(r.asked) == len(x) and S.provably(S.and_(*[S.eq(a, b) for a, b in zip(r.asked, x)])):
            memo[k] = r
            return r
    return None


def key(S, x):
    from vc import nparr
    return tuple(nparr.bkey(S.num(v)) for v in x)


def columns(S, a):
    """the rays held in an array (..., n): lists of their entries, one per ray present"""
    a = S.np.asarray(a)
    if S.symbolic:
        if not a.p.shape[-1]:
            return []
        p = a.p.reshape((-1, a.p.shape[-1]))
        return [[p[i, k] for i in range(p.shape[0])] for k in range(p.shape[1])]
    p = a.reshape(-1, a.shape[-1])
    return [p[:, k].tolist() for k in range(p.shape[1])]


def spread(S, a, cols):
    """per-ray answers as an array (rows, n) over the rays of a; cols[k] = answer for ray k"""
    out = []
    if S.symbolic:
        from vc import nparr
        base = a[0] if a.ndim > 1 else a
        m = None
        rows = len(cols[0]) if cols else None
        if rows is None:
            return None
        for i in range(rows):
            r = nparr.array(base)
            r.kind = "f"
            for k in range(len(cols)):
                r.p[k] = cols[k][i]
            out.append(r)
        return nparr.stack(out, axis=0)
    return S.np.array(cols, dtype=float).T


class Material:
    """answers with an arbitrary outgoing direction (or absorbs), refractive index and intensity; position and the rest are left alone (P04)"""

    def __init__(self, S, name, absorbs=None, dims=False):
        self.S, self.name, self.absorbs, self.dims = S, name, absorbs, dims
        self.o, self.seen, self.memo = Oracle(S, "mat." + name, 3), [], {}
        self.x = Oracle(S, "ix." + name, 2, nonneg=True)
        self.base_color = (.5, .5, .5, 1)

    def answer(self, ray):
        """ray: the 13 entries of one ray -> the 13 entries it leaves with"""
        S = self.S
        k = key(S, ray) if S.symbolic else None
        if k is None or recall(S, self.memo, ray) is None:
            d = self.o.raw(ray)
            ix, it = [S.abs_(v) for v in self.x.raw(ray)]
            if S.symbolic:
                gone = self.absorbs if self.absorbs is not None else S.flag("absorbed by " + self.name)
                if not gone:
                    S.assume(S.lt(S.const("0.001"), S.dot(d, d)))
            else:
                gone = self.absorbs if self.absorbs is not None else d[0] > 1
            if gone:
                d = [0, 0, 0]
            r = list(ray[:4]) + list(d) + [0] + list(ray[8:])
            r[11] = ix
            if self.dims:
                r[9] = it if S.symbolic else it / 5
            if k is None:
                return r
            self.memo[k] = Answer(r)
            self.memo[k].asked = list(ray)
        return self.memo[k]

    def trace(self, surface, rays):
        S = self.S
        self.seen.append((surface, S.np.array(rays)))
        out = rays.copy()
        c = columns(S, rays)
        if c:
            ans = spread(S, S.np.array(rays), [self.answer(x) for x in c])
            for i in range(13):
                out[i] = ans[i]
        return out


class Surface:
    _normal_scale = 1

    def __init__(self, S, ident, material):
        self.S, self.ident, self.material = S, ident, material

    def get_id(self): return self.ident
    surface_ids = property(lambda s: ((s.ident, s),))


class Component:
    """rows: how many hits per ray it reports; each is finite (any sign) or infinite and carries one of its surfaces"""

    def __init__(self, S, name, surfaces, rows, kinds=None):
        self.S, self.name, self.surfaces, self.rows, self.kinds = S, name, surfaces, rows, kinds
        self.o, self.l, self.memo, self.calls = Oracle(S, "hit." + name, rows), None, {}, []
        if not S.symbolic:
            self.l = Oracle(S, "lab." + name, 2 * rows)

    surface_ids = property(lambda s: tuple((f.ident, f) for f in s.surfaces))
    material = property(lambda s: s.surfaces[0].material)
    bounding_box = None

    def answer(self, ray):
        """ray: 8 entries -> [(distance, surface)] per row"""
        S = self.S
        if not S.symbolic:
            d, l = self.o.raw(ray), self.l.raw(ray)
            if not hasattr(S, "near"):
                S.near = Oracle(S, "near", 1)
            for j in range(self.rows):  # now and then close to what others answer
                if int(abs(l[2 * j] * 1000)) % 4 == 0:
                    d[j] = S.near.raw(ray)[0] + 6e-5 * (3 * (sum(map(ord, self.name)) % 97) + j)
            return [(S.inf if l[2 * j] > 1 else d[j] + .5, self.surfaces[int(abs(l[2 * j + 1] * 7)) % len(self.surfaces)]) for j in range(self.rows)]
        k = key(S, ray)
        if recall(S, self.memo, ray) is None:
            d = list(self.o.raw(ray))
            r = Answer()
            r.asked = list(ray)
            for j in range(self.rows):
                if self.kinds != "finite" and S.flag("miss %s%d" % (self.name, j)):
                    d[j] = S.inf
                r.append((d[j], S.pick("label %s%d" % (self.name, j), self.surfaces)))
            self.memo[k] = r
        return self.memo[k]

    def intersect(self, rays):
        S, np = self.S, self.S.np
        c = columns(S, rays)
        self.calls.append([list(x) for x in c])
        if not c:
            z = np.array(rays)[0, 0]
            z = np.stack([z] * self.rows, axis=0)
            return z + S.inf, np.zeros_like(z)
        a = [self.answer(x) for x in c]
        one = np.array(rays)[0]
        h = spread(S, one, [[t for t, s in x] for x in a])
        i = spread(S, one, [[s.ident for t, s in x] for x in a])
        if not S.symbolic:
            i = i.astype(int)
        else:
            i.kind = "i"
        return h, i


class Source:
    def __init__(self, S, rs):
        self.S, self.rs, self.asked = S, rs, []

    def generate_rays(self, n):
        self.asked.append(n)
        return self.rs.copy()


class Ghost:
    """the trace one ray must have: the recursion P16-P18 describe, over what the collaborators answered"""

    def __init__(self, S, comps, limit):
        self.S, self.comps, self.limit = S, comps, limit
        self.k = 0

    def ask(self, comp, ray):
        """the component's answer for this ray; it must have been asked (symbolically: about a ray provably the same)"""
        S = self.S
        if not S.symbolic:
            return comp.answer(ray)
        if key(S, ray) in comp.memo:
            return comp.memo[key(S, ray)]
        todo = [c for call in comp.calls for c in call]
        for c in todo[self.k:self.k + 1]:
            S.ensure("the component is asked about the ray where the chain left it", veq(S, c, ray))
            return comp.answer(c)
        S.ensure("every component is asked about every travelling ray", False)
        S.assume(False)

    def nearest(self, ray):
        """(distance, surface) of the nearest crossing ahead, or None"""
        S = self.S
        best = None
        ans = [x for c in self.comps for x in self.ask(c, ray)]
        for t, s in ans:
            if S.finite(t) and S.is_(S.lt(0, t)):
                if best is None:
                    best = (t, s)
                    continue
                S.assume(S.not_(S.eq(t, best[0])))
                if S.is_(S.lt(t, best[0])):
                    best = (t, s)
        return best

    def run(self, ray):
        """ray: 13 entries -> list of records (ray, distance, surface, end)"""
        S = self.S
        ray = list(ray)
        out = []
        self.k = 0
        for g in range(self.limit):
            d = ray[4:7]
            if S.is_(S.eq(S.dot(d, d), 0)) or S.is_(S.lt(ray[9], S.const("0.1"))):
                break
            best = self.nearest(ray[:8])
            self.k += 1
            if best is None:
                break
            t, s = best
            hit = [ray[i] + t * ray[4 + i] for i in range(4)] + ray[4:]
            out.append((list(ray), t, s, hit))
            if g + 1 == self.limit:
                break
            ray = list(s.material.answer(self.met(s, hit)))
            off = S.const(OFFSET)
            ray[:4] = [ray[i] + off * ray[4 + i] for i in range(4)]
            ray[8] = g + 1
        return out

    def met(self, s, hit):
        """what the material was given for this ray"""
        S = self.S
        m = s.material
        if not S.symbolic or key(S, hit) in m.memo:
            return hit
        for f, rs in m.seen:
            for c in columns(S, rs):
                if f is s and c and key(S, c) in m.memo and not any(c is x for x in getattr(self, "_met", ())):
                    S.ensure("the surface's own material is given the ray at the crossing, otherwise unchanged", veq(S, c, hit))
                    self._met = getattr(self, "_met", []) + [c]
                    return c
        S.ensure("the nearest surface's own material is asked", False)
        S.assume(False)


COLS = ("generation", "intensity", "wavelength", "index", "id", "surface", "x0", "y0", "z0", "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt")


def records(S, df, ident=None):
    """the recorded rows of one ray (symbolic: of the generic ray), in order"""
    out = []
    if S.symbolic:
        for b in df.blocks:
            n = b["id"].p.size
            if n > 1:
                from vc.sym import Unsupported
                raise Unsupported("several rays in one block")
            if n:
                out.append({c: b[c].p[0] for c in b})
        return out
    f = df[df["id"] == ident] if len(df) else df
    return [dict(zip(f.columns, [float(x) for x in r])) for r in f.sort_values("generation", kind="stable").values] if len(f) else []


def matches(S, rows, ghost, ident, what="", f32=False):
    """the record is exactly the ghost trace"""
    S.ensure(what + "one record per surviving generation", len(rows) == len(ghost))
    for g, (row, (ray, t, s, hit)) in enumerate(zip(rows, ghost)):
        S.ensure(what + "the segment starts where the ray is", veq(S, [row[c] for c in ("x0", "y0", "z0")], ray[:3]))
        S.ensure(what + "the segment ends at the nearest crossing", veq(S, [row[c] for c in ("x1", "y1", "z1")], hit[:3]))
        S.ensure(what + "the record names that surface", S.eq(row["surface"], s.ident))
        S.ensure(what + "generation", S.eq(row["generation"], g))
        S.ensure(what + "id", S.eq(row["id"], ident))
        S.ensure(what + "wavelength, intensity and index of the segment",
                 veq(S, [row[c] for c in ("intensity", "wavelength", "index")], [ray[9], ray[10], ray[11]]))
        tl = [row[c] for c in ("x_tilt", "y_tilt", "z_tilt")]
        l = S.sqrt(S.dot(ray[4:7], ray[4:7]))
        S.ensure(what + "tilt is the unit direction of travel", veq(S, [x * l for x in tl], ray[4:7]))


def source_rays(S, N, dead=True, tag="ray"):
    """arbitrary starting rays: any position, any direction (possibly none), any metadata"""
    rays = S.rays(tag, N)
    rs = S.R.pyrayt.RaySet(N)
    rs.rays = rays
    inten = S.arr(tag + ".intensity", (), N, nonneg=True)
    rs.intensity = inten
    rs.wavelength = S.arr(tag + ".wavelength", (), N, pos=True)
    rs.index = S.arr(tag + ".index", (), N, pos=True)
    d = S.np.array(rays[1])
    for v in S.lanes(N, d):
        S.assume(S.lt(S.const("0.001"), S.dot(v[:3], v[:3])))
    if dead and S.flag("starts without direction"):
        rs.rays[1] = 0
    return rs


def columns_of(S, N, rs):
    return [list(x) for x in S.lanes(N, S.np.array(rs))] if S.symbolic or N else []


def system(S, spec, **kw):
    """spec: list of (rows, surfaces) per component"""
    comps, i = [], 3 if S.symbolic else int(S.rng.choice([3, 3, 40001, 2**24 + 1]))
    for c, (rows, ns) in enumerate(spec):
        fs = []
        for k in range(ns):
            fs.append(Surface(S, i, Material(S, "%d.%d" % (c, k), **kw)))
            i += 2
        comps.append(Component(S, str(c), fs, rows))
    return comps


def check(S, N, rs, comps, df, limit, what=""):
    idx = S.lane_index(N)
    for j, ray in enumerate(S.lanes(N, S.np.array(rs))):
        ray = list(ray)
        ray[12] = idx[j]
        ghost = Ghost(S, comps, limit).run(ray)
        matches(S, records(S, df, idx[j]), ghost, idx[j], what)

# ------------------------------------------------------------ any number of components, by induction over the loop that visits them
class Visited(list):
    """components that note, as a loop over them ends, what the loop has gathered: what its body, or the code after it, goes on to read"""

    def __init__(self, S, comps):
        super().__init__(comps)
        self.S, self.notes = S, []

    def __iter__(self):
        f = sys._getframe(1)
        live, touched, used = carried(f)
        me = f.f_locals.get("self")
        before = dict(getattr(me, "__dict__", {}))
        for c in list.__iter__(self):
            yield c
            self.S.ensure("a round of the loop depends on its component alone", all(f.f_locals.get(k) is c for k in used))
        me = f.f_locals.get("self")
        note = {k: copied(self.S, f.f_locals[k]) for k in live if k in f.f_locals}
        note.update({"self." + k: copied(self.S, v) for k, v in getattr(me, "__dict__", {}).items() if before.get(k) is not v and k in touched})
        self.notes.append((f.f_code.co_name, note))


def copied(S, v):
    return S.np.array(v) if hasattr(v, "shape") else v


def carried(frame):
    """(local names a loop at this line carries from one round to the next or out of the loop, attributes of self its body sets, loop targets its body uses)"""
    src, first = inspect.getsourcelines(frame.f_code)
    tree = ast.parse(textwrap.dedent("".join(src)))
    ast.increment_lineno(tree, first - 1)
    loops = [n for n in ast.walk(tree) if isinstance(n, ast.For) and n.lineno <= frame.f_lineno <= n.body[0].lineno]
    if not loops:
        from vc.sym import Unsupported
        raise Unsupported("components visited other than by a for loop")
    loop = loops[-1]
    target = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    read, stored, attrs = set(), set(), set()

    class V(ast.NodeVisitor):
        def visit_Assign(self, n):
            self.visit(n.value)
            for t in n.targets:
                self.visit(t)

        def visit_AugAssign(self, n):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    read.add(x.id)
            self.visit(n.value), self.visit(n.target)

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load):
                if n.id not in stored:
                    read.add(n.id)
            else:
                stored.add(n.id)

        def visit_Subscript(self, n):
            if isinstance(n.ctx, ast.Store):
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Name):
                        read.add(x.id), stored.add(x.id)
            self.generic_visit(n)

        def visit_Attribute(self, n):
            if isinstance(n.ctx, ast.Store):
                attrs.add(n.attr)
            self.generic_visit(n)

    for n in loop.body:
        V().visit(n)
    after = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > loop.end_lineno}
    return sorted(((read & stored) | (stored & after)) - target), attrs, sorted(read & target)


class Nearest(Component):
    """one component that reports the nearest crossing ahead that any of several reports"""

    def __init__(self, S, comps):
        Component.__init__(self, S, "nearest", [f for c in comps for f in c.surfaces], 1)
        self.comps = comps

    def answer(self, ray):
        S, best = self.S, None
        for t, s in [x for c in self.comps for x in c.answer(ray)]:
            if S.finite(t) and S.is_(S.lt(0, t)):
                if best is None:
                    best = (t, s)
                    continue
                S.assume(S.not_(S.eq(t, best[0])))
                if S.is_(S.lt(t, best[0])):
                    best = (t, s)
        return [best or (S.inf, self.surfaces[0])]


def folds(S, run, seen, new):
    """run(components) visits them in a loop. Induction over their number: having seen components that amount to `seen` (which reports one crossing,
    the nearest so far), going on to another one leaves what the nearest of both alone would have left. So any number amounts to one component."""
    many, one = Visited(S, [seen, new]), Visited(S, [Nearest(S, [seen, new])])
    run(many), run(one)
    a, b = [[n for n in v.notes if n[0] not in ("_st_initialize", "__init__")] for v in (many, one)]
    S.ensure("the components are visited alike", len(a) == len(b) and len(a) > 0 and [n for n, _ in a] == [n for n, _ in b])
    for (_, x), (_, y) in zip(a, b):
        S.ensure("the loop carries something", bool(x) and set(x) == set(y))
        for k in sorted(x):
            S.ensure("seeing one more component keeps the nearest crossing of all: %s" % k, S.same_array(S.np.asarray(x[k]), S.np.asarray(y[k])))


# ------------------------------------------------------------ the library's own components, end to end (bounded)
def shape(S, mats=None):
    """a random component made of the library's own shapes"""
    np, W, R = S.np, S.R.world, S.R
    m = S.pick("material", [R.matl.mirror, R.matl.absorber, R.matl.glass["BK7"], R.matl.BasicRefractor(1.5), R.matl.mirror, R.matl.glass["SF5"]])
    k = S.choice("shape", 7)
    if k == 0:
        o = W.Sphere(S.rng.uniform(.3, 1), material=m)
    elif k == 1:
        o = W.Cuboid(*(S.rng.uniform(-1, -.2, 3), S.rng.uniform(.2, 1, 3)), material=m)
    elif k == 2:
        o = W.Cylinder(S.rng.uniform(.3, 1), -.5, S.rng.uniform(0, 1), material=m)
    elif k == 3:
        o = W.Paraboloid(S.rng.uniform(.3, 1), S.rng.uniform(.3, 1), material=m)
    elif k == 4:
        o = W.XYPlane(S.rng.uniform(.5, 3), S.rng.uniform(.5, 3), material=m)
    else:
        a, b = W.Sphere(1, material=m), W.Sphere(1, material=m).move_x(S.rng.uniform(-1, 1))
        o = S.pick("op", [R.csg.union, R.csg.intersect, R.csg.difference])(a, b)
    if S.rng.rand() < .2:
        o.invert_normals()
    o.rotate_x(S.rng.uniform(0, 360)), o.rotate_z(S.rng.uniform(0, 360))
    if S.rng.rand() < .3:
        o.scale(*S.rng.uniform(.5, 2, 3))
    o.move(*S.rng.uniform(-2, 2, 3))
    return o


def real_rays(S, n):
    np = S.np
    rs = S.R.pyrayt.RaySet(n)
    r = np.zeros((2, 4, n))
    r[0, 3] = 1
    r[0, :3] = S.rng.uniform(-4, 4, (3, n))
    r[1, :3] = S.rng.uniform(-1.5, 1.5, (3, n)) - r[0, :3]
    for k in range(n):
        v = S.rng.randint(-1, 2, 3)
        if S.rng.rand() < .2 and v.any():  # along axes and diagonals
            r[1, :3, k] = v
            r[0, :3, k] = S.rng.uniform(-.9, .9, 3) - 3 * v
    r[1] /= np.linalg.norm(r[1], axis=0)
    rs.rays = r
    rs.intensity = S.rng.choice([100., 1., .2, .05, .1], n, p=[.5, .2, .1, .1, .1])
    rs.wavelength = S.rng.uniform(.4, .7, n)
    if S.rng.rand() < .3:
        rs.index = S.rng.uniform(.5, 2, n)
    return rs


def reference(S, comps, ray, limit):
    """one ray traced on its own: list of (start ray, distance, surface id, end) and whether a tie or near-tie makes the outcome undetermined"""
    np = S.np
    out = []
    ray = ray.copy()
    for g in range(limit):
        if np.linalg.norm(ray[4:7]) < 1e-9 or ray[9] < .1:
            return out, False
        cand = []
        for c in comps:
            h, i = c.intersect(ray[:8].reshape(2, 4, 1))
            lut = dict(c.surface_ids)
            cand += [(float(t), int(k), lut) for t, k in zip(h[:, 0], i[:, 0]) if np.isfinite(t)]
        if any(abs(t) < 1e-5 and not (g and abs(t + 1e-6) < 2e-7) for t, k, l in cand):
            return out, True
        cand = sorted([c for c in cand if c[0] > 0], key=lambda c: c[0])
        if not cand:
            return out, False
        if len(cand) > 1 and cand[1][0] - cand[0][0] < 1e-4:
            return out, True
        t, sid, lut = cand[0]
        hit = ray.copy()
        hit[:4] += t * ray[4:8]
        out.append((ray.copy(), t, sid, hit))
        rs = S.R.pyrayt.RaySet(1)
        rs[:] = hit[:, None]
        with np.errstate(all="ignore"):
            n = lut[sid].get_world_normals(hit[:4, None])[:3, 0]
            if abs(n @ ray[4:7]) < .05:
                return out, True
        nxt = np.asarray(lut[sid].material.trace(lut[sid], rs))[:, 0]
        ray = nxt.copy()
        ray[:4] += 1e-6 * ray[4:8]
        ray[8] = g + 1
    return out, False


def real_check(S, comps, rs, df, limit, what="", skip_undetermined=True):
    np = S.np
    lo = hi = 0
    for j in range(rs.shape[1]):
        ray = np.array(rs)[:, j].copy()
        ray[12] = j
        ghost, undetermined = reference(S, comps, ray, limit)
        rows = records(S, df, j)
        if undetermined:
            rows = rows[:len(ghost)]
            hi += limit
        else:
            hi += len(ghost)
        lo += len(ghost)
        S.ensure(what + "one record per surviving generation", len(rows) == len(ghost))
        if len(rows) != len(ghost):
            return
        for g, (row, (r, t, sid, hit)) in enumerate(zip(rows, ghost)):
            tol = 1e-6 * 30 ** g
            if tol > 1e-2:
                break
            S.ensure(what + "the segment", np.allclose([row[c] for c in COLS[6:]], list(r[:3]) + list(hit[:3]) + list(r[4:7] / np.linalg.norm(r[4:7])), atol=tol, rtol=tol))
            S.ensure(what + "the fields", np.allclose([row[c] for c in COLS[:5]], [g, r[9], r[10], r[11], j]))
            S.ensure(what + "the surface", row["surface"] == sid)
    S.ensure(what + "no other records", lo <= len(df) <= hi)
