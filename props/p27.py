"""P27: rendering shows, per pixel, the nearest surface the camera sees."""
from vc.engine import contract
from .trace import *
from .p09 import ok_axis

CAMERA = ["tinygfx.g3d.world_objects.OrthographicCamera.__init__", "tinygfx.g3d.world_objects.OrthographicCamera.generate_rays",
          "tinygfx.g3d.world_objects.OrthographicCamera._local_ray_generation", "tinygfx.g3d.world_objects.OrthographicCamera.get_resolution",
          "tinygfx.g3d.world_objects.OrthographicCamera.get_span", "tinygfx.g3d.primitives.bundle_of_rays"]
SHADED = ["tinygfx.g3d.renderers.ShadedRenderer.__init__", "tinygfx.g3d.renderers.ShadedRenderer.render", "tinygfx.g3d.renderers.ShadedRenderer._st_initialize",
          "tinygfx.g3d.renderers.ShadedRenderer._st_propagate", "tinygfx.g3d.renderers.ShadedRenderer._st_interact"]
EDGES = ["tinygfx.g3d.renderers.EdgeRender.render", "tinygfx.g3d.renderers.EdgeRender._st_propagate", "tinygfx.g3d.renderers.EdgeRender._st_interact"]
SHADE = ["tinygfx.g3d.world_objects.TracerSurface.shade"]
DRAW = ["tinygfx.g3d.renderers.draw", "tinygfx.g3d.renderers._draw_xy", "tinygfx.g3d.renderers._draw_xz"]
NOTE = "outline images are proved for the listed small resolutions only (up to 7 by 5 pixels: bounded) and draw() is decided on concrete scenes only (bounded); camera and shaded images are proved for every resolution"


# ---------------------------------------------------------------- the camera
@contract("P27", CAMERA, merge=True, cases=[dict(placed=p) for p in (False, True)])
def camera_rays(S, placed):
    V, H = S.N("rows", lo=2), S.N("columns", lo=2)
    w, r = S.real("width", pos=True), S.real("aspect ratio", pos=True)
    S.assume(S.and_(S.le(S.count(V), r * S.count(H)), S.lt(r * S.count(H), S.count(V) + 1))) if S.symbolic else None
    if not S.symbolic:
        r = (V + S.pick("excess", [.01, .3, .9])) / H
        S.used["aspect ratio"] = r
    N = S.grid(V, H)
    cam = S.R.cg.OrthographicCamera(H, w, r)
    M = S.matrix("pose") if placed else None
    if placed:
        ok_axis(S, M)
        cam.transform(M)
    res = cam.get_resolution()
    S.ensure("resolution", S.and_(S.eq(S.count(res[0]), S.count(H)), S.eq(S.count(res[1]), S.count(V))))
    S.ensure("span", S.and_(S.eq(cam.get_span()[0], w), S.eq(cam.get_span()[1], r * w)))
    rays = cam.generate_rays()
    S.ensure("one ray per pixel", S.shape_ok(rays, (2, 4, N)))
    ax = S.tolist(S.np.matmul(M, S.array([1, 0, 0, 0]))) if placed else [1, 0, 0, 0]
    if placed:
        S.assume(S.lt(0, norm2(S, ax)))
    L = S.sqrt(norm2(S, ax))
    local = S.np.matmul(S.np.linalg.inv(M), S.np.array(rays[0])) if placed else S.np.array(rays[0])
    h, v = S.count(H) - 1, S.count(V) - 1
    for i, j, o, d, p in S.cells(V, H, S.np.array(rays[0]), S.np.array(rays[1]), local):
        S.ensure("on the camera's plane", S.and_(S.eq(p[0], 0), S.eq(p[3], 1)))
        S.ensure("columns from left to right, evenly over the whole width", S.eq(p[1] * 2 * h, w * h - 2 * w * j))
        S.ensure("rows from top to bottom, evenly over the whole height", S.eq(p[2] * 2 * v, r * w * v - 2 * r * w * i))
        S.ensure("unit direction", S.and_(S.eq(norm2(S, d), 1), S.eq(d[3], 0)))
        S.ensure("along the viewing direction", veq(S, [x * L for x in d], ax))
    again = cam.generate_rays()
    S.ensure("asked again, it looks the same way", S.same_array(rays, again))


# ---------------------------------------------------------------- shaded images
class Camera:
    def __init__(self, S, V, H, rays): self.S, self.size, self.rays, self.asked = S, (H, V), rays, 0
    def get_resolution(self): return self.size

    def generate_rays(self):
        self.asked += 1
        return self.rays.copy()


class Shader(Surface):
    """a surface that colours each ray arbitrarily, from the ray and its distance alone"""

    def __init__(self, S, ident):
        Surface.__init__(self, S, ident, None)
        self.o, self.lights = Oracle(S, "colour %d" % ident, 4), []

    def colour(self, ray, t):
        x = list(ray) + [t]
        if not self.S.symbolic:
            return self.o.raw(list(ray[:7]) + [t])
        return self.o.raw(x)

    def shade(self, rays, distances, light_positions=None):
        S = self.S
        self.lights.append(light_positions)
        c, t = columns(S, rays), columns(S, S.np.array(distances)[None])
        S.ensure("a distance for every ray", len(c) == len(t))
        if not c:
            return S.np.array(rays)[0]
        return spread(S, S.np.array(rays)[0], [self.colour(x, y[0]) for x, y in zip(c, t)])


def scene(S, spec):
    comps, i = [], 3
    for c, (rows, ns) in enumerate(spec):
        fs = []
        for k in range(ns):
            fs.append(Shader(S, i))
            i += 2
        comps.append(Component(S, str(c), fs, rows))
    return comps


SPECS = {"one object": [(2, 2)], "two objects": [(2, 1), (1, 1)], "two faces each": [(1, 2), (1, 2)], "three objects": [(1, 1), (1, 1), (1, 1)]}


@contract("P27", SHADED, cases=[dict(spec=s) for s in SPECS], merge=True, stubs=True, budget=120)
def shaded(S, spec):
    V, H = S.N("rows"), S.N("columns")
    N = S.grid(V, H)
    rays = S.rays("ray", N)
    for o, d in S.lanes(N, S.np.array(rays[0]), S.np.array(rays[1])):
        S.assume(S.lt(S.const("0.001"), norm2(S, d)))
    comps = scene(S, SPECS[spec])
    light = S.point("light")
    cam = Camera(S, V, H, rays)
    r = S.R.rend.ShadedRenderer(cam, list(reversed(comps)) if S.flag("reversed") else comps, light)
    r0, l0 = S.np.array(rays), S.np.array(light)
    img = r.render()
    check_image(S, V, H, img, rays, comps)
    S.ensure("the camera's rays and the light are left alone", S.and_(S.same_array(r0, rays), S.same_array(l0, light)))
    for c in comps:
        for f in c.surfaces:
            for l in f.lights:
                S.ensure("surfaces are lit by the light", S.same_array(S.array(l), light))


def check_image(S, V, H, img, rays, comps, what=""):
    S.ensure(what + "one colour per pixel", S.image_ok(img, (V, H, 4)))
    g = Ghost(S, comps, 1)
    for i, j, px, ray in S.cells(V, H, S.image(V, H, img), S.np.reshape(S.np.array(rays), (8, -1))):
        g.k = 0
        best = g.nearest(ray)
        if best is None:
            S.ensure(what + "empty where nothing is seen", veq(S, px, [0] * 4))
        else:
            S.ensure(what + "the colour its nearest surface has there", veq(S, px, best[1].colour(ray, best[0])))


@contract("P27", SHADED + EDGES, merge=True, stubs=True, budget=100, advisory=True, cases=[dict(kind=k) for k in ("shaded", "outlined")])
def any_objects(S, kind):
    """induction over the objects: any number of them amounts to one that reports the nearest crossing of all"""
    V, H = (S.N("rows"), S.N("columns")) if kind == "shaded" else (1, 1)
    rays = S.rays("ray", S.grid(V, H) if kind == "shaded" else 1)
    seen, new = scene(S, [(1, 1), (2, 1)])
    camera = lambda: Camera(S, V, H, rays)
    make = (lambda comps: S.R.rend.ShadedRenderer(camera(), comps, S.point("light"))) if kind == "shaded" else (lambda comps: S.R.rend.EdgeRender(camera(), comps))
    folds(S, lambda comps: make(comps).render(), seen, new)


@contract("P27", SHADED, merge=True, stubs=True)
def rendered_again(S):
    """a second rendering shows the scene as it then is"""
    V, H = S.N("rows"), S.N("columns")
    N = S.grid(V, H)
    rays, new = S.rays("ray", N), S.rays("new ray", N)
    comps = scene(S, [(1, 1), (1, 1)])
    cam = Camera(S, V, H, rays)
    r = S.R.rend.ShadedRenderer(cam, comps, S.point("light"))
    r.render()
    same = r.render()
    check_image(S, V, H, same, rays, comps, "again: ")
    cam.rays = new
    for c in comps:
        c.calls.clear()
    check_image(S, V, H, r.render(), new, comps, "moved: ")


# ---------------------------------------------------------------- what a surface looks like
class Paint:
    def __init__(self, S, N): self.S, self.out, self.seen = S, S.arr("paint", (4,), N), []

    def shade(self, rays, normals, light_positions):
        np = self.S.np
        self.seen.append((np.array(rays), np.array(normals), light_positions))
        return np.array(self.out)


@contract("P27", SHADE, merge=True)
def surface_colour(S):
    """a surface is coloured by its own material, for the rays where they meet it and its normals there"""
    N = S.N()
    rays, t, nrm = S.rays("ray", N), S.arr("distance", (), N, nonneg=True), S.unit("normal", N)
    paint = Paint(S, N)
    o = S.R.cg.Sphere(1, material=paint)
    asked = []

    def normals(p):
        asked.append(S.np.array(p))
        return S.np.array(nrm)
    o.get_world_normals = normals
    light = S.point("light")
    r0, t0 = S.np.array(rays), S.np.array(t)
    px = o.shade(rays, t, light_positions=light)
    S.ensure("the material is asked once", len(paint.seen) == 1 and len(asked) >= 1)
    S.ensure("the material's colours", S.same_array(px, paint.out))
    S.ensure("rays and distances are left alone", S.and_(S.same_array(r0, rays), S.same_array(t0, t)))
    seen, n1, l1 = paint.seen[0]
    S.ensure("the same light", S.same_array(S.array(l1), light))
    S.ensure("the normals there", S.same_array(n1, nrm))
    for q, a, p, d, l, d0 in S.lanes(N, S.np.array(seen[0]), asked[0], S.np.array(rays[0]), S.np.array(rays[1]), t, S.np.array(seen[1])):
        e = [p[k] + l * d[k] for k in range(3)] + [1]
        S.ensure("at the point it meets", S.and_(veq(S, q, e), veq(S, a, e)))
        S.ensure("in the ray's direction", veq(S, d0, d))


# ---------------------------------------------------------------- edge images
class Pixels:
    """an object that shows the given surface at each pixel, at the given distances"""

    def __init__(self, S, ids, dist): self.S, self.ids, self.dist = S, ids, dist
    surface_ids = property(lambda s: ())

    def intersect(self, rays):
        np = self.S.np
        i = self.S.array([self.ids])
        if self.S.symbolic:
            i.kind = "i"
        return self.S.array([self.dist]), i


def marked(S, img, V, H, seen):
    """seen: surface per pixel (row by row), -1 where nothing is; outlines are a pixel wider in large images"""
    r = 1 + max(1, max(V, H) // 300)
    near = range(-r, r + 1)
    S.ensure("one mark per pixel", S.image_ok(img, (V, H, 4)))
    px = S.tolist(img)
    at = lambda i, j: seen[i * H + j] if 0 <= i < V and 0 <= j < H else -1
    for i in range(V):
        for j in range(H):
            p, me = px[i][j], at(i, j)
            S.ensure("a mark is opaque black, the rest clear", S.or_(veq(S, p, [0, 0, 0, 1]), S.eq(p[3], 0)))
            for q in ((i + 1, j), (i, j + 1), (i - 1, j), (i, j - 1)):
                if 0 <= q[0] < V and 0 <= q[1] < H:
                    S.ensure("marked where the nearest surface changes", S.implies(S.ne(at(*q), me), S.eq(p[3], 1)))
            S.ensure("clear away from any change", S.implies(S.and_(*[S.eq(at(i + a, j + b), me) for a in near for b in near]), S.eq(p[3], 0)))


@contract("P27", EDGES, cases=[dict(V=v, H=h) for v, h in ((2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 5))], merge=True, bounded="images of up to 6 pixels", budget=60)
def outlines(S, V, H):
    """any surface may be nearest at any pixel, or none"""
    ids = [S.real("surface%d" % k, lo=0, hi=4, int_=True) for k in range(V * H)]
    if not S.symbolic:
        ids = [int(round(x)) for x in ids]
    gone = [S.pick("nothing seen at", range(V * H))] if S.flag("a gap") else []
    dist = [S.inf if k in gone else S.const(1) for k in range(V * H)]
    ids = [-1 if k in gone else x for k, x in enumerate(ids)]
    cam = Camera(S, V, H, S.np.ones((2, 4, V * H)))
    img = S.R.rend.EdgeRender(cam, [Pixels(S, ids, dist)]).render()
    marked(S, img, V, H, ids)


@contract("P27", EDGES, cases=[dict(V=v, H=h) for v, h in ((5, 6), (7, 5))], merge=True, bounded="images of up to 7 by 5 pixels", budget=60)
def lone_pixel(S, V, H):
    """two surfaces, one of them at one pixel only"""
    a, b = [S.real("surface" + k, lo=-1, hi=4, int_=True) for k in "ab"]
    if not S.symbolic:
        a, b = int(round(a)), int(round(b))
    k = S.pick("pixel", range(V * H))
    ids = [b if i == k else a for i in range(V * H)]
    cam = Camera(S, V, H, S.np.ones((2, 4, V * H)))
    img = S.R.rend.EdgeRender(cam, [Pixels(S, ids, [S.const(1)] * (V * H))]).render()
    marked(S, img, V, H, ids)


@contract("P27", EDGES, cases=[dict(V=1, H=2), dict(V=2, H=1)], merge=True, bounded="images of two pixels, two objects", budget=60)
def nearest_outlines(S, V, H):
    """of two objects the nearer one in front of the camera counts"""
    ds = [[S.inf if S.flag("miss") else S.real("distance%d.%d" % (o, k)) for k in range(2)] for o in (0, 1)]
    cam = Camera(S, V, H, S.np.ones((2, 4, 2)))
    img = S.R.rend.EdgeRender(cam, [Pixels(S, [3, 3], ds[0]), Pixels(S, [8, 8], ds[1])]).render()
    seen = []
    for k in range(2):
        best = -1
        a, b = [S.finite(d[k]) and S.is_(S.lt(0, d[k])) for d in ds]
        if a and b:
            S.assume(S.ne(ds[0][k], ds[1][k]))
            best = 3 if S.is_(S.lt(ds[0][k], ds[1][k])) else 8
        elif a or b:
            best = 3 if a else 8
        seen.append(best)
    marked(S, img, V, H, seen)


@contract("P27", EDGES, conc=4, sym=False)
def large_outlines(S):
    """a few patches in images hundreds of pixels wide or high"""
    V, H = S.pick("size", [(3, 310), (305, 2), (2, 640), (700, 3), (40, 41), (1, 301)])
    f = S.pick("ids apart", [1, 256, 65536])
    ids = [3 * f] * (V * H)
    for k in range(4):
        i, j, h, w = S.pick("row", range(V)), S.pick("column", range(H)), S.pick("height", range(1, 9)), S.pick("width", range(1, 9))
        for a in range(i, min(V, i + h)):
            ids[a * H + j:a * H + min(H, j + w)] = [k * f if k else -1] * (min(H, j + w) - j)
    dist = [S.inf if x == -1 else 1. for x in ids]
    cam = Camera(S, V, H, S.np.ones((2, 4, V * H)))
    marked(S, S.np.array(S.R.rend.EdgeRender(cam, [Pixels(S, ids, dist)]).render()), V, H, ids)


@contract("P27", EDGES, conc=120, sym=False)
def edges(S):
    V, H = S.pick("rows", range(1, 8)), S.pick("columns", range(1, 8))
    ids = [[S.pick("id", [0, 1, 3]) for _ in range(V * H)] for o in (0, 1)]
    flat = S.flag("mostly one surface")
    ds = [[S.pick("distance", [1, 2, 3, S.inf]) for _ in range(V * H)] for o in (0, 1)]
    if flat:
        ids = [[4] * (V * H), [7] * (V * H)]
        ds = [[2] * (V * H), [S.inf] * (V * H)]
        ds[1][S.pick("odd pixel", range(V * H))] = 1
    ids[1] = [k + S.pick("ids apart", [10, 10, 256, 65536, 2**24]) for k in ids[1]]
    cam = Camera(S, V, H, S.np.ones((2, 4, V * H)))
    r = S.R.rend.EdgeRender(cam, [Pixels(S, *x) for x in zip(ids, ds)])
    seen = []
    for k in range(V * H):
        best = min(range(2), key=lambda o: ds[o][k])
        if ds[0][k] == ds[1][k] and ds[0][k] != S.inf:
            from vc.session import Skip
            raise Skip()
        seen.append(ids[best][k] if ds[best][k] != S.inf else -1)
    a = S.np.array(r.render())
    marked(S, a, V, H, seen)
    S.ensure("rendering again gives the same image", S.same_array(a, r.render()))


# ---------------------------------------------------------------- draw()
class Axis:
    def __init__(self): self.shown = []
    def imshow(self, image, extent=None, **k): self.shown.append((image, extent))
    def set_axisbelow(self, *a): pass


@contract("P27", DRAW, sym=False, conc=25)
def drawn(S):
    """balls and boxes anywhere in space, each of its own flat colour, seen from above (xy) or from the front (xz)"""
    R, np = S.R, S.np
    view = S.pick("view", ["xy", "xz"])
    a, b, depth, sign = (0, 1, 2, 1) if view == "xy" else (0, 2, 1, -1)
    where = [S.real("scene." + k, lo=-20, hi=20) for k in "xyz"]
    objs, spec = [], []
    for k in range(1 + S.choice("objects", 4)):
        p = [w + S.real("o%d.%s" % (k, c), lo=-3, hi=3) for w, c in zip(where, "xyz")]
        s = S.real("size%d" % k, lo=.3, hi=2)
        c = R.color.RGBAColor(*[S.real("colour%d.%s" % (k, x), lo=0, hi=1) for x in "rgb"])
        m = R.gooch.GoochMaterial(base_color=c, warm_color=c, cool_color=c)
        if S.flag("box"):
            objs.append(R.cg.Cuboid.from_sides(2 * s, 2 * s, 2 * s, material=m).move(*p))
            spec.append((p, s, c, True))
        else:
            objs.append(R.cg.Sphere(s, material=m).move(*p))
            spec.append((p, s, c, False))
    ax = Axis()
    many = len(objs) > 1 or S.flag("listed")
    R.rend.draw(objs if many else objs[0], view=view, axis=ax, shaded=True, resolution=24)
    S.ensure("one picture", len(ax.shown) == 1)
    img, (l, r, d, u) = ax.shown[0]
    V, H = img.shape[:2]
    lo = [min(p[k] - s for p, s, _, _ in spec) for k in (0, 1, 2)]
    hi = [max(p[k] + s for p, s, _, _ in spec) for k in (0, 1, 2)]
    S.ensure("everything is in the picture", l <= lo[a] + 1e-6 and hi[a] <= r + 1e-6 and d <= lo[b] + 1e-6 and hi[b] <= u + 1e-6)
    for i in range(V):
        for j in range(H):
            x, y = l + (r - l) * j / (H - 1), u + (d - u) * i / (V - 1)
            best, top, vague = None, -S.inf, False
            for p, s, c, box in spec:
                e, f = x - p[a], y - p[b]
                if box:
                    m, h = s - max(abs(e), abs(f)), s
                else:
                    q = s * s - e * e - f * f
                    m, h = q, q ** .5 if q > 0 else 0
                vague |= abs(m) < 1e-3
                z = p[depth] * sign + h
                if m > 0:
                    vague |= abs(z - top) < 1e-3
                    if z > top:
                        best, top = c, z
            if not vague:
                S.ensure("each pixel shows the topmost object there, or nothing", veq(S, img[i, j].tolist(), best.tolist() if best is not None else [0] * 4))
    ax = Axis()
    R.rend.draw(objs, view=view, axis=ax, shaded=False, resolution=24)
    S.ensure("outlines of the same picture", len(ax.shown) == 1 and ax.shown[0][0].shape == img.shape and S.same_array(ax.shown[0][1], [l, r, d, u]))


@contract("P27", DRAW, sym=False, conc=25)
def thin_scene(S):
    """a scene much longer than it is high, or the other way round: however thin, it is in the picture and seen"""
    R, np = S.R, S.np
    view = S.pick("view", ["xy", "xz"])
    thin = S.pick("thin", [1, .05, 1e-2, 2e-3, 1e-3, 1e-5])
    sides = [S.pick("side " + k, [1, thin]) for k in "xyz"]
    where = [S.real("where." + k, lo=-20, hi=20) for k in "xyz"]
    c = R.color.RGBAColor(.2, .4, .6)
    m = R.gooch.GoochMaterial(base_color=c, warm_color=c, cool_color=c)
    o = R.cg.Cuboid.from_sides(*[3 * s for s in sides], material=m)
    if S.flag("round"):
        o = R.cg.Sphere(1.5, material=m).scale(*sides)
    o.move(*where)
    for shaded in (True, False):
        ax = Axis()
        R.rend.draw([o], view=view, axis=ax, shaded=shaded, resolution=S.pick("resolution", [16, 24, 64, 120]))
        S.ensure("one picture", len(ax.shown) == 1)
        img, (l, r, d, u) = ax.shown[0]
        for k, (a, b) in zip((0, 1 if view == "xy" else 2), ((l, r), (d, u))):
            S.ensure("everything is in the picture", a <= where[k] - 1.5 * sides[k] + 1e-6 and where[k] + 1.5 * sides[k] - 1e-6 <= b)
        S.ensure("the object is seen", bool((np.asarray(img)[..., 3] > 0).any()))


@contract("P27", EDGES + SHADED, sym=False, conc=25)
def pictures(S):
    """the library's own shapes seen by a real camera: per pixel, against that pixel's ray on its own"""
    R, np = S.R, S.np
    V, H = 2 + S.choice("rows", 8), 2 + S.choice("columns", 8)
    objs = []
    for k in range(1 + S.choice("objects", 3)):
        m = R.gooch.GoochMaterial(*[R.color.RGBAColor(*[S.real("c%d.%s.%s" % (k, t, x), lo=0, hi=1) for x in "rgb"]) for t in ("base", "warm", "cool")])
        o = S.pick("kind", [lambda: R.cg.Sphere(1, material=m), lambda: R.cg.Cuboid(material=m), lambda: R.cg.Cylinder(1, -1, 1, material=m)])()
        if S.flag("hollowed"):
            o = R.csg.difference(o, R.cg.Sphere(.7, material=m).move_x(-.8))
        objs.append(o.rotate_z(S.real("turn%d" % k)).move(*[S.real("o%d.%s" % (k, c), lo=-3, hi=3) for c in "xyz"]))
    cam = R.cg.OrthographicCamera(H, 5, (V + .1) / H).rotate_y(S.real("tilt")).move_x(S.real("x", lo=-6, hi=0))
    light = R.cg.Point(*[S.real("light." + k, lo=5, hi=9) for k in "xyz"])
    poses = [np.array(o.get_world_transform()) for o in objs]
    img = np.array(R.rend.ShadedRenderer(cam, objs, light).render())
    rays = cam.generate_rays()
    names = {}
    for o in objs:
        names.update(dict(o.surface_ids))
    seen = []
    for k in range(V * H):
        ray = rays[..., k:k + 1]
        best = (S.inf, -1)
        for o in objs:
            h, i = o.intersect(ray)
            for t, s in zip(h[:, 0], i[:, 0]):
                if t > 0 and t < best[0]:
                    best = (t, s)
        seen.append(int(best[1]))
        want = names[best[1]].shade(ray, np.array([best[0]]), light_positions=light)[:, 0].tolist() if best[1] != -1 else [0] * 4
        S.ensure("the colour its nearest surface has there", veq(S, img[k // H, k % H].tolist(), want))
    marked(S, np.array(R.rend.EdgeRender(cam, objs).render()), V, H, seen)
    S.ensure("nothing has moved", S.and_(*[S.same_array(p, o.get_world_transform()) for p, o in zip(poses, objs)]))
    S.ensure("the same again", S.same_array(img, R.rend.ShadedRenderer(cam, objs, light).render()))
