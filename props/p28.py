"""P28: shading and wavelength colours are bounded and well blended."""
from vc.engine import contract
from .common import *

GOOCH = ["tinygfx.g3d.materials.gooch.GoochMaterial.shade", "tinygfx.g3d.materials.color.RGBAColor.__init__"]
RGB = ["pyrayt.utils.wavelength_to_rgb"]
NOTE = "rays in batches under one to three lights (bounded), a single ray under any number (the mean over lights is linear in what differs between them); every gamma; powers are known by: base and exponent determine them, between 0 and 1 they stay there"


def colour(S, tag, opaque=None):
    c = [S.real("%s.%s" % (tag, k), lo=0, hi=1) for k in "rgba"]
    if opaque:
        c[3] = S.const(1)
    return S.R.color.RGBAColor(*c), c


def gooch(S, opaque=None):
    (base, b), (warm, w), (cool, c) = [colour(S, t, opaque) for t in ("base", "warm", "cool")]
    al, be = S.real("alpha", lo=0, hi=1), S.real("beta", lo=0, hi=1)
    m = S.R.gooch.GoochMaterial(base_color=base, warm_color=warm, cool_color=cool, alpha=al, beta=be)
    return m, [(1 - al) * x + al * y for x, y in zip(w, b)], [(1 - be) * x + be * y for x, y in zip(c, b)]


def lamp_points(S, k): return [[S.real("light%d.%s" % (i, c)) for c in "xyz"] for i in range(k)]


def as_lights(S, pts, flat):
    return S.array(pts[0] + [1]) if flat else S.array([[p[i] for p in pts] for i in range(3)] + [[1] * len(pts)])


def between(S, a, b, x): return S.or_(S.and_(S.le(a, x), S.le(x, b)), S.and_(S.le(b, x), S.le(x, a)))


def warmth(S, q, n, pts):
    """mean over the lights of the share of the warm tone"""
    return S.div(sum(shares(S, q, n, pts)), len(pts))


def shares(S, q, n, pts):
    r = []
    for l in pts:
        v = [a - b for a, b in zip(l, q[:3])]
        L = S.sqrt(S.dot(v, v))
        u = [S.div(x, L) for x in v]
        c = S.dot(u, n[:3])
        S.lemma("the light direction is a unit vector", S.eq(S.dot(u, u), 1))
        S.derive("a cosine is at most 1", 2 - 2 * c, ("+",) + tuple(("sq", a - b) for a, b in zip(u, n)))
        S.derive("a cosine is at least -1", 2 + 2 * c, ("+",) + tuple(("sq", a + b) for a, b in zip(u, n)))
        r.append(S.div(1 + c, 2))
    return r


def far(S, N, pos, pts):
    for q in S.lanes(N, pos):
        for l in pts:
            v = [a - b for a, b in zip(l, q[:3])]
            S.assume(S.lt(S.const("0.0001"), S.dot(v, v)))


@contract("P28", GOOCH, merge=True, cases=[dict(lights=k, opaque=o) for k in (0, 1, 2, 3) for o in (False, True)], budget=60)
def tones(S, lights, opaque):
    N = S.N()
    m, warm, cool = gooch(S, opaque)
    rays, nrm = S.rays("ray", N, unit=True), S.unit("normal", N)
    pts = lamp_points(S, max(1, lights))
    far(S, N, rays[0], pts)
    L = as_lights(S, pts, lights == 0)
    r0, n0, l0 = S.np.array(rays), S.np.array(nrm), S.np.array(L)
    px = m.shade(rays, nrm, L)
    S.ensure("one colour per ray", S.shape_ok(px, (4, N)))
    S.ensure("rays, normals and lights are left alone", S.and_(S.same_array(r0, rays), S.same_array(n0, nrm), S.same_array(l0, L)))
    for c, q, n in S.lanes(N, px, S.np.array(rays[0]), nrm):
        t = warmth(S, q, n, pts)
        S.lemma("a share", S.and_(S.le(0, t), S.le(t, 1)))
        for k in range(4):
            S.ensure("the tones blended by the mean of (1 + cos)/2 over the lights", S.eq(c[k], warm[k] * t + cool[k] * (1 - t)))
            S.general("between the two tones", lambda w, o, t: between(S, w, o, w * t + o * (1 - t)), (warm[k], 0, 1), (cool[k], 0, 1), (t, 0, 1))
            S.general("a colour", lambda w, o, t: S.and_(S.le(0, w * t + o * (1 - t)), S.le(w * t + o * (1 - t), 1)), (warm[k], 0, 1), (cool[k], 0, 1), (t, 0, 1))
        if opaque:
            S.ensure("opaque", S.eq(c[3], 1))


@contract("P28", GOOCH, merge=True, budget=60)
def any_lights(S):
    """one ray under any number of lights"""
    M = S.N("lights")
    m, warm, cool = gooch(S)
    p, n = S.point("p"), S.unit("normal")
    pts = S.point("light", M)
    for l in S.lanes(M, pts):
        v = [a - b for a, b in zip(l[:3], S.tolist(p)[:3])]
        S.assume(S.lt(S.const("0.0001"), S.dot(v, v)))
    ray = S.np.stack((p, S.vector("direction", unit=True)), axis=0)
    if S.flag("as a column"):
        ray, n = S.np.reshape(ray, (2, 4, 1)), S.np.reshape(n, (4, 1))
    l0 = S.np.array(pts)
    px = m.shade(ray, n, pts)
    S.ensure("the lights are left alone", S.same_array(l0, pts))
    xs = [x for l in S.lanes(M, pts) for x in shares(S, S.tolist(p), S.tolist(S.np.reshape(n, (4,))), [l[:3]])]
    t = S.mean_between(M, xs, 0, 1)
    got = S.entries(px)
    S.ensure("one colour", len(got) == 4)
    for c, w, o in zip(got, warm, cool):
        S.ensure("the tones blended by the mean of (1 + cos)/2 over the lights", S.eq(c, w * t + o * (1 - t)))


@contract("P28", GOOCH, merge=True)
def facing(S):
    """the normal points straight at the light, or straight away from it"""
    m, warm, cool = gooch(S)
    p, n = S.point("p"), S.unit("normal")
    d = S.real("distance", lo=S.const("0.01"))
    away = S.flag("facing away")
    q, v = S.tolist(p), S.tolist(n)
    light = S.array([q[i] + (-d if away else d) * v[i] for i in range(3)] + [1])
    ray = S.np.stack((p, S.vector("direction", unit=True)), axis=0)
    if S.flag("as a column"):
        ray, n = S.np.reshape(ray, (2, 4, 1)), S.np.reshape(n, (4, 1))
    px = m.shade(ray, n, light)
    got = S.entries(px)
    S.ensure("one colour", len(got) == 4)
    S.ensure("fully cool" if away else "fully warm", veq(S, got, cool if away else warm))


@contract("P28", GOOCH)
def defaults(S):
    R = S.R
    a, b = R.gooch.GoochMaterial(), R.gooch.GoochMaterial()
    a.base_color.r = S.real("red", lo=0, hi=1)
    S.ensure("each material has its own colours", S.and_(veq(S, S.tolist(b.base_color), [0, 0, 0, 1]), veq(S, S.tolist(a.warm_color), [0, 0, 0, 1])))
    for n in ("WHITE", "RED", "GREEN", "BLUE", "YELLOW", "ORANGE", "BLACK"):
        g = getattr(R.gooch, n)
        S.ensure("the named material has the named colour", veq(S, S.tolist(g.base_color), S.tolist(getattr(R.color, n))))
        S.ensure("weights of a blend", S.and_(S.le(0, g.alpha), S.le(g.alpha, 1), S.le(0, g.beta), S.le(g.beta, 1)))
        for c in (g.base_color, g.warm_color, g.cool_color):
            S.ensure("opaque colours", S.and_(S.eq(c.a, 1), *[S.and_(S.le(0, x), S.le(x, 1)) for x in S.tolist(c)]))
    x = [S.real(k, lo=0, hi=1) for k in "rgba"]
    c = R.color.RGBAColor(*x)
    S.ensure("channels read back", veq(S, [c.r, c.g, c.b, c.a], x))
    y = [S.real("new " + k, lo=0, hi=1) for k in "rgba"]
    c.r, c.g, c.b, c.a = y
    S.ensure("channels written", S.and_(veq(S, [c.r, c.g, c.b, c.a], y), veq(S, S.tolist(c), y)))


# ---------------------------------------------------------------- wavelengths
def gamma(S): return S.real("gamma", pos=True) if S.symbolic else S.real("gamma", lo=.25, hi=4)


def wavelengths(S, N=None):
    kw = dict(lo=S.const("0.36"), hi=S.const("0.78")) if S.flag("around the visible range") else dict(pos=True)
    return S.arr("wavelength", (), N, **kw) if N is not None else S.real("wavelength", **kw)


def rgb(S, w, *a): return S.tolist(S.R.utils.wavelength_to_rgb(w, *a))


@contract("P28", RGB, budget=60)
def in_range(S):
    N = S.N()
    w = wavelengths(S, N)
    g = gamma(S)
    w0 = S.np.array(w)
    out = S.R.utils.wavelength_to_rgb(w, g)
    S.ensure("one colour per wavelength", S.shape_ok(out, (N, 3)))
    S.ensure("the wavelengths are left alone", S.same_array(w0, w))
    for c, x in S.lanes(N, S.np.array(out.T), w):
        S.ensure("channels between 0 and 1", S.and_(*[S.and_(S.le(0, v), S.le(v, 1)) for v in c]))
        S.ensure("the same colour as that wavelength alone", veq(S, c, rgb(S, x, g)))
    for c, x in S.lanes(N, S.np.array(S.R.utils.wavelength_to_rgb(w).T), w):
        S.ensure("the default gamma is 0.8", veq(S, c, rgb(S, x, S.const("0.8"))))


@contract("P28", RGB)
def beyond_the_limits(S):
    w, g = S.real("wavelength", pos=True), gamma(S)
    if S.flag("red"):
        S.assume(S.le(S.const("0.75"), w))
        S.ensure("constant above 0.75 um", veq(S, rgb(S, w, g), rgb(S, S.const("0.75"), g)))
    else:
        S.assume(S.le(w, S.const("0.38")))
        S.ensure("constant below 0.38 um", veq(S, rgb(S, w, g), rgb(S, S.const("0.38"), g)))


@contract("P28", RGB, budget=60)
def corrected_by_gamma(S):
    """the colour is the linear one (gamma 1) raised to gamma"""
    w, g = wavelengths(S), gamma(S)
    for a, b in zip(rgb(S, w, g), rgb(S, w, 1)):
        S.assume(S.or_(S.le(b, 0), S.lt(S.const("0.001"), b)) if not S.symbolic else True)
        S.ensure("gamma correction", S.eq(a, S.power(b, g)))


@contract("P28", RGB, merge=True, budget=60)
def continuous(S):
    """linear colours change by at most 60 per um; with 'corrected by gamma' every gamma then gives a continuous colour"""
    u = wavelengths(S)
    d = S.real("step", lo=0, hi=S.const("0.01"))
    for a, b in zip(rgb(S, u, 1), rgb(S, u + d, 1)):
        S.ensure("neighbouring wavelengths have neighbouring colours", S.and_(S.le(a - b, 60 * d), S.le(b - a, 60 * d)))
