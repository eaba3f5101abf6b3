"""Contract sessions: the same contract text is evaluated symbolically (obligations) and concretely (replay, cross-check)."""
import math, itertools, traceback
from fractions import Fraction as F
import numpy as np
from . import sym, nparr, loader
from .sym import SReal, B, Unsupported, Infeasible
from .path import POS

GAP = 1e-6


class Skip(Exception):
    """concrete inputs outside the precondition"""


class Violated(Exception):
    pass


# =============================================================== symbolic
def _force(x):
    if isinstance(x, list):
        return [_force(y) for y in x]
    return x.force() if type(x) is sym.Lazy else x


class Sym:
    symbolic = True
    inf = math.inf

    def __init__(self, ctx, tree, opts=None):
        self.ctx, self.R, self.np = ctx, tree, tree.np
        self.obl = []            # (name, status, backend, secs, model)
        self.opts = opts or {}
        self.timeout = self.opts.get("timeout", 4000)
        self.reached = False
        self.notes = []

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, strict=False, int_=False):
        sg = POS if pos else frozenset((0, 1)) if nonneg else frozenset((-1, 1)) if nonzero else frozenset((-1, 0, 1))
        samp = None
        if lo is not None and hi is not None:
            samp = self.ctx.rng.uniform(float(lo), float(hi), 96)
            m = self.ctx.rng.rand(96) < .1
            if not strict:
                samp[m] = self.ctx.rng.choice([float(lo), float(hi)], m.sum())
        elif lo is not None:
            samp = float(lo) + np.abs(self.ctx.sample_values(POS))
        elif hi is not None:
            samp = float(hi) - np.abs(self.ctx.sample_values(POS))
        v = self.ctx.var(name, sg, isint=int_, samp=samp)
        cmp = sym.lt if strict else sym.le
        if lo is not None:
            self.ctx.assume(cmp(lo, v))
        if hi is not None:
            self.ctx.assume(cmp(v, hi))
        return v

    def between(self, name, lo, hi):
        """a real from the closed interval [lo, hi]"""
        a, b = self.ctx.psamp(sym.poly(lo)), self.ctx.psamp(sym.poly(hi))
        t = self.ctx.rng.rand(96)
        t[self.ctx.rng.rand(96) < .1] = 0
        t[self.ctx.rng.rand(96) < .1] = 1
        v = self.ctx.var(name, samp=a + t * (b - a))
        self.assume(sym.and_(sym.le(lo, v), sym.le(v, hi)))
        return v

    def gap(self, x, g=F(1, 10**6)):
        """assume x is exactly 0 or well away from 0 (floating-point comparisons with tolerance are decided exactly there)"""
        if self.choice("gap", 3) == 0:
            self.assume(sym.eq(x, 0))
        elif bool(sym.lt(g, x)):
            pass
        else:
            self.assume(sym.lt(x, -g))
        return x

    def choice(self, name, n):
        """nondeterministic choice among n alternatives (every one is explored)"""
        k = 0
        while k < n - 1:
            self.ctx.nd += 1
            if bool(B("nd", "c%d:%s" % (self.ctx.nd, name))):
                break
            k += 1
        self.ctx.choices.append((name, k))
        return k

    def amount(self, name, of): return self.real(name, pos=of == "scale")

    def flag(self, name): return self.choice(name, 2) == 1

    def pick(self, name, xs):
        xs = list(xs)
        return xs[self.choice(name, len(xs))]

    def N(self, name="n", lo=1): return nparr.new_lane(name, lo=lo)

    def _own(self, N, first):
        """the atoms made since belong to the lanes of N"""
        if N is not None and isinstance(N, nparr.LaneDim):
            self.ctx.of_lane.setdefault(N.prime, set()).update(range(first, len(self.ctx.atoms)))

    def mean(self, N, xs):
        """mean over all lanes of what is x for each"""
        (x,) = xs
        return sym.div(self.ctx.lane_sum(nparr.lanes()[N.prime], x), SReal(N.p))

    def mean_between(self, N, xs, lo, hi):
        """a mean lies between bounds common to all lanes"""
        for x in xs:
            self.ensure("within the bounds", sym.and_(sym.le(lo, x), sym.le(x, hi)))
        m = self.mean(N, xs)
        self.assume(sym.and_(sym.le(lo, m), sym.le(m, hi)))
        return m

    def arr(self, name, shape, N=None, **kw):
        """array of inputs; last axis is the lane axis when N is given"""
        full = tuple(shape) + ((N,) if N is not None else ())
        first = len(self.ctx.atoms)
        a = nparr.empty(full)
        for j in np.ndindex(*shape):
            v = self.real(name + ("[%s]" % ",".join(map(str, j)) if shape else ""), **kw)
            if N is not None:
                a.p[j + (0,)] = v
            else:
                a.p[j] = v
        self._own(N, first)
        return a

    def unit(self, name, N=None, w=True):
        """4-vector (w = 0) of unit length, per lane"""
        c = self.ctx
        first = len(c.atoms)
        r = c.rng.normal(size=(3, 96))
        ax = c.rng.rand(96) < .15
        r[:, ax] = np.eye(3)[c.rng.randint(0, 3, ax.sum())].T * c.rng.choice([-1, 1], ax.sum())
        r /= np.linalg.norm(r, axis=0)
        v = [c.var("%s[%d]" % (name, i), samp=r[i].copy()) for i in range(3)]
        a = next(iter(v[2].p))[0][0]
        c.sqrules[a] = sym.p_add({sym.ONE: F(1)}, sym.poly(sym.add(sym.mul(v[0], v[0]), sym.mul(v[1], v[1]))), -1)
        out = nparr.zeros((4 if w else 3,) + ((N,) if N is not None else ()))
        for i in range(3):
            out.p[(i, 0) if N is not None else i] = v[i]
        self._own(N, first)
        return out

    def point(self, name, N=None, **kw):
        first = len(self.ctx.atoms)
        a = nparr.ones((4,) + ((N,) if N is not None else ()))
        for i in range(3):
            a.p[(i, 0) if N is not None else i] = self.real("%s[%d]" % (name, i), **kw)
        self._own(N, first)
        return a

    def vector(self, name, N=None, nonzero=True, unit=False):
        if unit:
            return self.unit(name, N)
        first = len(self.ctx.atoms)
        a = nparr.zeros((4,) + ((N,) if N is not None else ()))
        vs = [self.real("%s[%d]" % (name, i)) for i in range(3)]
        for i in range(3):
            a.p[(i, 0) if N is not None else i] = vs[i]
        if nonzero:
            self.assume(sym.lt(0, self.dot(vs, vs)))
        self._own(N, first)
        return a

    def rays(self, name, N=None, unit=False, nonzero=True):
        return nparr.stack((self.point(name + ".o", N), self.vector(name + ".d", N, nonzero, unit)), axis=0)

    def matrix(self, name, exact=False):
        """an arbitrary invertible affine transform; exact: its inverse is spelled out (adjugate over determinant) instead of axiomatised"""
        c = self.ctx
        m = nparr.identity(4)
        A = np.zeros((96, 4, 4))
        for k in range(96):
            while True:
                a = c.rng.uniform(-2, 2, (3, 3))
                if abs(np.linalg.det(a)) > .5:
                    break
            A[k, :3, :3] = a
            A[k, :3, 3] = c.rng.uniform(-3, 3, 3)
        for i in range(3):
            for j in range(4):
                m.p[i, j] = c.var("%s[%d,%d]" % (name, i, j), samp=A[:, i, j].copy())
        if exact:
            self.assume(sym.not_(sym.eq(nparr.det3(m.p[:3, :3]), 0)))
        else:
            nparr.register_opaque(m)
        return m

    # ---- arithmetic and logic usable in both modes
    lt, le, eq = staticmethod(sym.lt), staticmethod(sym.le), staticmethod(sym.eq)
    def gt(s, a, b): return sym.lt(b, a)
    def ge(s, a, b): return sym.le(b, a)
    def ne(s, a, b): return sym.not_(sym.eq(a, b))
    and_, or_, not_, implies, iff = staticmethod(sym.and_), staticmethod(sym.or_), staticmethod(sym.not_), staticmethod(sym.implies_), staticmethod(sym.iff_)
    sqrt, cos, sin, div, power = staticmethod(sym.sqrt), staticmethod(sym.cos), staticmethod(sym.sin), staticmethod(sym.div), staticmethod(sym.power)
    def all_(s, xs): return sym.and_(*list(xs))
    def any_(s, xs): return sym.or_(*list(xs))
    def pi(s): return sym.ctx().pi()
    def dot(s, a, b):
        r = F(0)
        for x, y in zip(a, b):
            r = r + x * y
        return r
    def cross(s, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    def finite(s, x): return not isinstance(sym.num(x), float)
    def isinf(s, x): x = sym.num(x); return isinstance(x, float) and math.isinf(x)
    def const(s, x): return F(str(x)) if isinstance(x, (float, str)) else F(x)
    def is_(s, cond):
        """decide a condition (explores both outcomes)"""
        return bool(cond)
    def provably(s, cond, timeout=500):
        """whether the condition follows from what is known here (no obligation, no decision: only looked up)"""
        if isinstance(cond, bool):
            return cond
        r = s.ctx.known(cond)
        if r is not None:
            return r
        for x in (cond.a if cond.k == "and" else [cond]):
            if isinstance(x, bool):
                ok = x
            elif x.k == "eq":
                with np.errstate(all="ignore"):
                    v = s.ctx.psamp(x.a)[s.ctx.alive]
                ok = not np.any(np.abs(v) > 1e-6)
            else:
                ok = True
            if not ok:
                return False
        return s.ctx.prove(cond, timeout)[0] == "proved"
    def max_(s, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.smax(r, x)
        return r
    def min_(s, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.smin(r, x)
        return r
    def abs_(s, x): return sym.absolute(x)
    def num(s, x): return sym.num(x)

    # ---- views
    def lanes(self, N, *arrs):
        """for each lane: every array reduced to a nested list of scalars without its lane (last) axis"""
        out = []
        for a in arrs:
            out.append(self._lane(a))
        return [tuple(out) if len(out) != 1 else out[0]]

    def _lane(self, a):
        return _force(self._lane0(a))

    def _lane0(self, a):
        a = nparr.asarr(a)
        la = nparr.lane_axis(a.d)
        if la is None:
            if a.p.ndim and a.d[-1] == 1:
                return a.p[..., 0].tolist()
            return a.p.tolist()
        if a.p.shape[la[0]] != 1:
            raise Unsupported("lane axis holds several blocks or no lane")
        return np.take(a.p, 0, la[0]).tolist() if a.p.ndim > 1 else a.p[0]

    def lane_index(self, N):
        """generic index of the lane within the batch, one per lane"""
        return [nparr.lanes()[N.prime].iota]

    def grid(self, V, H):
        """how many pixels V rows of H pixels are, numbered row by row"""
        l = nparr.pair_lane(V.prime, H.prime)
        l.row_major(V.prime, H.prime)
        return nparr.LaneDim(1, l.prime)

    def cells(self, V, H, *arrs):
        """for each pixel: (row, column, arrays over the pixels reduced to their entry for it)"""
        ls = nparr.lanes()
        return [(ls[V.prime].iota, ls[H.prime].iota) + tuple(self._lane(a) for a in arrs)]

    def image(self, V, H, img):
        """an image as an array over its pixels"""
        if isinstance(img, nparr.ndarray):
            raise Unsupported("image without a grid of pixels")
        return nparr.moveaxis(nparr.wrap(img.p, img.d[:img.ax] + (nparr.pair_lane(V.prime, H.prime).prime,) + img.d[img.ax + 2:], img.kind), img.ax, -1)

    def image_ok(self, img, shape):
        return len(img.d) == len(shape) and all(x == nparr.pdim(y)[1] for x, y in zip(img.d, shape))

    def count(self, N): return SReal(N.p) if isinstance(N, nparr.LaneDim) else N

    def shape_ok(self, a, shape):
        a = nparr.asarr(a)
        if len(a.d) != len(shape):
            return False
        return all(x == nparr.pdim(y)[1] for x, y in zip(a.d, shape))

    def same_array(self, a, b):
        a, b = nparr.asarr(a), nparr.asarr(b)
        if a.d != b.d or a.p.shape != b.p.shape:
            return False
        return sym.and_(*[self.eqv(x, y) for x, y in zip(a.p.reshape(-1), b.p.reshape(-1))])

    def eqv(self, x, y):
        x, y = sym.num(x), sym.num(y)
        if sym.same(x, y):
            return True
        return sym.eq(x, y)

    def entries(self, a): return _force(list(nparr.asarr(a).p.reshape(-1)))
    def tolist(self, a): return _force(nparr.asarr(a).p.tolist())
    def array(self, x): return nparr.asarr(x)

    # ---- obligations
    def assume(self, c):
        r = self.ctx.known(c) if not isinstance(c, bool) else c
        if r is False:
            raise Infeasible()
        if r is None:
            if self.ctx.trail is not None and not self.ctx.feasible(c):
                raise Infeasible()
            self.ctx.learn(c)

    def ensure(self, name, c, hints=(), timeout=None, scale=None):
        self.reached = True
        st, be, secs, model = self.ctx.prove(c, timeout or self.timeout, hints)
        self.obl.append((name, st, be, secs, model))
        return st == "proved"

    def _structure(self, st):
        """value and sign set of a structured expression: ('*', ..), ('+', ..), ('sq', x), leaves scalars"""
        if isinstance(st, tuple):
            if st[0] == "sq":
                v, s = self._structure(st[1])
                return v * v, POS if 0 not in s else frozenset((0, 1))
            r = [self._structure(x) for x in st[1:]]
            v, s = r[0]
            for w, t in r[1:]:
                if st[0] == "*":
                    v = v * w
                    s = frozenset(a * b for a in s for b in t)
                else:
                    v = v + w
                    s = frozenset(a if a == b or b == 0 else b if a == 0 else 9 for a in s for b in t)
                    if 9 in s:
                        s = frozenset((-1, 0, 1))
            return v, s
        p = sym.poly(st)
        return st, self.ctx.lin_sign(p)

    def derive(self, name, target, structure):
        """obligation target == structure; the sign that follows from the structure becomes known"""
        v, s = self._structure(structure)
        if self.ensure(name, sym.eq(target, v)) and len(s) < 3:
            d = sym.poly(target)
            try:
                if s == frozenset((1,)):
                    self.ctx.learn_implied(sym.lit("lt", sym.p_scale(d, -1)))
                elif s == frozenset((-1,)):
                    self.ctx.learn_implied(sym.lit("lt", d))
                elif s == frozenset((0,)):
                    self.ctx.learn_implied(sym.lit("eq", d))
                elif s == frozenset((0, 1)):
                    self.ctx.learn_implied(sym.lit("le", sym.p_scale(d, -1)))
                elif s == frozenset((0, -1)):
                    self.ctx.learn_implied(sym.lit("le", d))
                elif s == frozenset((1, -1)):
                    self.ctx.learn_implied(sym.not_(sym.lit("eq", d)))
            except Infeasible:
                raise
        return s

    def locate(self, t, *roots):
        """case split: on which side of each root t lies"""
        self.ctx.light = True
        for r in roots:
            if self.finite(r):
                bool(sym.lt(t, r)) or bool(sym.lt(r, t))
        self.ctx.light = False

    def root(self, x):
        """hint: a radicand that equals x*x has the root |x| (checked in the ring before it is used)"""
        if isinstance(x, SReal):
            self.ctx.roots.append(x.p)

    def lemma(self, name, c, hints=(), timeout=None):
        """an obligation that later obligations may use"""
        if self.ensure(name, c, hints, timeout) and not isinstance(c, bool):
            try:
                self.ctx.learn(c)
            except Infeasible:
                pass

    def general(self, name, f, *args):
        """obligation f(x1, x2, ...) for the given (value, lo, hi), proved for every choice of numbers between those bounds"""
        self._gen = getattr(self, "_gen", {})
        fresh = []
        for i, (x, lo, hi) in enumerate(args):
            self.lemma("%s: argument %d in its range" % (name, i), sym.and_(sym.le(lo, x), sym.le(x, hi)))
            fresh.append((lo, hi))
        k = (name, tuple(fresh))
        if k not in self._gen:
            self._gen[k] = [self.real("any%d" % (len(self._gen) * 10 + i), lo=lo, hi=hi) for i, (lo, hi) in enumerate(fresh)]
        self.ensure(name, f(*self._gen[k]))

    def ensure_all(self, name, cs, **k):
        for c in cs:
            self.ensure(name, c, **k)

    def same_chance(self, f, g):
        """run f and then g on the same sequence of random numbers"""
        self.ctx.tape = ("record", [])
        try:
            a = f()
            self.ctx.tape = ("play", self.ctx.tape[1])
            return a, g()
        finally:
            self.ctx.tape = None

    def raises(self, f, *exc):
        """run f; True if it raised one of exc"""
        try:
            f()
        except exc:
            return True
        return False


# =============================================================== concrete
def _k3and(xs):
    r = True
    for x in xs:
        if x is None:
            r = None
        elif not x:
            return False
    return r


def _k3or(xs):
    r = False
    for x in xs:
        if x is None:
            r = None
        elif x:
            return True
    return r


class Conc:
    symbolic = False
    inf = math.inf
    TT, TF = 1e-7, 2e-5      # comparisons: sure when they hold by more than TF, undecided in between
    ET, EF = 1e-9, 1e-6      # equations

    def __init__(self, tree, rng, values=None, choices=None, opts=None):
        self.R, self.np, self.rng = tree, tree.np, rng
        self.values = values or {}
        self.choices = list(choices) if choices is not None else None
        self.used = {}
        self.fail = []
        self.held = {}
        self.reached = False
        self.opts = opts or {}
        self.alike, self.close = {}, {}
        self.mode = rng.randint(4)
        if "tol" in self.opts:
            self.ET, self.EF = self.opts["tol"]

    def _rand(self):
        r = self.rng.rand()
        if r < .12:
            return 0.0
        if r < .3:
            return float(self.rng.choice([1, -1, .5, -.5, 2, -2, .25, 3]))
        return float(self.rng.uniform(-3, 3))

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, strict=False, int_=False, lane=0):
        if name in self.values and lane == 0:
            v = float(self.values[name])
            if int_:
                v = int(round(v))
        else:
            for _ in range(50):
                if lo is not None and hi is not None:
                    lo_, hi_ = float(lo), float(hi)
                    v = lo_ + (hi_ - lo_) * self.rng.rand()
                    if not strict and self.rng.rand() < .1:
                        v = float(self.rng.choice([lo_, hi_]))
                elif lo is not None:
                    v = float(lo) + abs(self._rand())
                elif hi is not None:
                    v = float(hi) - abs(self._rand())
                else:
                    v = self._rand()
                    if int_:
                        v = int(round(3 * v))
                if pos or nonneg:
                    v = abs(v)
                if (pos or nonzero) and abs(v) < 1e-2:
                    continue
                break
        if lane == 0:
            self.used[name] = v
        if (pos or nonzero) and v == 0 or (pos or nonneg) and v < 0:
            raise Skip()
        if lo is not None and (v < lo or strict and v <= lo) or hi is not None and (v > hi or strict and v >= hi):
            raise Skip()
        return v

    def amount(self, name, of):
        """how far to move, turn (degrees or radians) or scale: also hardly at all, a lot, and in whole turns"""
        r = self.rng.rand()
        if name in self.values or of not in ("move", "rotate", "rad", "scale") or r < .4:
            return self.real(name, pos=of == "scale")
        full = 360. if of == "rotate" else 2 * math.pi
        if of == "scale":
            v = float(self.rng.choice([1 + 1e-3 * self.rng.uniform(-1, 1), self.rng.uniform(.05, .3), self.rng.uniform(3, 20)]))
        elif of == "move":
            v = float(self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(-5, 2))
        elif r < .6:
            v = float(self.rng.randint(-8, 9) * full / 8)
        elif r < .8:
            v = float(self.rng.uniform(-1, 1) * full * self.rng.choice([1, 10]))
        else:
            v = float(self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(-4, 0) * full / 360)
        self.used[name] = v
        return v

    def between(self, name, lo, hi):
        lo, hi = float(lo), float(hi)
        if lo > hi:
            raise Skip()
        if name in self.values:
            v = float(self.values[name])
            if not lo - 1e-9 <= v <= hi + 1e-9:
                raise Skip()
            v = min(max(v, lo), hi)
        else:
            r = self.rng.rand()
            v = lo if r < .1 else hi if r > .9 else lo + (hi - lo) * self.rng.rand()
        self.used[name] = v
        return v

    def gap(self, x, g=GAP):
        if not (x == 0 or abs(x) > g):
            raise Skip()
        return x

    def choice(self, name, n):
        if self.choices:
            for i, (m, k) in enumerate(self.choices):
                if m == name:
                    self.choices.pop(i)
                    k = min(k, n - 1)
                    self.used.setdefault("choice:" + name, []).append(k)
                    return k
        k = int(self.rng.randint(n))
        self.used.setdefault("choice:" + name, []).append(k)
        return k

    def flag(self, name): return self.choice(name, 2) == 1

    def pick(self, name, xs):
        xs = list(xs)
        return xs[self.choice(name, len(xs))]

    def N(self, name="n", lo=1):
        if name in self.values:
            n = int(round(self.values[name]))
            if n > 2000:
                raise Skip()
        else:
            n = int(self.rng.choice([1, 2, 3, 5]))
            if self.opts.get("big") and self.rng.rand() < .6:
                n = int(self.rng.choice(self.opts["big"]))
        self.used[name] = n
        if n < lo:
            n = lo
        # now and then only a few lanes of a batch differ from the first
        self.alike.pop(n, None)
        if n > 2 and self.rng.rand() < .25:
            self.alike[n] = np.ones(n, bool)
            self.alike[n][self.rng.randint(1, n, 1 + self.rng.randint(2))] = False
        # or lanes are close to each other without being equal
        self.close.pop(n, None)
        if n > 1 and n not in self.alike and self.rng.rand() < .25:
            self.close[n] = float(self.rng.choice([1e-3, 1e-4, 1e-5, 1e-6]))
        return n

    def _few(self, a, N, unit=False):
        if N is not None and N in self.alike:
            m = self.alike[N]
            a[..., m] = a[..., :1]
        elif N is not None and N in self.close and a.dtype == float and self.rng.rand() < .7:
            a[..., 1:] = a[..., :1] + self.close[N] * (a[..., 1:] - a[..., :1])
            if unit:
                a /= np.linalg.norm(a, axis=0)
        return self._laid(a)

    def _laid(self, a):
        """the same array, now and then laid out otherwise in memory"""
        r = self.rng.rand()
        if a.ndim == 0 or r > .2:
            return a
        if r < .1:
            return np.asfortranarray(a)
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2], b[..., 1::2] = a, 7
        return b[..., ::2]

    def arr(self, name, shape, N=None, **kw):
        full = tuple(shape) + ((N,) if N is not None else ())
        a = np.empty(full)
        for j in np.ndindex(*shape):
            nm = name + ("[%s]" % ",".join(map(str, j)) if shape else "")
            if N is not None:
                for k in range(N):
                    a[j + (k,)] = self.real(nm, lane=k, **kw)
            else:
                a[j] = self.real(nm, **kw)
        return a if kw.get("int_") else self._few(a, N)

    def _aslant(self, v):
        """some components small: nearly along an axis or a plane of axes"""
        k = self.rng.randint(1, 7)
        f = 10 ** -self.rng.uniform(1, 3.5, 3)
        if self.rng.rand() < .5:
            f[:] = f[0]
        return [float(x * (f[i] if k >> i & 1 else 1)) for i, x in enumerate(v)]

    def _unit(self, name, lane):
        nm = ["%s[%d]" % (name, i) for i in range(3)]
        if nm[0] in self.values and lane == 0:
            v = np.array([self.values[x] for x in nm], float)
        elif self.rng.rand() < .3:  # along axes, diagonals
            v = self.rng.randint(-1, 2, 3) * 1.0 if self.rng.rand() < .5 else np.eye(3)[self.rng.randint(3)] * self.rng.choice([-1., 1.])
            if not v.any():
                v[self.rng.randint(3)] = 1
        else:
            v = self.rng.normal(size=3)
            if self.rng.rand() < .1:
                v = np.array(self._aslant(v))
        n = np.linalg.norm(v)
        if n < 1e-3:
            raise Skip()
        v = v / n
        if lane == 0:
            self.used.update(zip(nm, map(float, v)))
        return v

    def unit(self, name, N=None, w=True):
        a = np.zeros((4 if w else 3,) + ((N,) if N is not None else ()))
        if N is None:
            a[:3] = self._unit(name, 0)
        else:
            for k in range(N):
                a[:3, k] = self._unit(name, k)
        return self._few(a, N, True)

    def point(self, name, N=None, **kw):
        a = np.ones((4,) + ((N,) if N is not None else ()))
        for i in range(3):
            a[i] = self.real("%s[%d]" % (name, i), **kw) if N is None else [self.real("%s[%d]" % (name, i), lane=k, **kw) for k in range(N)]
        return self._few(a, N)

    def vector(self, name, N=None, nonzero=True, unit=False):
        if unit:
            return self.unit(name, N)
        a = np.zeros((4,) + ((N,) if N is not None else ()))
        for k in range(1 if N is None else N):
            for _ in range(20):
                v = [self.real("%s[%d]" % (name, i), lane=k) for i in range(3)]
                how = self.rng.rand() if "%s[0]" % name not in self.values else 1
                if how < .2:  # along axes and diagonals, or nearly so
                    v = list(self.rng.randint(-1, 2, 3) * 1.0) if how < .1 else self._aslant(v)
                    if k == 0:
                        self.used.update(("%s[%d]" % (name, i), v[i]) for i in range(3))
                if not nonzero or np.linalg.norm(v) > 1e-2:
                    break
            else:
                raise Skip()
            if N is None:
                a[:3] = v
            else:
                a[:3, k] = v
        if "%s[0]" % name not in self.values and self.rng.rand() < .12:  # nearly or exactly of unit length
            l = np.linalg.norm(a, axis=0)
            if np.all(l > 1e-2):
                u = a / l * (1 + self.rng.choice([0, 1e-6, 1e-5, 1e-4]) * self.rng.uniform(-1, 1, l.shape))
                a = np.where(self.rng.rand(*l.shape) < .8, u, a) if self.rng.rand() < .5 else u
                self.used.update(("%s[%d]" % (name, i), float(a[i] if N is None else a[i, 0])) for i in range(3))
        return self._few(a, N)

    def rays(self, name, N=None, unit=False, nonzero=True):
        return self._laid(np.stack((self.point(name + ".o", N), self.vector(name + ".d", N, nonzero, unit)), axis=0))

    def matrix(self, name, exact=False):
        m = np.eye(4)
        if "%s[0,0]" % name in self.values:
            for i in range(3):
                for j in range(4):
                    m[i, j] = self.values["%s[%d,%d]" % (name, i, j)]
        else:
            for _ in range(100):
                r = self.rng.rand()
                if r < .2:
                    m[:3, :3] = np.eye(3)
                    if r < .05:  # hardly a change
                        m[:3, :3] *= 1 + 5e-6 * self.rng.uniform(-1, 1, 3)
                        m[:3, 3] = 5e-9 * self.rng.uniform(-1, 1, 3)
                        break
                elif r < .5:
                    q, _r = np.linalg.qr(self.rng.normal(size=(3, 3)))
                    m[:3, :3] = q * (np.sign(np.linalg.det(q)) if self.rng.rand() < .7 else 1)
                    if self.rng.rand() < .4:
                        m[:3, :3] = m[:3, :3] @ np.diag(self.rng.uniform(.4, 2, 3))
                else:
                    m[:3, :3] = self.rng.uniform(-2, 2, (3, 3))
                m[:3, 3] = self.rng.uniform(-3, 3, 3)
                if np.linalg.cond(m[:3, :3]) < 15:
                    break
        if not np.all(np.isfinite(m)) or abs(np.linalg.det(m[:3, :3])) < 1e-6 or np.linalg.cond(m[:3, :3]) > 1e4:
            raise Skip()
        for i in range(3):
            for j in range(4):
                self.used["%s[%d,%d]" % (name, i, j)] = float(m[i, j])
        return m

    def mean(self, N, xs): return float(np.mean(xs))

    def mean_between(self, N, xs, lo, hi):
        for x in xs:
            self.ensure("within the bounds", self.and_(self.le(lo, x), self.le(x, hi)))
        return self.mean(N, xs)

    # ---- arithmetic and logic
    def _m(self, a, b): return max(1.0, min(abs(a), abs(b)))

    def lt(self, a, b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a < b
        d = b - a
        m = self._m(a, b)
        return True if d > self.TF * m else False if d < -self.TF * m else None

    def le(self, a, b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        d = b - a
        m = self._m(a, b)
        return True if d >= -self.TT * m else False if d < -self.TF * m else None

    def eq(self, a, b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        d, m = abs(a - b), self._m(a, b)
        return True if d <= self.ET * m else False if d > self.EF * m else None

    def gt(s, a, b): return s.lt(b, a)
    def ge(s, a, b): return s.le(b, a)
    def not_(s, x): return None if x is None else not x
    def ne(s, a, b): return s.not_(s.eq(a, b))
    def and_(s, *xs): return _k3and(xs)
    def or_(s, *xs): return _k3or(xs)
    def all_(s, xs): return _k3and(xs)
    def any_(s, xs): return _k3or(xs)
    def implies(s, a, b): return _k3or((s.not_(a), b))
    def iff(s, a, b): return _k3and((s.implies(a, b), s.implies(b, a)))
    def sqrt(s, x): return math.sqrt(x) if x >= 0 else math.nan
    def power(s, x, g): return float(x) ** float(g)
    def cos(s, x): return math.cos(x)
    def sin(s, x): return math.sin(x)
    def div(s, a, b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))
    def pi(s): return math.pi
    def dot(s, a, b): return float(sum(x * y for x, y in zip(a, b)))
    cross = Sym.cross
    def finite(s, x): return math.isfinite(x)
    def isinf(s, x): return math.isinf(x)
    def const(s, x): return float(x)
    def is_(s, c):
        if c is None:
            raise Skip()
        return bool(c)
    def max_(s, *xs): return max(xs)
    def min_(s, *xs): return min(xs)
    def abs_(s, x): return abs(x)
    def num(s, x): return x

    # ---- views
    def lanes(self, N, *arrs):
        out = []
        for k in range(N):
            t = tuple(self._lane(a, k) for a in arrs)
            out.append(t if len(t) != 1 else t[0])
        return out

    def _lane(self, a, k):
        a = np.asarray(a)
        if a.ndim == 0:
            return a.item()
        return a[..., k].tolist() if a.shape[-1] > k else a[..., 0].tolist()

    def lane_index(self, N): return list(range(N))
    def grid(self, V, H): return V * H
    def cells(self, V, H, *arrs): return [(k // H, k % H) + tuple(self._lane(a, k) for a in arrs) for k in range(V * H)]
    def image(self, V, H, img): return np.moveaxis(np.asarray(img).reshape((V * H,) + np.shape(img)[2:]), 0, -1)
    def image_ok(self, img, shape): return np.shape(img) == tuple(shape)
    def count(self, N): return N
    def shape_ok(self, a, shape): return np.shape(a) == tuple(shape)

    def same_array(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return _k3and([self.eqv(x, y) for x, y in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist())])

    def eqv(self, x, y): return self.eq(x, y)
    def entries(self, a): return np.asarray(a).reshape(-1).tolist()
    def tolist(self, a): return np.asarray(a).tolist()
    def array(self, x): return np.array(x, dtype=float)

    def assume(self, c):
        if not c:
            raise Skip()

    def ensure(self, name, c, hints=(), timeout=None, scale=None):
        self.reached = True
        if c is None:
            return True
        if not c:
            self.fail.append(name)
            return False
        self.held[name] = self.held.get(name, 0) + 1
        return True

    lemma = ensure
    def root(self, x): pass
    def locate(self, t, *roots): pass

    def _value(self, st):
        if isinstance(st, tuple):
            xs = [self._value(x) for x in st[1:]]
            return xs[0] * xs[0] if st[0] == "sq" else math.prod(xs) if st[0] == "*" else sum(xs)
        return st

    def derive(self, name, target, structure):
        self.ensure(name, self.eq(target, self._value(structure)))

    def general(self, name, f, *args):
        self.ensure(name, f(*[a[0] for a in args]))

    def ensure_all(self, name, cs, **k):
        for c in cs:
            self.ensure(name, c)

    def same_chance(self, f, g):
        k = self.rng.randint(2**31)
        np.random.seed(k)
        a = f()
        np.random.seed(k)
        return a, g()

    def raises(self, f, *exc):
        try:
            f()
        except exc:
            return True
        return False
