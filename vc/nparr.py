"""A numpy stand-in whose arrays hold symbolic scalars and carry a generic lane.

An array is  p : a real numpy object array (views, aliasing and index arithmetic are numpy's own)
             d : its symbolic shape, where the lane axis (symbolically many rays) is written as a multiple of a
                 reserved prime.  Physically the lane axis holds ONE generic lane per block.
Every data movement is replayed on an integer label array of shape d, and rejected (Unsupported) unless each output
lane position holds data of that same lane: this is the check that the code treats lanes independently, which is what
lets one generic lane stand for every ray of a batch of any size."""
import math, sys, types, itertools
from fractions import Fraction as F
import numpy as np
from . import sym, rows
from .sym import SReal, B, Unsupported, num, UNINIT

PRIMES = [p for p in range(211, 100, -1) if all(p % k for k in range(2, 15))]
newaxis = None


class Lane:
    pair = order = None     # a lane of pairs: the primes of its two lanes, and (rows, columns) once it is known which varies fastest

    def __init__(self, prime, nterm, iota, parent=None, key=None):
        self.prime, self.n, self._iota, self.parent, self.key = prime, nterm, iota, parent, key
        self.phys = 1       # how many generic lanes are held per block (0: the generic lane is not in this selection)

    @property
    def iota(self):
        if self.pair and self._iota is None:
            if self.order is None:
                raise Unsupported("positions among pairs whose order is not known")
            r, c = [lanes()[x] for x in self.order]
            self._iota = sym.add(sym.mul(r.iota, c.n), c.iota)
        return self._iota

    def row_major(self, r, c):
        if self.order is None:
            self.order = (r, c)
        if self.order != (r, c):
            raise Unsupported("pairs in two different orders")


def pair_lane(a, b):
    """the lane of all pairs from two lanes"""
    ls = lanes()
    k = frozenset((a, b))
    for l in ls.values():
        if l.pair == k:
            return l
    if a == b or any(ls[x].pair or ls[x].parent is not None for x in k):
        raise Unsupported("pairs of these lanes")
    pr = PRIMES[len(ls)]
    l = ls[pr] = Lane(pr, sym.mul(ls[a].n, ls[b].n), None)
    l.pair = k
    return l


def lanes():
    c = sym.ctx()
    if not hasattr(c, "lanes"):
        c.lanes = {}
        c.sublanes = {}
    return c.lanes


def new_lane(name, nterm=None, lo=1):
    ls = lanes()
    pr = PRIMES[len(ls)]
    c = sym.ctx()
    from .path import POS
    if nterm is None:
        s = np.round(c.rng.uniform(1, 9, 96))
        nterm = c.var(name, POS, isint=True, samp=s)
        if lo > 1:
            c.assume(sym.le(lo, nterm))
    i = c.var("i_" + name, frozenset((0, 1)), isint=True,
              samp=np.floor(c.rng.rand(96) * np.maximum(1, np.nan_to_num(c.psamp(nterm.p)))), kind="in")
    c.assume(sym.le(sym.add(i, 1), nterm))
    c.of_lane.setdefault(pr, set()).update(sym.p_atoms(i.p))
    ls[pr] = Lane(pr, nterm, i)
    return LaneDim(1, pr)


class LaneDim(SReal):
    __slots__ = ("k", "prime")

    def __init__(self, k, prime):
        self.k, self.prime = k, prime
        SReal.__init__(self, sym.p_scale(lanes()[prime].n.p, F(k)))

    def __mul__(s, o):
        if isinstance(o, int) and not isinstance(o, bool):
            return LaneDim(s.k * o, s.prime) if o > 0 else (0 if o == 0 else SReal.__mul__(s, o))
        return SReal.__mul__(s, o)
    __rmul__ = __mul__

    def __add__(s, o):
        if isinstance(o, LaneDim) and o.prime == s.prime:
            return LaneDim(s.k + o.k, s.prime)
        if isinstance(o, int) and o == 0:
            return s
        return SReal.__add__(s, o)
    __radd__ = __add__

    def __floordiv__(s, o):
        if isinstance(o, int) and s.k % o == 0:
            return LaneDim(s.k // o, s.prime)
        return SReal.__floordiv__(s, o)

    def __hash__(s):
        return hash((s.k, s.prime))


def pdim(x):
    """(physical, symbolic) length of a requested dimension"""
    if isinstance(x, LaneDim):
        return x.k * lanes()[x.prime].phys, x.k * x.prime
    x = num(x)
    if isinstance(x, SReal):
        for l in lanes().values():
            if x.p == l.n.p:
                return l.phys, l.prime
        for a, b in itertools.combinations([l for l in lanes().values() if not l.pair and l.parent is None], 2):
            if x.p == sym.mul(a.n, b.n).p:
                return 1, pair_lane(a.prime, b.prime).prime
        raise Unsupported("array dimension %r" % x)
    if isinstance(x, F):
        if x.denominator != 1:
            raise TypeError("non-integer dimension")
        x = int(x)
    return int(x), int(x)


def pshape(shape):
    if isinstance(shape, (int, SReal, F)):
        shape = (shape,)
    if isinstance(shape, ndarray):
        shape = shape.tolist()
    a = [pdim(x) for x in shape]
    return tuple(x[0] for x in a), tuple(x[1] for x in a)


_pr_cache = {}


def lane_of(n):
    """(k, prime) if n is a lane dimension"""
    c = sym.CTX
    if n < 101 or c is None or not hasattr(c, "lanes"):
        return None
    for pr in c.lanes:
        if n % pr == 0:
            return n // pr, pr
    return None


def lane_axis(d):
    r = None
    for ax, n in enumerate(d):
        l = lane_of(n)
        if l:
            if r is not None:
                raise Unsupported("two lane axes")
            r = (ax, l[1], l[0])
    return r


def labels(d):
    la = lane_axis(d)
    if la is None:
        return np.broadcast_to(np.int32(-1), d)
    ax, pr, k = la
    sh = [1] * len(d)
    sh[ax] = d[ax]
    return np.broadcast_to((np.arange(d[ax], dtype=np.int32) % pr).reshape(sh), d)


def check_labels(lab):
    lab = np.asarray(lab)
    d = lab.shape
    la = lane_axis(d)
    if lab.size == 0:
        return d
    if la is None:
        if (lab >= 0).any():
            raise Unsupported("a specific lane is singled out")
        return d
    ax, pr, k = la
    sh = [1] * len(d)
    sh[ax] = d[ax]
    want = (np.arange(d[ax]) % pr).reshape(sh)
    if not ((lab == want) | (lab == -1)).all():
        raise Unsupported("data moves between lanes")
    return d


KINDS = {float: "f", int: "i", bool: "b", "float": "f", "int": "i", "bool": "b", "float32": "f", "float64": "f", object: "O", "f": "f", "i": "i"}


class Narrow(float):
    """np.float32"""
    def __new__(cls, x=0.0): return round_narrow(x)


KINDS[Narrow] = "f"
NARROW = {Narrow, "float32", "f4", "single", "float16", "f2", "half", "<f4", np.float32, np.float16}


def is_narrow(dt):
    try:
        return dt in NARROW
    except TypeError:
        return False


def round_narrow(x):
    """a value kept in fewer digits is another value, only close to it (small integers are exact)"""
    x = sym.val(x)
    if isinstance(x, float) or not isinstance(x, (F, int, bool, sym.SReal)):
        return x
    if not isinstance(x, sym.SReal):
        return x if F(x).denominator == 1 and abs(x) < 2 ** 11 else F(float(np.float32(float(x))))
    c = sym.ctx()
    with np.errstate(all="ignore"):
        return c.var("rounded", samp=np.float32(c.psamp(x.p)).astype(float), kind="rounded")


def kindof(dt, narrow=False):
    if dt is None:
        return None
    if is_narrow(dt) and not narrow:
        raise Unsupported("floats of fewer digits")
    try:
        return KINDS[dt]
    except (KeyError, TypeError):
        try:
            t = np.dtype(dt)
        except Exception:
            raise Unsupported("dtype %r" % (dt,))
        if t.kind in "iu" and t.itemsize < 4:
            raise Unsupported("integers of few digits")
        return t.kind


class ndarray:
    word = None
    __array_priority__ = 2000

    def __new__(cls, *a, **k):
        raise Unsupported("direct ndarray construction")

    def __init__(self, *a, **k):
        pass

    # ---- shape-like
    @property
    def shape(self):
        out = []
        for n in self.d:
            l = lane_of(n)
            out.append(LaneDim(l[0], l[1]) if l else n)
        return tuple(out)

    @property
    def ndim(self): return len(self.d)

    @property
    def size(self):
        s = 1
        for x in self.shape:
            s = s * x
        return s

    @property
    def dtype(self):
        return np.dtype({"f": float, "i": np.int64, "b": bool, "O": object}.get(self.kind, float))

    @property
    def T(self): return self.transpose()

    @property
    def real(self): return self

    @property
    def flat(self): return iter(self.ravel())

    def __len__(self):
        if not self.d:
            raise TypeError("len() of unsized object")
        if lane_of(self.d[0]):
            raise Unsupported("len() along the lane axis")
        return self.d[0]

    def __iter__(self):
        if not self.d:
            raise TypeError("iteration over a 0-d array")
        if lane_of(self.d[0]):
            raise Unsupported("python loop over lanes")
        return (self[i] for i in range(self.d[0]))

    def __repr__(self):
        return "arr%s%r" % (self.d, self.p.tolist())

    # ---- indexing
    def _index(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = tuple(it.mask if isinstance(it, Places) else it for it in idx)
        # position of each entry on the axes
        n_used = 0
        for it in idx:
            if it is None or it is Ellipsis:
                continue
            if isinstance(it, ndarray) and it.kind == "b":
                n_used += it.ndim
            else:
                n_used += 1
        pi, di = [], []
        ax = 0
        for it in idx:
            if it is None:
                pi.append(None)
                di.append(None)
                continue
            if it is Ellipsis:
                pi.append(Ellipsis)
                di.append(Ellipsis)
                ax += self.ndim - n_used
                continue
            if isinstance(it, slice):
                def cv(x, j):
                    if x is None:
                        return None
                    if isinstance(x, LaneDim):
                        if j == 0:
                            ph = lanes()[x.prime].phys
                            if self.p.shape[ax] * x.prime != self.d[ax] * ph:
                                raise Unsupported("slice of a selected sub-batch")
                            return x.k * ph
                        return x.k * x.prime
                    x = num(x)
                    if isinstance(x, F):
                        x = int(x)
                    if not isinstance(x, int):
                        raise Unsupported("symbolic slice bound")
                    return x
                pi.append(slice(cv(it.start, 0), cv(it.stop, 0), cv(it.step, 0)))
                di.append(slice(cv(it.start, 1), cv(it.stop, 1), cv(it.step, 1)))
                ax += 1
                continue
            if isinstance(it, (bool, np.bool_)):
                raise Unsupported("scalar boolean index")
            if isinstance(it, B):
                raise Unsupported("scalar boolean index")
            if isinstance(it, (list, tuple, range)) or isinstance(it, np.ndarray):
                it = array(list(it))
            if isinstance(it, ndarray):
                if it.kind == "b":
                    if it.ndim == 0:
                        raise Unsupported("scalar boolean index")
                    pm, dm = self._mask(it)
                    pi.append(pm)
                    di.append(dm)
                    ax += it.ndim
                else:
                    pv = np.empty(it.p.shape, dtype=np.intp)
                    lan = lane_of(self.d[ax])
                    if lan:
                        la = lane_axis(it.d)
                        if la is None or la[1] != lan[1]:
                            raise Unsupported("fancy index on the lane axis")
                        lane = lanes()[la[1]]
                        kk = it.p.shape[la[0]]
                        for j in np.ndindex(*it.p.shape):
                            b = j[la[0]]
                            want = sym.add(lane.iota, sym.mul(lane.n, b))
                            if not sym.same(it.p[j], want):
                                raise Unsupported("gather across lanes")
                            pv[j] = b
                        if self.p.shape[ax] != kk:
                            raise Unsupported("gather across lanes")
                        sh = [1] * it.ndim
                        sh[la[0]] = it.d[la[0]]
                        dv = np.broadcast_to(np.arange(it.d[la[0]]).reshape(sh), it.d)
                        pi.append(pv)
                        di.append(dv)
                    else:
                        for j in np.ndindex(*it.p.shape):
                            v = num(it.p[j])
                            if isinstance(v, F) and v.denominator == 1:
                                v = int(v)
                            if isinstance(v, B):
                                v = bool(v)
                            if not isinstance(v, int):
                                raise Unsupported("symbolic fancy index")
                            pv[j] = v
                        pi.append(pv)
                        di.append(pv if lane_axis(it.d) is None else np.zeros(it.d, dtype=np.intp))
                    ax += 1
                continue
            it = num(it)
            if isinstance(it, F) and it.denominator == 1:
                it = int(it)
            if isinstance(it, SReal):
                raise Unsupported("symbolic index")
            if not isinstance(it, int):
                raise TypeError("index %r" % (it,))
            if lane_of(self.d[ax]):
                raise Unsupported("a specific lane is singled out")
            pi.append(it)
            di.append(it)
            ax += 1
        return tuple(pi), tuple(di)

    def _mask(self, m):
        la = lane_axis(m.d)
        pm = np.empty(m.p.shape, dtype=bool)
        if la is None:
            for j in np.ndindex(*m.p.shape):
                pm[j] = bool(m.p[j])
            return pm, pm
        if m.ndim != 1:
            raise Unsupported("multi-dimensional lane mask")
        key = (la[1], tuple(bkey(x) for x in m.p))
        for j in np.ndindex(*m.p.shape):
            pm[j] = bool(m.p[j])
        n = m.d[0]
        if all(x is True for x in m.p) and m.p.size:
            return pm, np.ones(n, bool)
        if all(x is False for x in m.p) and m.p.size:
            return pm, np.zeros(n, bool)
        c = sym.ctx()
        ls = lanes()
        if key not in c.sublanes:
            pr = PRIMES[len(ls)]
            if pr >= la[1]:
                raise Unsupported("lane registry")
            nn = c.var("n_sub", frozenset((0, 1)), isint=True)
            io = c.var("i_sub", frozenset((0, 1)), isint=True)
            ls[pr] = Lane(pr, nn, io, la[1], key)
            ls[pr].phys = int(pm.sum())
            c.sublanes[key] = pr
        pr = c.sublanes[key]
        dm = np.zeros(n, bool)
        dm[:pr] = True
        return pm, dm

    def __getitem__(self, idx):
        pi, di = self._index(idx)
        p = self.p[pi]
        lab = labels(self.d)[di]
        d = check_labels(lab)
        if not isinstance(p, np.ndarray) or (p.ndim == 0 and not any(i is Ellipsis for i in pi)):
            return p if not isinstance(p, np.ndarray) else p[()]
        return wrap(p, d, self.kind, type(self))

    def __setitem__(self, idx, v):
        if isinstance(idx, Places):
            idx = idx.mask
        if isinstance(idx, ndarray) and idx.kind == "b" and idx.ndim == self.ndim and self.ndim > 1:
            a = where(idx, v, self)
            if a.d != self.d:
                raise Unsupported("mask assignment")
            self.p[...] = a.p
            return
        pi, di = self._index(idx)
        v = asarr(v)
        d = check_labels(labels(self.d)[di])
        try:
            bd = np.broadcast_shapes(v.d, d)
        except ValueError:
            raise ValueError("could not broadcast %s into %s" % (v.d, d))
        while len(bd) > len(d) and bd[0] == 1:
            bd = bd[1:]
        if bd != d:
            raise ValueError("could not broadcast %s into %s" % (v.d, d))
        vp = v.p
        if self.kind == "i" and v.kind == "f":
            vp = np.frompyfunc(lambda x: x if isinstance(x, float) else sym.trunc_(x), 1, 1)(vp)
        elif self.kind == "f" and v.kind == "b":
            vp = np.frompyfunc(sym.val, 1, 1)(vp)
        if self.p[pi].size if isinstance(self.p[pi], np.ndarray) else True:
            self.p[pi] = vp if not (isinstance(vp, np.ndarray) and vp.ndim == 0) else vp[()]

    # ---- methods
    def view(self, t=None):
        if t is None or not isinstance(t, type) or not issubclass(t, ndarray):
            if t in (np.ndarray,):
                t = ndarray
            else:
                raise Unsupported("dtype view")
        return wrap(self.p, self.d, self.kind, t)

    def copy(self, order=None):
        a = wrap(self.p.copy(), self.d, self.kind, type(self))
        a.word = self.word
        return a

    def __copy__(self): return self.copy()
    def __deepcopy__(self, m): return self.copy()

    def astype(self, t, copy=True):
        k = kindof(t, True)
        if is_narrow(t):
            return ew1(round_narrow, self, "f")
        if k in "iu":
            if self.kind in "ib":
                return wrap(np.frompyfunc(sym.val, 1, 1)(self.p) if self.p.size else self.p.copy(), self.d, "i", type(self))
            return ew1(sym.trunc_, self, "i")
        if k == "b":
            return ew1(sym.truth, self, "b")
        a = ew1(sym.val, self, "f")
        return a if isinstance(a, ndarray) else a

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and not isinstance(shape[0], (int, SReal, F)):
            shape = tuple(shape[0])
        ps, ds = [], []
        for x in shape:
            if isinstance(x, int) and x == -1:
                ps.append(-1)
                ds.append(-1)
            else:
                a, b = pdim(x)
                ps.append(a)
                ds.append(b)
        la = lane_axis(self.d)
        g = as_grid(self, la, ds)
        if g is not None:
            return g
        try:
            lab = np.asarray(labels(self.d)).reshape(ds)
        except ValueError:
            if la is not None or any(lane_of(x) for x in ds):
                raise Unsupported("reshape of lanes")
            raise
        d = check_labels(lab)
        lb = lane_axis(d)
        # physical shape: every non-lane dimension as in d, the lane dimension as stored
        if la is not None and lb is not None:
            ps = list(d)
            ps[lb[0]] = -1 if self.p.size else (self.p.shape[la[0]] * lb[2] // max(1, la[2]))
            if self.p.size == 0:
                ps[lb[0]] = 0
        elif la is None:
            ps = list(d)
        else:
            raise Unsupported("reshape drops the lane axis")
        return wrap(self.p.reshape(ps), d, self.kind, type(self))

    def ravel(self, order="C"): return self.reshape(-1)
    def flatten(self, order="C"): return self.reshape(-1).copy()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        ax = axes or None
        return wrap(self.p.transpose(ax), check_labels(labels(self.d).transpose(ax)), self.kind, type(self))

    def squeeze(self, axis=None):
        return wrap(self.p.reshape([n for i, n in enumerate(self.p.shape) if not (self.d[i] == 1 and (axis is None or i == axis % self.ndim))]),
                    tuple(n for i, n in enumerate(self.d) if not (n == 1 and (axis is None or i == axis % self.ndim))), self.kind, type(self))

    def swapaxes(self, a, b):
        return wrap(self.p.swapaxes(a, b), check_labels(labels(self.d).swapaxes(a, b)), self.kind, type(self))

    def repeat(self, r, axis=None): return repeat(self, r, axis)
    def fill(self, v): self[...] = v
    def tolist(self):
        if lane_axis(self.d):
            raise Unsupported("tolist along lanes")
        return self.p.tolist()
    def item(self, *a):
        if lane_axis(self.d):
            raise Unsupported("item along lanes")
        return self.p.item(*a)

    def sort(self, axis=-1, kind=None):
        r = sort(self, axis)
        self.p[...] = r.p

    def argsort(self, axis=-1, kind=None): return argsort(self, axis, kind)
    def min(self, axis=None, **k): return amin(self, axis, **k)
    def max(self, axis=None, **k): return amax(self, axis, **k)
    def sum(self, axis=None, **k): return sum_(self, axis, **k)
    def mean(self, axis=None, **k): return mean(self, axis, **k)
    def any(self, axis=None, **k): return any_(self, axis, **k)
    def all(self, axis=None, **k): return all_(self, axis, **k)
    def argmin(self, axis=None): return argmin(self, axis)
    def argmax(self, axis=None): return argmax(self, axis)
    def cumsum(self, axis=None): return cumsum(self, axis)
    def dot(self, o): return dot(self, o)
    def conj(self): return self
    conjugate = conj
    def clip(self, a, b): return clip(self, a, b)
    def take(self, i, axis=None): return take(self, i, axis)
    def nonzero(self): return nonzero(self)
    def cumprod(self, axis=0): return cumprod(self, axis)
    def ptp(self, axis=None): return ptp(self, axis)
    def prod(self, axis=None, **k): return prod(self, axis, **k)
    def diagonal(self): return diagonal(self)
    def compress(self, c, axis=None): return compress(c, self, axis)

    def __bool__(self):
        if self.p.size == 1 and not lane_axis(self.d):
            return bool(sym.truth(self.p.reshape(-1)[0]))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self): raise Unsupported("float(array)")
    def __int__(self): raise Unsupported("int(array)")
    def __index__(self):
        if not self.d:
            return self.p[()].__index__()
        raise TypeError("array as index")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("ndarray attribute %s" % n)

    __hash__ = None


class Grid:
    """an array with two lane axes, ax (rows) and ax + 1 (columns); held as the array over their pairs"""
    __array_priority__ = 2000

    def __init__(self, p, ax, d, kind):
        self.p, self.ax, self.d, self.kind = p, ax, tuple(d), kind

    @property
    def shape(self): return tuple(LaneDim(1, n) if lane_of(n) else n for n in self.d)
    @property
    def ndim(self): return len(self.d)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and not isinstance(shape[0], (int, SReal, F)):
            shape = tuple(shape[0])
        r, c = self.d[self.ax:self.ax + 2]
        l = pair_lane(r, c)
        d = self.d[:self.ax] + (l.prime,) + self.d[self.ax + 2:]
        want = [x if isinstance(x, int) and x == -1 else pdim(x)[1] for x in shape]
        if order != "C" or len(want) != len(d) or any(w not in (-1, x) for w, x in zip(want, d)) or want.count(-1) > 1:
            raise Unsupported("reshape of a grid of lanes")
        l.row_major(r, c)
        return wrap(self.p, d, self.kind)

    def ravel(self, order="C"): return self.reshape(-1, order=order)
    def flatten(self, order="C"): return self.reshape(-1, order=order).copy()
    def copy(self): return Grid(self.p.copy(), self.ax, self.d, self.kind)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        axes = tuple(x % self.ndim for x in axes) if axes else tuple(range(self.ndim))[::-1]
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        a = axes.index(self.ax), axes.index(self.ax + 1)
        if abs(a[0] - a[1]) != 1:
            raise Unsupported("the axes of a grid of lanes are parted")
        flat = [x - (x > self.ax) for x in axes if x != self.ax + 1]
        return Grid(self.p.transpose(flat), min(a), [self.d[x] for x in axes], self.kind)

    T = property(lambda s: s.transpose())

    def swapaxes(self, a, b):
        x = list(range(self.ndim))
        x[a % self.ndim], x[b % self.ndim] = x[b % self.ndim], x[a % self.ndim]
        return self.transpose(x)

    def moveaxis(self, src, dst):
        return self.transpose(_moved(self.ndim, src, dst))

    def flat_(self):
        return wrap(self.p, self.d[:self.ax] + (pair_lane(*self.d[self.ax:self.ax + 2]).prime,) + self.d[self.ax + 2:], self.kind)

    @staticmethod
    def apply(f, *xs):
        """f entry by entry over grids of the same pixels and scalars"""
        g = [x for x in xs if isinstance(x, Grid)]
        for x in xs:
            if isinstance(x, Grid):
                if (x.d, x.ax) != (g[0].d, g[0].ax):
                    raise Unsupported("grids of lanes of different shapes")
            elif asarr(x).ndim:
                raise Unsupported("a grid of lanes and an array")
        r = f(*[x.flat_() if isinstance(x, Grid) else x for x in xs])
        return Grid(r.p, g[0].ax, g[0].d, r.kind)

    def astype(self, t, copy=True): return Grid.apply(lambda a: a.astype(t), self)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("grid of lanes: " + n)

    def _no(self, *a, **k): raise Unsupported("grid of lanes")
    __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __matmul__ = _no
    _vc_array = _no


def _moved(n, src, dst):
    src, dst = [[x] if isinstance(x, int) else list(x) for x in (src, dst)]
    src, dst = [x % n for x in src], [x % n for x in dst]
    o = [x for x in range(n) if x not in src]
    for d, s in sorted(zip(dst, src)):
        o.insert(d, s)
    return o


def as_grid(a, la, ds):
    if la is None or la[2] != 1 or not lanes()[la[1]].pair or len(ds) != a.ndim + 1:
        return None
    ax, l = la[0], lanes()[la[1]]
    r, c = ds[ax], ds[ax + 1]
    if r == -1 and c in l.pair:
        r, = l.pair - {c}
    elif c == -1 and r in l.pair:
        c, = l.pair - {r}
    if {r, c} != set(l.pair) or tuple(ds[:ax]) != a.d[:ax] or tuple(ds[ax + 2:]) != a.d[ax + 1:]:
        return None
    l.row_major(r, c)
    return Grid(a.p, ax, a.d[:ax] + (r, c) + a.d[ax + 1:], a.kind)


def wrap(p, d, kind, cls=ndarray):
    a = object.__new__(cls)
    a.p = p
    a.d = tuple(int(x) for x in d)
    a.kind = kind
    return a


def bkey(x):
    x = num(x)
    if isinstance(x, B):
        return x.key()
    if isinstance(x, SReal):
        return sym.p_key(x.p)
    return ("c", x)


def kind_of_scalar(x):
    if isinstance(x, (bool, B)):
        return "b"
    if isinstance(x, int):
        return "i"
    return "f"


def _obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def asarr(x):
    if isinstance(x, ndarray):
        return x
    if isinstance(x, np.ndarray):
        p = np.empty(x.shape, dtype=object)
        for j in np.ndindex(*x.shape):
            p[j] = num(x[j])
        return wrap(p, x.shape, {"f": "f", "i": "i", "u": "i", "b": "b", "O": "f"}[x.dtype.kind])
    if isinstance(x, (list, tuple, range)) or hasattr(x, "__next__"):
        xs = [asarr(y) for y in x]
        if not xs:
            return wrap(np.empty((0,), dtype=object), (0,), "f")
        d = xs[0].d
        if any(y.d != d for y in xs):
            raise Unsupported("ragged array")
        p = np.empty((len(xs),) + xs[0].p.shape, dtype=object)
        for i, y in enumerate(xs):
            if y.p.shape != xs[0].p.shape:
                raise Unsupported("ragged array")
            p[i] = y.p if y.p.ndim else y.p[()]
        ks = {y.kind for y in xs}
        k = "f" if "f" in ks else "i" if "i" in ks else "b"
        return wrap(p, (len(xs),) + d, k)
    if hasattr(x, "_vc_array"):
        return x._vc_array()
    v = num(x)
    return wrap(_obj0(v), (), kind_of_scalar(v))


def out0(a):
    """0-d results are scalars"""
    if a.d == ():
        return a.p[()]
    return a


def rescls(args):
    for a in args:
        if isinstance(a, ndarray) and type(a) is not ndarray:
            return type(a)
    return ndarray


def ew(f, args, kind):
    xs = [asarr(a) for a in args]
    try:
        d = np.broadcast_shapes(*[x.d for x in xs])
    except ValueError:
        raise ValueError("operands could not be broadcast together " + str([x.d for x in xs]))
    lane_axis(d)
    r = np.frompyfunc(f, len(xs), 1)(*[x.p for x in xs])
    if not isinstance(r, np.ndarray):
        r = _obj0(r)
    if d == ():
        return r[()]
    k = kind(xs) if callable(kind) else kind
    return wrap(r, d, k, rescls(args))


def ew1(f, a, kind): return ew(f, (a,), kind)


def ktop(xs):
    ks = {x.kind for x in xs}
    return "f" if "f" in ks else "i"


class UFunc:
    def __init__(self, name, f, nin, kind, ident=None):
        self.name, self.f, self.nin, self.kind, self.ident = name, f, nin, kind, ident
        self.__name__ = name

    def __call__(self, *args, out=None, where=True, dtype=None, **kw):
        if where is not True or kw:
            raise Unsupported("ufunc keyword")
        if any(isinstance(a, rows.Rows) for a in args):
            if out is not None or len(args) != self.nin:
                raise Unsupported("ufunc output")
            return rows.lift(self, *args)
        if any(isinstance(a, Grid) for a in args) and out is None and len(args) == self.nin:
            return Grid.apply(self, *args)
        if len(args) > self.nin:
            if len(args) > self.nin + 1 or out is not None:
                raise TypeError("too many arguments")
            out = args[self.nin]
            args = args[:self.nin]
        if len(args) < self.nin:
            raise TypeError("too few arguments to %s" % self.name)
        r = ew(self.f, args, self.kind)
        if out is not None:
            if isinstance(out, tuple):
                out, = out
            if not isinstance(out, ndarray):
                raise TypeError("return arrays must be of ArrayType")
            out[...] = r
            return out
        return r

    def reduce(self, a, axis=0, keepdims=False, initial=None, **kw):
        if kw.pop("dtype", None) not in (None, float) or kw.pop("out", None) is not None or kw:
            raise Unsupported("reduce keyword")
        a = asarr(a)
        if initial is not None:
            if self.ident is None and self.name not in ("maximum", "minimum", "fmax", "fmin"):
                raise Unsupported("reduce keyword")
            return self(self.reduce(a, axis, keepdims), initial)
        if self.name == "logical_or":
            return any_(a, axis, keepdims=keepdims)
        if self.name == "logical_and":
            return all_(a, axis, keepdims=keepdims)
        if self.name == "maximum":
            return amax(a, axis, keepdims=keepdims)
        if self.name == "minimum":
            return amin(a, axis, keepdims=keepdims)
        return reduce_(a, self.f, axis, keepdims, a.kind if self.kind is ktop else self.kind, self.ident)

    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def accumulate(self, a, axis=0):
        if self.name == "add":
            return cumsum(a, axis)
        if self.nin != 2:
            raise ValueError("accumulate only supported for binary functions")
        return scan(self, asarr(a), axis)


def scan(u, a, axis):
    axis %= a.ndim
    if lane_of(a.d[axis]):
        raise Unsupported("accumulation over lanes")
    k = u.kind([a, a]) if callable(u.kind) else u.kind
    src = np.moveaxis(a.p, axis, 0)
    out = np.empty(a.p.shape, dtype=object)
    dst = np.moveaxis(out, axis, 0)
    acc = None
    for i in range(src.shape[0]):
        row = np.frompyfunc(sym.truth, 1, 1)(src[i]) if k == "b" and np.size(src[i]) else src[i]
        acc = row if acc is None else np.frompyfunc(u.f, 2, 1)(acc, row)
        dst[i] = acc
    return wrap(out, a.d, k)


def _lb(f):
    return lambda a, b: f(sym.truth(a), sym.truth(b))


def _fdiv(a, b): return sym.div(a, b)
def _rem(a, b): return sym.sub(a, sym.mul(b, sym.floor_(sym.div(a, b))))


def _band(a, b):
    a, b = num(a), num(b)
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return sym.and_(a, b)
    a, b = sym.val(a), sym.val(b)
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SReal) and y is not True and isinstance(y, int) and y == 1 and sym.ctx().whole(x):
            return _rem(x, 2)
    raise Unsupported("bitwise and of symbolic values")


def _bor(a, b):
    a, b = num(a), num(b)
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return sym.or_(a, b)
    a, b = sym.val(a), sym.val(b)
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    raise Unsupported("bitwise or of symbolic values")


def _bxor(a, b):
    a, b = num(a), num(b)
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return sym.xor_(a, b)
    a, b = sym.val(a), sym.val(b)
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    raise Unsupported("bitwise xor of symbolic values")


def _inv(a):
    a = num(a)
    if isinstance(a, (bool, B)):
        return sym.not_(a)
    if isinstance(a, int):
        return ~a
    raise Unsupported("bitwise not")


def _bk(xs):
    return "b" if all(x.kind == "b" for x in xs) else "i"


def _isfinite(a):
    a = num(a)
    return not isinstance(a, float)


def _hyp(a, b): return sym.sqrt(sym.add(sym.mul(a, a), sym.mul(b, b)), nonneg=True)
def _sgn(a): return sym.sign(a)


def _atan2(a, b): raise Unsupported("arctan2")


UF = {}
for _n, _f, _k, _kd, _id in [
    ("add", sym.add, 2, ktop, 0), ("subtract", sym.sub, 2, ktop, None), ("multiply", sym.mul, 2, ktop, 1),
    ("divide", _fdiv, 2, "f", None), ("true_divide", _fdiv, 2, "f", None), ("negative", sym.neg, 1, ktop, None),
    ("positive", sym.val, 1, ktop, None), ("floor_divide", lambda a, b: sym.floor_(sym.div(a, b)), 2, ktop, None),
    ("remainder", _rem, 2, ktop, None), ("mod", _rem, 2, ktop, None), ("power", sym.power, 2, ktop, None),
    ("float_power", sym.power, 2, "f", None), ("square", lambda a: sym.mul(a, a), 1, ktop, None),
    ("sqrt", sym.sqrt, 1, "f", None), ("cos", sym.cos, 1, "f", None), ("sin", sym.sin, 1, "f", None), ("tan", sym.tan, 1, "f", None),
    ("arccos", sym.arccos, 1, "f", None), ("arcsin", sym.arcsin, 1, "f", None), ("absolute", sym.absolute, 1, ktop, None),
    ("abs", sym.absolute, 1, ktop, None), ("fabs", sym.absolute, 1, "f", None), ("floor", sym.floor_, 1, "f", None),
    ("reciprocal", lambda a: sym.div(1, a), 1, "f", None), ("hypot", _hyp, 2, "f", None), ("sign", _sgn, 1, ktop, None),
    ("maximum", sym.smax, 2, ktop, None), ("minimum", sym.smin, 2, ktop, None), ("fmax", sym.smax, 2, ktop, None), ("fmin", sym.smin, 2, ktop, None),
    ("less", sym.lt, 2, "b", None), ("less_equal", sym.le, 2, "b", None), ("greater", sym.gt, 2, "b", None),
    ("greater_equal", sym.ge, 2, "b", None), ("equal", sym.eq, 2, "b", None), ("not_equal", sym.ne, 2, "b", None),
    ("logical_and", _lb(sym.and_), 2, "b", True), ("logical_or", _lb(sym.or_), 2, "b", False), ("logical_xor", _lb(sym.xor_), 2, "b", None),
    ("logical_not", lambda a: sym.not_(sym.truth(a)), 1, "b", None),
    ("bitwise_and", _band, 2, _bk, None), ("bitwise_or", _bor, 2, _bk, None), ("bitwise_xor", _bxor, 2, _bk, None), ("invert", _inv, 1, _bk, None),
    ("isfinite", _isfinite, 1, "b", None), ("isinf", lambda a: isinstance(num(a), float) and math.isinf(num(a)), 1, "b", None),
    ("isnan", lambda a: isinstance(num(a), float) and math.isnan(num(a)), 1, "b", None),
    ("deg2rad", lambda a: sym.div(sym.mul(a, sym.ctx().pi()), 180), 1, "f", None), ("radians", lambda a: sym.div(sym.mul(a, sym.ctx().pi()), 180), 1, "f", None),
    ("rad2deg", lambda a: sym.div(sym.mul(a, 180), sym.ctx().pi()), 1, "f", None), ("degrees", lambda a: sym.div(sym.mul(a, 180), sym.ctx().pi()), 1, "f", None),
    ("arctan2", _atan2, 2, "f", None), ("ceil", lambda a: sym.neg(sym.floor_(sym.neg(a))), 1, "f", None), ("trunc", lambda a: sym.trunc_(a), 1, "f", None),
    ("fix", lambda a: sym.trunc_(a), 1, "f", None), ("copysign", lambda a, b: sym.select(sym.lt(b, 0), sym.neg(sym.absolute(a)), sym.absolute(a)), 2, "f", None),
    ("heaviside", lambda a, h: sym.select(sym.lt(a, 0), 0, sym.select(sym.eq(a, 0), h, 1)), 2, "f", None), ("signbit", lambda a: sym.lt(a, 0), 1, "b", None),
]:
    UF[_n] = UFunc(_n, _f, _k, _kd, _id)


def _binop(n, rn):
    u = UF[n]
    def f(self, o):
        if hasattr(type(o), "_vc_frame"):
            return NotImplemented
        if o is None or isinstance(o, str):
            return NotImplemented
        return u(self, o)
    def g(self, o):
        return u(o, self)
    def h(self, o):
        r = asarr(u(self, o))
        if np.broadcast_shapes(r.d, self.d) != self.d:
            raise ValueError("non-broadcastable output operand")
        if self.kind == "i" and r.kind == "f":
            raise TypeError("Cannot cast ufunc output from float to int")
        if self.p.size:
            self.p[...] = r.p if r.p.ndim else r.p[()]
        return self
    return f, g, h


for _op, _n in [("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("floordiv", "floor_divide"),
                ("mod", "remainder"), ("pow", "power"), ("and", "bitwise_and"), ("or", "bitwise_or"), ("xor", "bitwise_xor")]:
    _f, _g, _h = _binop(_n, _n)
    setattr(ndarray, "__%s__" % _op, _f)
    setattr(ndarray, "__r%s__" % _op, _g)
    setattr(ndarray, "__i%s__" % _op, _h)
    setattr(Grid, "__%s__" % _op, _f)
    setattr(Grid, "__r%s__" % _op, _g)
for _op, _n in [("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")]:
    setattr(ndarray, "__%s__" % _op, _binop(_n, _n)[0])
    setattr(Grid, "__%s__" % _op, _binop(_n, _n)[0])
Grid.__neg__ = lambda s: UF["negative"](s)
Grid.__invert__ = lambda s: UF["invert"](s)
ndarray.__vc_array__ = True
ndarray.__neg__ = lambda s: UF["negative"](s)
ndarray.__pos__ = lambda s: s.copy()
ndarray.__abs__ = lambda s: UF["absolute"](s)
ndarray.__invert__ = lambda s: UF["invert"](s)
ndarray.__matmul__ = lambda s, o: matmul(s, o)
ndarray.__rmatmul__ = lambda s, o: matmul(o, s)


# ---------------------------------------------------------------- creation
def full(shape, v, dtype=None, order="C"):
    ps, ds = pshape(shape)
    v = asarr(v)
    p = np.empty(ps, dtype=object)
    k = kindof(dtype) or v.kind
    a = wrap(p, ds, k)
    lane_axis(ds)
    if v.ndim:
        a[...] = v
    else:
        x = v.p[()]
        if k == "f" and isinstance(x, (int, bool)):
            x = F(x)
        p[...] = x
    return a


def zeros(shape, dtype=float, order="C"):
    k = kindof(dtype)
    return full(shape, False if k == "b" else 0 if k in "iu" else F(0), dtype)


def ones(shape, dtype=float, order="C"):
    k = kindof(dtype)
    return full(shape, True if k == "b" else 1 if k in "iu" else F(1), dtype)


def empty(shape, dtype=float, order="C"):
    ps, ds = pshape(shape)
    p = np.empty(ps, dtype=object)
    p[...] = UNINIT
    lane_axis(ds)
    return wrap(p, ds, kindof(dtype))


def zeros_like(a, dtype=None):
    a = asarr(a)
    return zeros_like_(a, {"f": F(0), "i": 0, "b": False}[kindof(dtype) or a.kind], dtype)


def zeros_like_(a, v, dtype=None):
    p = np.empty(a.p.shape, dtype=object)
    p[...] = v
    return wrap(p, a.d, kindof(dtype) or a.kind, type(a))


def ones_like(a, dtype=None):
    a = asarr(a)
    return zeros_like_(a, {"f": F(1), "i": 1, "b": True}[kindof(dtype) or a.kind], dtype)


def full_like(a, v, dtype=None):
    a = asarr(a)
    return zeros_like_(a, num(v), dtype)


def empty_like(a, dtype=None): return zeros_like_(asarr(a), UNINIT, dtype)


def array(x, dtype=None, copy=True, ndmin=0):
    a = asarr(x)
    k = kindof(dtype, True)
    if isinstance(x, ndarray) or a is x:
        a = wrap(a.p.copy(), a.d, a.kind)
    if k and (k != a.kind or is_narrow(dtype)):
        r = a.astype(dtype)
        a = r if isinstance(r, ndarray) else asarr(r)
    while a.ndim < ndmin:
        a = a[None]
    return a if isinstance(a, ndarray) else asarr(a)


def asarray(x, dtype=None):
    if isinstance(x, ndarray) and dtype is None:
        return x if type(x) is ndarray else x.view(ndarray)
    return array(x, dtype)


def asanyarray(x, dtype=None):
    if isinstance(x, ndarray) and dtype is None:
        return x
    return array(x, dtype)


def identity(n, dtype=float):
    a = zeros((n, n))
    for i in range(n):
        a.p[i, i] = F(1)
    return a


def eye(n, m=None, **k): return identity(n)


def diag(v):
    v = asarr(v)
    if v.ndim == 1:
        a = zeros((len(v), len(v)))
        for i in range(len(v)):
            a.p[i, i] = v.p[i]
        return a
    return wrap(np.diag(v.p).copy(), check_labels(np.diag(labels(v.d))), v.kind)


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if isinstance(hi, LaneDim) or isinstance(num(hi), SReal):
        if not (isinstance(lo, int) and lo == 0 and isinstance(st, int) and st == 1):
            raise Unsupported("arange over lanes with offset")
        k, n = pdim(hi)
        l = lane_of(n)
        lane = lanes()[l[1]]
        if lane.phys > 1:
            raise Unsupported("positions in a selection from several blocks")
        p = np.empty((k,), dtype=object)
        for b in range(k):
            p[b] = sym.add(lane.iota, sym.mul(lane.n, b))
        return wrap(p, (n,), "i")
    return asarr(np.arange(*[x if isinstance(x, int) else float(x) for x in a]))


def linspace(a, b, n=50, endpoint=True, **kw):
    if kw:
        raise Unsupported("linspace keyword")
    a, b = sym.val(a), sym.val(b)
    if isinstance(n, SReal):
        i = arange(n)
        m = sym.sub(n, 1) if endpoint else n
        if endpoint and bool(sym.eq(m, 0)):
            return full((n,), a, dtype=float)
        return ew1(lambda t: sym.add(a, sym.div(sym.mul(sym.sub(b, a), t), m)), i, "f")
    n = int(n)
    m = n - 1 if endpoint else n
    p = np.empty((n,), dtype=object)
    for j in range(n):
        p[j] = sym.add(a, sym.div(sym.mul(sym.sub(b, a), j), m)) if m else a
        if isinstance(p[j], int):
            p[j] = F(p[j])
    return wrap(p, (n,), "f")


def copy(a): return array(a)


# ---------------------------------------------------------------- structure
def struct(fn, arrs, kind=None, cls=ndarray):
    xs = [asarr(a) for a in arrs]
    lab = fn([np.asarray(labels(x.d)) for x in xs])
    d = check_labels(lab)
    p = fn([x.p for x in xs])
    ks = {x.kind for x in xs}
    return wrap(p, d, kind or ("f" if "f" in ks else "i" if "i" in ks else "b"), cls)


def seq(xs):
    if isinstance(xs, ndarray):
        return [xs[i] for i in range(len(xs))]
    return list(xs)


def hstack(xs): return struct(np.hstack, [_al1(x) for x in seq(xs)])
def vstack(xs): return struct(np.vstack, seq(xs))
def _al1(x): return x
def stack(xs, axis=0): return struct(lambda l: np.stack(l, axis=axis), seq(xs))
def concatenate(xs, axis=0): return struct(lambda l: np.concatenate(l, axis=axis), seq(xs))
def column_stack(xs): return struct(np.column_stack, seq(xs))
def dstack(xs): return struct(np.dstack, seq(xs))


def append(a, v, axis=None):
    if axis is None:
        return concatenate((ravel(a), ravel(v)))
    return concatenate((a, v), axis)


def _st1(name):
    def f(a, *args, **kw):
        a = asarr(a)
        return struct(lambda l: getattr(np, name)(l[0], *args, **kw), [a], cls=type(a))
    return f


def atleast_1d(*xs):
    if len(xs) > 1:
        return [atleast_1d(x) for x in xs]
    x = asarr(xs[0])
    return x if x.ndim else x.reshape(1)
def atleast_2d(x):
    x = asarr(x)
    return x if x.ndim >= 2 else (x[None] if x.ndim else x.reshape(1, 1))
def atleast_3d(x):
    x = asarr(x)
    if x.ndim >= 3:
        return x
    if x.ndim == 2:
        return x[:, :, None]
    if x.ndim == 1:
        return x[None, :, None]
    return x.reshape(1, 1, 1)


def tile(a, reps):
    a = asarr(a)
    if isinstance(reps, (int, SReal)):
        reps = (reps,)
    rp = [pdim(r) for r in reps]
    la = lane_axis(a.d)
    n = lane_of(rp[0][1]) if len(rp) == 1 else None
    if la is not None and n is not None and a.ndim == 1 and n[0] == la[2] == 1:
        l = pair_lane(n[1], la[1])
        l.row_major(n[1], la[1])
        return wrap(a.p.copy(), (l.prime,), a.kind)
    # a lane axis may not itself be tiled
    p = np.tile(a.p, [r[0] for r in rp])
    lab = np.tile(np.asarray(labels(a.d)), [r[1] for r in rp])
    return wrap(p, check_labels(lab), a.kind)


def repeat(a, r, axis=None):
    a = asarr(a)
    r = pdim(r)
    la, n = lane_axis(a.d), lane_of(r[1])
    if la is not None and n is not None and a.ndim == 1 and n[0] == la[2] == 1:
        l = pair_lane(la[1], n[1])
        l.row_major(la[1], n[1])
        return wrap(a.p.copy(), (l.prime,), a.kind)
    return wrap(np.repeat(a.p, r[0], axis), check_labels(np.repeat(np.asarray(labels(a.d)), r[1], axis)), a.kind)


def broadcast_to(a, shape):
    a = asarr(a)
    ps, ds = pshape(shape)
    p = np.empty(ps, dtype=object)
    p[...] = a.p if a.p.ndim else a.p[()]
    return wrap(p, check_labels(np.broadcast_to(labels(a.d), ds)), a.kind)


def reshape(a, shape, order="C"): return asarr(a).reshape(shape)
def ravel(a): return asarr(a).ravel()
def transpose(a, axes=None): return asarr(a).transpose(*( [axes] if axes is not None else []))
def squeeze(a, axis=None): return asarr(a).squeeze(axis)


def _permute(name):
    def f(a, *args, **kw):
        if isinstance(a, Grid):
            return getattr(a, name)(*args, **kw)
        a = asarr(a)
        return wrap(getattr(np, name)(a.p, *args, **kw), check_labels(getattr(np, name)(np.asarray(labels(a.d)), *args, **kw)), a.kind, type(a))
    return f


swapaxes = _permute("swapaxes")
moveaxis = _permute("moveaxis")
expand_dims = _permute("expand_dims")
flip = _permute("flip")
flipud = _permute("flipud")
fliplr = _permute("fliplr")
roll = _permute("roll")


def take(a, i, axis=None):
    a = asarr(a)
    if axis is None:
        return a.ravel()[i]
    return a[(slice(None),) * (axis % a.ndim) + (i,)]


def take_along_axis(a, idx, axis):
    a, idx = asarr(a), asarr(idx)
    axis %= a.ndim
    if a.ndim != idx.ndim or lane_of(a.d[axis]):
        raise Unsupported("take_along_axis")
    for k in range(a.ndim):
        if k != axis and a.d[k] != idx.d[k]:
            raise Unsupported("take_along_axis broadcast")
    iv = np.frompyfunc(lambda v: int(v), 1, 1)(idx.p).astype(np.intp) if idx.p.size else np.empty(idx.p.shape, np.intp)
    return wrap(np.take_along_axis(a.p, iv, axis), idx.d, a.kind)


def split(a, n, axis=0):
    a = asarr(a)
    if lane_of(a.d[axis]):
        raise Unsupported("split lanes")
    m = a.d[axis] // n
    return [a[(slice(None),) * axis + (slice(i * m, (i + 1) * m),)] for i in range(n)]


def meshgrid(*xs, **kw):
    xs = [asarr(x) for x in xs]
    if any(lane_axis(x.d) for x in xs):
        ix = kw.get("indexing", "xy")
        if len(xs) != 2 or any(x.ndim != 1 or lane_of(x.d[0]) is None or lane_of(x.d[0])[0] != 1 for x in xs) or set(kw) - {"indexing"}:
            raise Unsupported("meshgrid over lanes")
        a, b = xs
        d = (b.d[0], a.d[0]) if ix == "xy" else (a.d[0], b.d[0])
        return [Grid(x.p.copy(), 0, d, x.kind) for x in xs]
    return [wrap(m.copy(), m.shape, "f") for m in np.meshgrid(*[x.p for x in xs], **kw)]


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    if n != 1 or append is not None or lane_of(a.d[axis]):
        raise Unsupported("diff")
    axis %= a.ndim
    if prepend is not None:
        pre = asarr(prepend)
        if pre.ndim == 0:
            sh = list(a.shape)
            sh[axis] = 1
            pre = full(tuple(sh), pre.p[()])
        a = concatenate((pre, a), axis)
    s = (slice(None),) * axis
    return a[s + (slice(1, None),)] - a[s + (slice(None, -1),)]


def generate_binary_structure(rank, connectivity):
    p = np.empty((3,) * rank, dtype=object)
    for j in np.ndindex(*p.shape):
        p[j] = sum(abs(x - 1) for x in j) <= max(1, connectivity)
    return wrap(p, p.shape, "b")


def binary_dilation(a, structure=None, iterations=1, **kw):
    """a pixel is set if any pixel is that lies under the (symmetric) structure centred on it, iterations times over"""
    a = asarr(a)
    st = asarr(structure) if structure is not None else generate_binary_structure(a.ndim, 1)
    it = sym.val(iterations)
    if kw or lane_axis(a.d) is not None or isinstance(it, SReal) or st.ndim != a.ndim or st.d != (3,) * a.ndim or not all(isinstance(x, (bool, np.bool_)) for x in st.p.reshape(-1)):
        raise Unsupported("binary_dilation")
    p = np.frompyfunc(_nz, 1, 1)(a.p)
    off = [tuple(x - 1 for x in j) for j in np.ndindex(*st.d) if st.p[j]]
    if any(tuple(-x for x in o) not in off for o in off) or int(it) < 1:
        raise Unsupported("binary_dilation")
    for _ in range(int(it)):
        q = np.empty(p.shape, dtype=object)
        for j in np.ndindex(*p.shape):
            ns = [tuple(x + o for x, o in zip(j, k)) for k in off]
            q[j] = sym.or_(*[p[n] for n in ns if all(0 <= x < m for x, m in zip(n, p.shape))])
        p = q
    return wrap(p, a.d, "b")


def _nz(x): return x if isinstance(x, (bool, np.bool_, B)) else sym.not_(sym.eq(x, 0))


# ---------------------------------------------------------------- selection and reductions
def nonzero(a):
    """the places where a holds: as an index, the same selection as a itself"""
    a = asarr(a)
    m = a if a.kind == "b" else UF["not_equal"](a, 0)
    if lane_axis(a.d) is not None:
        if a.ndim != 1:
            raise Unsupported("nonzero")
        return (Places(m),)
    at = [j for j in np.ndindex(*m.p.shape) if bool(m.p[j])]
    return tuple(asarr(np.array([j[k] for j in at], dtype=int)) for k in range(a.ndim))


class Places:
    """the lanes at which a mask holds, in order"""
    __array_priority__ = 2000

    def __init__(self, mask): self.mask = mask

    @property
    def _chosen(self):
        return ones(self.mask.shape, bool)[self.mask]

    shape = property(lambda s: s._chosen.shape)
    size = property(lambda s: s._chosen.size)
    ndim = property(lambda s: 1)

    def __len__(self): raise Unsupported("len() along the lane axis")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("places of a lane mask: " + n)

    def _no(self, *a, **k): raise Unsupported("places of a lane mask")
    __getitem__ = __setitem__ = __iter__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = _vc_array = _no


def flatnonzero(a): return nonzero(asarr(a).ravel())[0]


def argwhere(a):
    a = asarr(a)
    if lane_axis(a.d) is not None:
        raise Unsupported("argwhere over lanes")
    return stack(nonzero(a), axis=1)


def compress(c, a, axis=None):
    a = asarr(a)
    if axis is None:
        return a.ravel()[asarr(c)]
    return a[(slice(None),) * (axis % a.ndim) + (asarr(c),)]


def extract(c, a): return asarr(a).ravel()[asarr(c).ravel()]


def copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = globals()["where"](where, src, dst)


def putmask(a, m, v):
    if asarr(v).ndim:
        raise Unsupported("putmask")
    a[...] = where(m, v, a)


def fill_diagonal(a, v):
    if a.ndim != 2 or lane_axis(a.d) is not None:
        raise Unsupported("fill_diagonal")
    v = asarr(v)
    for i in range(min(a.d)):
        a.p[i, i] = v.p[()] if v.ndim == 0 else v.p[i]


def diagonal(a):
    a = asarr(a)
    if a.ndim != 2 or lane_axis(a.d) is not None:
        raise Unsupported("diagonal")
    return wrap(np.diagonal(a.p).copy(), (min(a.d),), a.kind)


def trace(a): return sum_(diagonal(a))
def cumprod(a, axis=0): return scan(UF["multiply"], asarr(a), axis)
def ptp(a, axis=None): return UF["subtract"](amax(a, axis), amin(a, axis))
def hsplit(a, n): return split(a, n, 0 if asarr(a).ndim == 1 else 1)
def vsplit(a, n): return split(a, n, 0)
def dsplit(a, n): return split(a, n, 2)
def iterable(x): return hasattr(x, "__iter__")
def isposinf(a): return ew1(lambda v: num(v) == math.inf if isinstance(num(v), float) else False, a, "b")
def isneginf(a): return ew1(lambda v: num(v) == -math.inf if isinstance(num(v), float) else False, a, "b")


def broadcast_arrays(*xs):
    z = None
    for x in map(asarr, xs):
        o = ones_like(x)
        z = o if z is None else UF["multiply"](z, o)
    return [broadcast_to(x, asarr(z).shape) for x in xs]


def broadcast_shapes(*ss):
    return broadcast_arrays(*[zeros(x) for x in ss])[0].shape


def isin(a, vs, assume_unique=False, invert=False):
    vs = asarr(vs)
    if lane_axis(vs.d) is not None:
        raise Unsupported("isin")
    r = ew1(lambda x: sym.or_(*[sym.eq(x, v) for v in vs.p.reshape(-1)]) if vs.p.size else False, a, "b")
    return UF["logical_not"](r) if invert else r


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa, xb = [[x] if isinstance(x, int) else list(x) for x in axes]
    la, lb = list("abcdefg"[:a.ndim]), list("hijklmn"[:b.ndim])
    for i, j in zip(xa, xb):
        if a.d[i] != b.d[j]:
            raise ValueError("shape-mismatch for sum")
        lb[j % b.ndim] = la[i % a.ndim]
    both = set(la) & set(lb)
    return einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(x for x in la + lb if x not in both)), a, b)


def where(c, *ab):
    if not ab:
        return nonzero(c)
    if len(ab) != 2:
        raise ValueError("either both or neither of x and y should be given")
    xs = [asarr(c), asarr(ab[0]), asarr(ab[1])]
    return ew(sym.select, xs, lambda v: ktop(v[1:]) if not (v[1].kind == "b" and v[2].kind == "b") else "b").view(ndarray) \
        if any(x.ndim for x in xs) else sym.select(xs[0].p[()], xs[1].p[()], xs[2].p[()])


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def choose_axis(a, axis, keepdims, d=None):
    d = list(a.d)
    if keepdims:
        d[axis] = 1
    else:
        d.pop(axis)
    return tuple(d)


def axis_fold(a, axis, keepdims, fold, kind):
    """fold(list of elements) -> element along one non-lane axis"""
    if isinstance(axis, tuple):
        axis = tuple(sorted(x % a.ndim for x in axis))
        if len(axis) == a.ndim:
            axis = None
        elif not axis or len(set(axis)) < len(axis):
            raise Unsupported("multi-axis reduction")
        else:
            # over several axes at once: the axes made one
            keep = [x for x in range(a.ndim) if x not in axis]
            if any(lane_of(a.d[x]) for x in axis):
                raise Unsupported("reduction over lanes")
            t = a.transpose(tuple(keep) + axis)
            m = 1
            for x in axis:
                m *= a.d[x]
            t = wrap(t.p.reshape(t.p.shape[:len(keep)] + (m,)), t.d[:len(keep)] + (m,), a.kind)
            r = axis_fold(t, len(keep), False, fold, kind)
            if keepdims:
                for x in axis:
                    r = expand_dims(r, x)
            return r
    if axis is None:
        if lane_axis(a.d):
            raise Unsupported("reduction over lanes")
        r = fold(list(a.p.reshape(-1)))
        if keepdims:
            return full((1,) * a.ndim, r)
        return r
    axis = axis % a.ndim
    if lane_of(a.d[axis]):
        raise Unsupported("reduction over lanes")
    d = choose_axis(a, axis, keepdims)
    src = np.moveaxis(a.p, axis, 0)
    p = np.empty(src.shape[1:], dtype=object)
    for j in np.ndindex(*p.shape):
        p[j] = fold([src[(i,) + j] for i in range(src.shape[0])])
    if keepdims:
        p = np.expand_dims(p, axis)
    if d == ():
        return p[()]
    return wrap(p, d, kind)


def reduce_(a, f, axis, keepdims, kind, ident=None):
    def fold(xs):
        if not xs:
            if ident is None:
                raise ValueError("zero-size array to reduction operation")
            return ident
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return axis_fold(asarr(a), axis, keepdims, fold, kind)


def _mm(s):
    def fold(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation")
        c = sym.ctx()
        fin = [sym.val(x) for x in xs]
        if any(isinstance(x, float) and math.isnan(x) for x in fin):
            return math.nan
        infs = [x for x in fin if isinstance(x, float)]
        rest = [x for x in fin if not isinstance(x, float)]
        top = [x for x in infs if (x > 0) == (s > 0)]
        if top:
            return top[0]
        if not rest:
            return infs[0]
        if c.merge and any(isinstance(x, SReal) for x in rest):
            consts = [x for x in rest if not isinstance(x, SReal)]
            ss = [x for x in rest if isinstance(x, SReal)]
            if consts:
                ss.append(max(consts) if s > 0 else min(consts))
            return c.minmax(ss, s)
        r = rest[0]
        for x in rest[1:]:
            r = sym.smax(r, x) if s > 0 else sym.smin(r, x)
        return r
    return fold


def amax(a, axis=None, keepdims=False, out=None):
    a = asarr(a)
    return axis_fold(a, axis, keepdims, _mm(1), a.kind)


def amin(a, axis=None, keepdims=False, out=None):
    a = asarr(a)
    return axis_fold(a, axis, keepdims, _mm(-1), a.kind)


def _lane_sum(a, axis, keepdims):
    """the sum along the lane axis"""
    la = lane_axis(a.d)
    if la is None or not (axis is None and a.ndim == 1 or isinstance(axis, int) and axis % a.ndim == la[0]):
        return None
    l = lanes()[la[1]]
    if l.pair or l.parent is not None or l.phys != 1 or a.p.shape[la[0]] != la[2]:
        raise Unsupported("reduction over lanes")
    c = sym.ctx()
    src = np.moveaxis(a.p, la[0], 0)
    p = np.empty(src.shape[1:], dtype=object)
    for j in np.ndindex(*p.shape):
        r = F(0)
        for i in range(src.shape[0]):
            r = sym.add(r, c.lane_sum(l, src[(i,) + j]))
        p[j] = r
    d = choose_axis(a, la[0], keepdims)
    if keepdims:
        p = np.expand_dims(p, la[0])
    return p[()] if d == () else wrap(p, d, "i" if a.kind == "b" else a.kind)


def sum_(a, axis=None, keepdims=False, dtype=None, out=None):
    a = asarr(a)
    if lane_axis(a.d) is not None:
        r = _lane_sum(a, axis, keepdims)
        if r is not None:
            return r
    return reduce_(a, sym.add, axis, keepdims, "i" if a.kind == "b" else a.kind, F(0) if a.kind == "f" else 0)


def prod(a, axis=None, keepdims=False):
    a = asarr(a)
    return reduce_(a, sym.mul, axis, keepdims, a.kind, 1)


def mean(a, axis=None, keepdims=False):
    a = asarr(a)
    n = a.d[axis] if axis is not None else a.p.size
    if lane_axis(a.d) is not None:
        r = _lane_sum(a, axis, keepdims)
        if r is not None:
            return UF["true_divide"](r, SReal(a.shape[lane_axis(a.d)[0]].p))
    return sum_(a, axis, keepdims) / n if isinstance(sum_(a, axis, keepdims), ndarray) else sym.div(sum_(a, axis, keepdims), n)


def average(a, axis=None):
    return mean(a, axis)


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    if lane_of(a.d[axis]):
        raise Unsupported("cumsum over lanes")
    src = np.moveaxis(a.p, axis, 0)
    out = np.empty(a.p.shape, dtype=object)
    dst = np.moveaxis(out, axis, 0)
    acc = None
    for i in range(src.shape[0]):
        row = np.frompyfunc(sym.val, 1, 1)(src[i]) if np.size(src[i]) else src[i]
        acc = row if acc is None else np.frompyfunc(sym.add, 2, 1)(acc, row)
        dst[i] = acc
    return wrap(out, a.d, "i" if a.kind == "b" else a.kind)


def _anyall(a, axis, keepdims, is_any):
    a = asarr(a)
    if isinstance(axis, tuple):
        axis = tuple(sorted(x % a.ndim for x in axis)) if axis else axis
        if len(axis) == a.ndim:
            axis = None
        elif len(axis) == 1:
            axis = axis[0]
        elif lane_axis(a.d) is not None and lane_axis(a.d)[0] not in axis:
            return axis_fold(a, axis, keepdims, lambda xs: (sym.or_ if is_any else sym.and_)(*[sym.truth(x) for x in xs]) if xs else (not is_any), "b")
        elif lane_axis(a.d) is None:
            return axis_fold(a, axis, keepdims, lambda xs: (sym.or_ if is_any else sym.and_)(*[sym.truth(x) for x in xs]) if xs else (not is_any), "b")
        else:
            raise Unsupported("multi-axis any/all")
    la = lane_axis(a.d)
    comb = sym.or_ if is_any else sym.and_
    if la is None or (axis is not None and axis % a.ndim != la[0]):
        return axis_fold(a, axis, keepdims, lambda xs: comb(*[sym.truth(x) for x in xs]) if xs else (not is_any), "b")
    if axis is not None and a.ndim > 1:
        raise Unsupported("any/all over lanes of a multi-dimensional array")
    els = [sym.truth(x) for x in a.p.reshape(-1)]
    if not is_any:
        els = [sym.not_(x) for x in els]
    c = sym.ctx()
    v = sym.or_(*els) if els else False
    # some other lane may satisfy it
    key = ("any", la[1], tuple(sorted(map(repr, (bkey(x) for x in els)))))
    if els and all(x is False for x in els) and all(isinstance(x, bool) for x in els) and _lane_const(a):
        r = False
    else:
        if key not in c.memo:
            c.nd += 1
            c.memo[key] = B("nd", "any%d" % c.nd)
        r = sym.or_(v, c.memo[key])
    return r if is_any else sym.not_(r)


def _lane_const(a):
    """a syntactically constant False array: no other lane can differ"""
    return False


def any_(a, axis=None, keepdims=False, out=None): return _anyall(a, axis, keepdims, True)
def all_(a, axis=None, keepdims=False, out=None): return _anyall(a, axis, keepdims, False)


def _argext(s):
    def fold(xs):
        b = 0
        for i in range(1, len(xs)):
            c = sym.lt(xs[i], xs[b]) if s < 0 else sym.lt(xs[b], xs[i])
            if bool(c):
                b = i
        return b
    return fold


def argmin(a, axis=None): return axis_fold(asarr(a), axis, False, _argext(-1), "i")
def argmax(a, axis=None): return axis_fold(asarr(a), axis, False, _argext(1), "i")
def count_nonzero(a, axis=None):
    return sum_(where(asarr(a), 1, 0), axis)


def _isort(xs, behind=sym.lt):
    """insertion argsort (ties keep their order, or with behind=sym.le reverse it)"""
    order = []
    for i, x in enumerate(xs):
        k = len(order)
        while k > 0 and bool(behind(x, xs[order[k - 1]])):
            k -= 1
        order.insert(k, i)
    return order


def _along(a, axis, f, kind):
    axis %= a.ndim
    if lane_of(a.d[axis]):
        raise Unsupported("sort over lanes")
    src = np.moveaxis(a.p, axis, 0)
    out = np.empty(a.p.shape, dtype=object)
    dst = np.moveaxis(out, axis, 0)
    for j in np.ndindex(*src.shape[1:]):
        r = f([src[(i,) + j] for i in range(src.shape[0])])
        for i, v in enumerate(r):
            dst[(i,) + j] = v
    return wrap(out, a.d, kind)


def sort(a, axis=-1, kind=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    def f(xs):
        c = sym.ctx()
        if c.merge and len(xs) == 2:
            return [sym.smin(xs[0], xs[1]), sym.smax(xs[0], xs[1])]
        return [xs[i] for i in _isort(xs)]
    return _along(a, axis, f, a.kind)


def argsort(a, axis=-1, kind=None):
    """only a stable sort promises the order of ties: otherwise they come in either order"""
    a = asarr(a)
    if kind in ("stable", "mergesort"):
        return _along(a, axis, _isort, "i")
    c = sym.ctx()
    if "order of ties" not in c.memo:  # one order per path
        c.nd += 1
        c.memo["order of ties"] = bool(sym.B("nd", "c%d:order of ties" % c.nd))
    behind = sym.le if c.memo["order of ties"] else sym.lt
    return _along(a, axis, lambda xs: _isort(xs, behind), "i")


def lexsort(*a): raise Unsupported("lexsort")


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = UF["maximum"](r, lo)
    if hi is not None:
        r = UF["minimum"](r, hi)
    return r


def _close(rtol, atol):
    rtol, atol = num(rtol), num(atol)
    def f(a, b):
        a, b = sym.val(a), sym.val(b)
        if isinstance(a, float) or isinstance(b, float):
            return isinstance(a, float) and isinstance(b, float) and a == b
        dlt = sym.sub(a, b)
        if isinstance(b, SReal) and rtol != 0:
            tp, tm = sym.add(atol, sym.mul(rtol, b)), sym.sub(atol, sym.mul(rtol, b))
            return sym.or_(sym.and_(sym.le(dlt, tp), sym.le(sym.neg(dlt), tp)), sym.and_(sym.le(dlt, tm), sym.le(sym.neg(dlt), tm)))
        t = atol + rtol * abs(b) if not isinstance(b, SReal) else atol
        # exact equality is the common special case
        return sym.and_(sym.le(dlt, t), sym.le(sym.neg(dlt), t)) if not sym.same(dlt, 0) else True
    return f


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False): return ew(_close(rtol, atol), (a, b), "b")
def allclose(a, b, rtol=1e-05, atol=1e-08): return all_(isclose(a, b, rtol, atol))
def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    return False if a.d != b.d else all_(a == b)


# ---------------------------------------------------------------- linear algebra
def _zeros(d): return np.zeros(d, dtype=np.int8)


def matmul(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if out is not None:
        raise Unsupported("matmul out")
    for x, ax in ((a, -1), (b, -2 if b.ndim > 1 else -1)):
        if x.ndim == 0:
            raise ValueError("matmul: scalar operand")
        if lane_of(x.d[ax]):
            raise Unsupported("contraction over lanes")
    d = np.matmul(_zeros(a.d), _zeros(b.d)).shape
    lane_axis(d)
    if a.d == (4, 4) and b.d == (4, 4):
        r = words_mul(a, b)
        if r is not None:
            return r
    p = obj_matmul(a.p, b.p)
    if not isinstance(p, np.ndarray):
        return p
    return wrap(p, d, ktop([a, b]), rescls([b, a]))


def obj_matmul(a, b):
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None]
    if b1:
        b = b[:, None]
    n = a.shape[-1]
    mulv, addv = np.frompyfunc(sym.mul, 2, 1), np.frompyfunc(sym.add, 2, 1)
    r = None
    for k in range(n):
        t = mulv(a[..., :, k][..., :, None], b[..., k, :][..., None, :])
        r = t if r is None else addv(r, t)
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    return r[()] if r.ndim == 0 else r


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return UF["multiply"](a, b)
    if b.ndim <= 2:
        return matmul(a, b)
    raise Unsupported("dot")


def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return matmul(a, b)
    raise Unsupported("inner")


vdot = inner


def outer(a, b):
    a, b = asarr(a), asarr(b)
    return a.reshape(-1)[:, None] * b.reshape(-1)[None, :]


def cross(a, b, axis=-1, axisa=-1, axisb=-1, axisc=-1):
    a, b = asarr(a), asarr(b)
    a0, b0 = moveaxis(a, axis, 0), moveaxis(b, axis, 0)
    if a0.d[0] != 3 or b0.d[0] != 3:
        raise Unsupported("cross")
    r = stack([a0[1] * b0[2] - a0[2] * b0[1], a0[2] * b0[0] - a0[0] * b0[2], a0[0] * b0[1] - a0[1] * b0[0]], axis=0)
    return moveaxis(r, 0, axis)


def einsum(sub, *ops, **kw):
    kw.pop("optimize", None)
    if kw:
        raise Unsupported("einsum keyword")
    if not isinstance(sub, str):
        raise Unsupported("einsum without subscripts")
    xs = [asarr(o) for o in ops]
    sub = sub.replace(" ", "")
    if "..." in sub:
        ins, _, o = sub.partition("->")
        ins = ins.split(",")
        extra = [x.ndim - len(t.replace("...", "")) if "..." in t else 0 for t, x in zip(ins, xs)]
        if min(extra) < 0:
            raise ValueError("einsum subscripts do not match")
        free = "ABCDEFGHIJ"[:max(extra)]
        if set(free) & set(sub):
            raise Unsupported("einsum ellipsis")
        if "->" not in sub:
            flat = ",".join(ins).replace("...", "").replace(",", "")
            o = "..." + "".join(sorted(l for l in set(flat) if flat.count(l) == 1))
        ins = [t.replace("...", free[len(free) - e:]) for t, e in zip(ins, extra)]
        sub = ",".join(ins) + "->" + o.replace("...", free)
    if "->" not in sub:
        letters = sorted(l for l in set(sub.replace(",", "")) if sub.count(l) == 1)
        sub += "->" + "".join(letters)
    ins, o = sub.split("->")
    ins = ins.split(",")
    if len(ins) != len(xs):
        raise ValueError("einsum operands")
    dims = {}
    pd = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim:
            raise ValueError("einsum subscripts do not match")
        for l, n, m in zip(s, x.d, x.p.shape):
            if dims.get(l, 1) not in (n, 1) and n != 1:
                raise ValueError("einsum dimension mismatch")
            if n != 1 or l not in dims:
                dims[l], pd[l] = n, m
    for l, n in dims.items():
        if lane_of(n) and l not in o:
            raise Unsupported("contraction over lanes")
    summed = [l for l in dims if l not in o]
    shp = [pd[l] for l in o]
    r = np.empty(shp, dtype=object)
    for j in np.ndindex(*shp):
        env = dict(zip(o, j))
        acc = F(0)
        for k in np.ndindex(*[pd[l] for l in summed]):
            env.update(zip(summed, k))
            t = None
            for s, x in zip(ins, xs):
                e = x.p[tuple(0 if n == 1 else env[l] for l, n in zip(s, x.d))]
                t = e if t is None else sym.mul(t, e)
            acc = sym.add(acc, t)
        r[j] = acc
    d = tuple(dims[l] for l in o)
    lane_axis(d)
    return r[()] if d == () else wrap(r, d, ktop(xs))


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    def fold(xs):
        s = F(0)
        for v in xs:
            s = sym.add(s, sym.mul(v, v))
        return sym.sqrt(s, nonneg=True)
    return axis_fold(x, axis, keepdims, fold, "f")


# matrices as words of invertible generators: keeps products of opaque 4x4 transforms canonical
def content_key(p): return tuple(bkey(v) for v in p.reshape(-1))


ID_KEY = None


def word_of(a):
    global ID_KEY
    k = content_key(a.p)
    if ID_KEY is None:
        ID_KEY = content_key(identity(4).p)
    if k == ID_KEY:
        return ()
    w = sym.ctx().memo.get(("wordof", k))
    return w if w is not None else ((k, 1),)


def register_opaque(a):
    c = sym.ctx()
    k = content_key(a.p)
    c.memo[("gen", k)] = a.p.copy()
    if not hasattr(c, "opaque"):
        c.opaque = set()
    c.opaque.add(k)


def words_mul(a, b):
    c = sym.ctx()
    if not getattr(c, "opaque", None):
        return None
    wa, wb = word_of(a), word_of(b)
    if not any(g in c.opaque for g, _ in wa + wb):
        return None
    for w, x in ((wa, a), (wb, b)):
        if len(w) == 1 and w[0][1] == 1:
            c.memo.setdefault(("gen", w[0][0]), x.p.copy())
    w = list(wa)
    for g in wb:
        if w and w[-1][0] == g[0] and w[-1][1] == -g[1]:
            w.pop()
        else:
            w.append(g)
    return word_matrix(tuple(w))


def word_matrix(w):
    c = sym.ctx()
    if not w:
        return identity(4)
    key = ("word", w)
    if key not in c.memo:
        if len(w) == 1:
            g, e = w[0]
            p = c.memo[("gen", g)] if e == 1 else inverse_entries(c.memo[("gen", g)])
        else:
            if len(w) == 2:
                l, r = word_matrix(w[:1]), word_matrix(w[1:])
            else:
                l, r = word_matrix(w[:1]), word_matrix(w[1:])
            prod = obj_matmul(l.p, r.p)
            p = np.empty((4, 4), dtype=object)
            for j in np.ndindex(4, 4):
                v = prod[j]
                if isinstance(v, SReal) and len(v.p) > 1:
                    v = SReal({((c.def_atom(v.p, "W"), 1),): F(1)})
                p[j] = v
        c.memo[key] = p
        c.memo[("wordof", content_key(p))] = w
    return wrap(c.memo[key].copy(), (4, 4), "f")


def inverse_entries(m):
    """entries of the inverse of an opaque generator, axiomatised by M K = K M = I"""
    c = sym.ctx()
    key = ("invof", content_key(m))
    if key in c.memo:
        return c.memo[key]
    aff = all(sym.same(m[3, j], F(1) if j == 3 else F(0)) for j in range(4))
    if not (hasattr(c, "opaque") and content_key(m) in c.opaque):
        r = inverse_exact(m)
        c.memo[key] = r
        return r
    k = np.empty((4, 4), dtype=object)
    # numeric samples of the inverse
    ms = np.zeros((96, 4, 4))
    for j in np.ndindex(4, 4):
        ms[(slice(None),) + j] = c.psamp(sym.poly(m[j]))
    ks = np.zeros_like(ms)
    for t in range(96):
        try:
            ks[t] = np.linalg.inv(ms[t])
        except Exception:
            pass
    for j in np.ndindex(4, 4):
        if aff and j[0] == 3:
            k[j] = F(1) if j[1] == 3 else F(0)
        else:
            k[j] = c.var("K%d%d" % j, samp=ks[(slice(None),) + j].copy(), kind="aux")
    c.memo[key] = k
    for x, y in ((m, k), (k, m)):
        pr = obj_matmul(x, y)
        for j in np.ndindex(4, 4):
            e = sym.eq(pr[j], 1 if j[0] == j[1] else 0)
            if not isinstance(e, bool):
                c.facts.append(e)
    return k


def det3(m):
    def t(a, b, e): return sym.mul(sym.mul(a, b), e)
    r = F(0)
    for (i, j, k), s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((2, 1, 0), -1), ((1, 0, 2), -1), ((0, 2, 1), -1)):
        v = t(m[0, i], m[1, j], m[2, k])
        r = sym.add(r, v) if s > 0 else sym.sub(r, v)
    return r


def inverse_exact(m):
    if not all(sym.same(m[3, j], F(1) if j == 3 else F(0)) for j in range(4)):
        raise Unsupported("inverse of a non-affine symbolic matrix")
    a = m[:3, :3]
    dt = det3(a)
    if not isinstance(dt, SReal) and dt == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    k = np.empty((4, 4), dtype=object)
    for i in range(3):
        for j in range(3):
            r = [x for x in range(3) if x != j]
            q = [x for x in range(3) if x != i]
            cof = sym.sub(sym.mul(a[r[0], q[0]], a[r[1], q[1]]), sym.mul(a[r[0], q[1]], a[r[1], q[0]]))
            if (i + j) % 2:
                cof = sym.neg(cof)
            k[i, j] = sym.div(cof, dt)
            if isinstance(k[i, j], float):
                raise np.linalg.LinAlgError("Singular matrix")
    t = obj_matmul(k[:3, :3], m[:3, 3])
    for i in range(3):
        k[i, 3] = sym.neg(t[i])
        k[3, i] = F(0)
    k[3, 3] = F(1)
    return k


def inv(a):
    a = asarr(a)
    if a.d != (4, 4):
        raise Unsupported("inverse of shape %s" % (a.d,))
    c = sym.ctx()
    w = word_of(a)
    if getattr(c, "opaque", None) and any(g in c.opaque for g, _ in w):
        for g, e in w:
            c.memo.setdefault(("gen", g), a.p.copy() if len(w) == 1 else None)
        return word_matrix(tuple((g, -e) for g, e in reversed(w)))
    return wrap(inverse_exact(a.p).copy(), (4, 4), "f")


# ---------------------------------------------------------------- random
def random_sample(size=None):
    c = sym.ctx()
    tape = getattr(c, "tape", None)
    if tape and tape[0] == "play":
        if not tape[1]:
            raise Unsupported("more random numbers drawn than recorded")
        a = tape[1].pop(0)
        if size is None:
            if isinstance(a, ndarray):
                raise Unsupported("other random numbers drawn than recorded")
            return a
        if not isinstance(a, ndarray) or a.d != pshape(size)[1]:
            raise Unsupported("other random numbers drawn than recorded")
        return a.copy()
    r = _random_sample(c, size)
    if tape:
        tape[1].append(r.copy() if isinstance(r, ndarray) else r)
    return r


def _random_sample(c, size):
    def one():
        v = c.var("u", frozenset((0, 1)), samp=c.rng.rand(96) * 0.999, kind="aux")
        c.assume(sym.lt(v, 1))
        return v
    if size is None:
        return one()
    a = empty(size)
    for j in np.ndindex(*a.p.shape):
        a.p[j] = one()
    return a


rows.install(sys.modules[__name__])


class _NS(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s is outside the evaluator's reach" % (self.__name__, n))


class _Err:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class _PiNS(_NS):
    @property
    def pi(self): return sym.ctx().pi() if sym.CTX is not None else _LazyPi()


class _LazyPi:
    """np.pi used at import time"""
    def __getattr__(self, n): raise Unsupported("pi at import time")


def make_numpy():
    m = _PiNS("numpy")
    d = m.__dict__
    d.update(UF)
    g = globals()
    for n in ("full zeros ones empty zeros_like ones_like full_like empty_like array asarray asanyarray identity eye diag arange linspace copy "
              "hstack vstack stack concatenate column_stack dstack append atleast_1d atleast_2d atleast_3d tile repeat broadcast_to reshape ravel "
              "transpose squeeze swapaxes moveaxis expand_dims flip flipud fliplr roll take take_along_axis split meshgrid diff where select amax amin prod "
              "mean average cumsum argmin argmax count_nonzero sort argsort clip isclose allclose array_equal matmul dot inner vdot outer cross "
              "einsum ndarray nonzero flatnonzero argwhere compress extract copyto putmask fill_diagonal diagonal trace cumprod ptp hsplit vsplit dsplit "
              "iterable isposinf isneginf broadcast_arrays broadcast_shapes isin tensordot").split():
        d[n] = g[n]
    d["ascontiguousarray"] = d["asfortranarray"] = d["asarray_chkfinite"] = asarray
    d["in1d"] = isin
    d["real"] = d["conj"] = d["conjugate"] = asarray
    d["product"] = prod
    d["row_stack"] = vstack
    d["max"], d["min"], d["sum"], d["any"], d["all"] = amax, amin, sum_, any_, all_
    d["nanmax"], d["nanmin"] = amax, amin
    d["inf"], d["nan"], d["newaxis"], d["Inf"], d["infty"], d["PINF"], d["NINF"] = math.inf, math.nan, None, math.inf, math.inf, math.inf, -math.inf
    d["float64"] = d["double"] = float
    d["float32"] = d["float16"] = d["single"] = d["half"] = Narrow
    d["int64"] = d["int32"] = d["intp"] = d["int_"] = int
    d["bool_"] = d["bool8"] = bool
    d["ndim"] = lambda x: asarr(x).ndim
    d["shape"] = lambda x: asarr(x).shape
    d["size"] = lambda x: asarr(x).size
    d["isscalar"] = lambda x: not isinstance(x, (ndarray, list, tuple))
    d["errstate"] = _Err
    la = _NS("numpy.linalg")
    la.norm, la.inv = norm, inv
    la.LinAlgError = np.linalg.LinAlgError
    d["linalg"] = la
    rn = _NS("numpy.random")
    rn.random_sample = rn.random = rn.sample = rn.ranf = random_sample
    rn.rand = lambda *s: random_sample(tuple(s) if s else None)
    def uniform(low=0.0, high=1.0, size=None):
        u = random_sample(size)
        return u * (sym.sub(high, low)) + low
    rn.uniform = uniform
    d["random"] = rn
    return m, la, rn
