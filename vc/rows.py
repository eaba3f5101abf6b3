"""Arrays whose first axis (the hits along a ray) has any length.

Two ascending operands of 2p and 2q rows, p and q unknown, are merged into one ascending sequence. Reading that sequence row by row is a walk over four states,
the parity of the rows read so far from either operand; a row is one of eight transitions (state before it, operand it comes from), starts in (even, even) and,
as both operands have an even number of rows, ends there. What the code computes for a row from its own value, its place in its operand and the rows before it
is kept as a table with one entry per transition, so that whatever holds of the table's entries holds of every row of every merge:

  a block            2 entries, even and odd rows of an operand
  stacked blocks     4 entries (operand, even or odd)
  merged             8 entries: the stacked rows in ascending order, ties in stable order, so that a row's parity in its operand is that of the state before it
  sorted again       8 entries: the merged rows in the order of values computed from them
  constant           1 entry

Running sums follow from the states (they are a function of the state if what is added up returns to its value around every square of the walk), a shift by one
row moves a function of the state after a row to the next. Everything else is outside reach and says so (sym.Unsupported)."""
import itertools
import numpy as np
from . import sym
from .sym import SReal, B, F, Unsupported

STATES = [(0, 0), (0, 1), (1, 0), (1, 1)]
STEPS = [(s, o) for s in STATES for o in (0, 1)]  # state before, operand of the row


def after(s, o): return tuple(x ^ (i == o) for i, x in enumerate(s))


def _np():
    from . import nparr
    return nparr


def blocks():
    c = sym.ctx()
    if not hasattr(c, "row_blocks"):
        c.row_blocks = []
    return c.row_blocks


class Rows:
    __array_priority__ = 3000
    __vc_rows__ = True

    def __init__(self, n, lane, dom, a, asc=False, perm=None):
        self.n, self.lane, self.dom, self.a, self.asc, self.perm = n, lane, dom, a, asc, perm  # asc: ascending (of stacked blocks: each)

    @staticmethod
    def block(half, values, asc=False, like=None):
        """values: array (2,) or (2, lanes) of the even and the odd rows of an operand with 2 half rows; like: another array of the same operand"""
        values = _np().asarr(values)
        if like is None:
            blocks().append(half)
        i = len(blocks()) - 1 if like is None else like.dom[1]
        return Rows(sym.mul(half, 2), values.d[1] if values.ndim == 2 else None, ("block", i), values, asc)

    # ---- shape-like
    @property
    def shape(self):
        np_ = _np()
        if self.lane is None:
            return (self.n,)
        l = np_.lane_of(self.lane)
        return (self.n, np_.LaneDim(l[0], l[1]) if l else self.lane)
    ndim = property(lambda s: 1 if s.lane is None else 2)
    size = property(lambda s: s.n if s.lane is None else sym.mul(s.n, s.shape[1]))
    dtype = property(lambda s: s.values().dtype)
    kind = property(lambda s: s.values().kind)

    def __len__(self): raise Unsupported("len() of any number of rows")

    def values(self):
        if self.a is None:
            raise Unsupported("positions in a sorted sequence of any length")
        return self.a

    def _like(self, a, **k):
        return Rows(self.n, self.lane, self.dom, a, **k)

    def table(self):
        """one entry per transition and lane"""
        np_ = _np()
        k = max(self.values().d[0], 8 if self.dom[0] == "const" else 0)
        r = np_.full((k,) if self.lane is None else (k, self.shape[1]), 0.0)
        r.p[...] = np.broadcast_to(self.a.p, r.p.shape)
        r.kind = self.a.kind
        return r

    def copy(self): return self._like(self.values().copy(), asc=self.asc, perm=self.perm) if self.a is not None else self
    def astype(self, t, copy=True, **k): return self._like(self.values().astype(t), asc=self.asc)
    def argsort(self, axis=-1, kind=None, **k): return argsort(self, axis=axis, kind=kind)
    def cumsum(self, axis=None, **k): return cumsum(self, axis)
    def view(self, *a): return self

    def sort(self, axis=-1, kind=None):
        r = sort(self, axis=axis, kind=kind)
        self.dom, self.a, self.asc, self.perm = r.dom, r.a, r.asc, None

    # ---- indexing
    def _key(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = tuple(slice(None) if x is Ellipsis else x for x in idx)
        return idx + (slice(None),) * (self.ndim - len(idx))

    def __getitem__(self, idx):
        np_ = _np()
        i = self._key(idx)
        every = [isinstance(x, slice) and x == slice(None) for x in i]
        if all(every) and len(i) == self.ndim:
            return self._like(self.a, asc=self.asc, perm=self.perm)
        if len(i) == self.ndim and isinstance(i[0], Rows) and i[0].perm and (self.ndim == 1 or own_lane(i[1], self.lane)):
            return gather(self, i[0])
        if len(i) == 2 == self.ndim and every[0] and isinstance(i[1], np_.ndarray) and i[1].kind == "b" and i[1].ndim == 1:
            a = self.spread()[:, i[1]]
            return Rows(self.n, a.d[1], self.dom, a, self.asc)
        raise Unsupported("index into any number of rows")

    def spread(self):
        """values with their lanes"""
        a = self.values()
        if self.lane is not None and a.d[1] != self.lane:
            r = _np().full((a.d[0], self.shape[1]), 0)
            r.p[...] = np.broadcast_to(a.p, r.p.shape)
            r.kind = a.kind
            return r
        return a

    def __setitem__(self, idx, v):
        np_ = _np()
        i = self._key(idx)
        every = [isinstance(x, slice) and x == slice(None) for x in i]
        if all(every):
            r = lift(lambda x, y: np_.where(True, y, x), self, v) if not isinstance(v, Rows) else v
            asc = isinstance(v, Rows) and v.asc
        elif len(i) == 1 and isinstance(i[0], Rows) and i[0].kind == "b" or (isinstance(i[0], Rows) and i[0].kind == "b" and every[1:] == [True] and len(i) == 2):
            if np_.asarr(v).ndim if not isinstance(v, Rows) else True:
                raise Unsupported("assignment to a choice of rows")
            r, asc = lift(np_.where, i[0], v, self), False
        elif len(i) == 2 == self.ndim and every[0] and isinstance(i[1], np_.ndarray) and i[1].kind == "b" and i[1].ndim == 1:
            asc = self.asc or self.dom[0] == "const"
            if isinstance(v, Rows):
                asc = asc and v.asc
                dom, (x, y) = common(self, v)
                if not _same(self.n, v.n):
                    raise Unsupported("assignment of another number of rows")
                x = x.copy()
                x[:, i[1]] = y
            else:
                dom, x = self.dom, self.spread().copy()
                if np_.asarr(v).ndim > 1:
                    raise Unsupported("assignment to any number of rows")
                x[:, i[1]] = v
            r = Rows(self.n, self.lane, dom, x)
        else:
            raise Unsupported("assignment into any number of rows")
        self.dom, self.a, self.asc, self.perm = r.dom, r.a, asc, None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("any number of rows: " + n)

    def _no(self, *a, **k): raise Unsupported("any number of rows")
    __iter__ = __bool__ = __matmul__ = __rmatmul__ = _no
    _vc_array = _no


def _same(x, y): return sym.ctx().known(sym.eq(x, y)) is True if isinstance(x, SReal) or isinstance(y, SReal) else x == y


def own_lane(i, lane):
    """every lane under its own index"""
    np_ = _np()
    if not isinstance(i, np_.ndarray) or i.ndim not in (1, 2) or i.d[-1] != lane or (i.ndim == 2 and i.d[0] != 1):
        return False
    if i.p.size == 0:
        return True
    l = np_.lane_of(lane)
    a = np_.arange(np_.LaneDim(*l) if l else lane)
    return all(sym.same(x, y) for x, y in zip(i.p.reshape(-1), a.p.reshape(-1)))


def common(*xs):
    """(domain, tables with as many entries) of arrays of the same rows"""
    np_ = _np()
    doms = [x.dom for x in xs if x.dom[0] != "const"]
    if any(d != doms[0] for d in doms):
        raise Unsupported("rows in different order")
    if any(not _same(x.n, xs[0].n) for x in xs):
        raise Unsupported("different numbers of rows")
    k = max(x.values().d[0] for x in xs)
    out = []
    for x in xs:
        a = x.spread()
        if a.d[0] != k:
            r = np_.full((k,) + x.shape[1:], 0)
            r.p[...] = np.broadcast_to(a.p, r.p.shape)
            r.kind = a.kind
            a = r
        out.append(a)
    return (doms[0] if doms else xs[0].dom), out


def lift(f, *args):
    """f row by row"""
    np_ = _np()
    rows = [x for x in args if isinstance(x, Rows)]
    doms = [x.dom for x in rows if x.dom[0] != "const"]
    if any(d != doms[0] for d in doms):
        raise Unsupported("rows in different order")
    if any(not _same(x.n, rows[0].n) or x.ndim != rows[0].ndim or x.lane != rows[0].lane for x in rows):
        raise Unsupported("different numbers of rows")
    xs = []
    for x in args:
        if isinstance(x, Rows):
            xs.append(x.values())
            continue
        y = np_.asarr(x)
        if y.ndim and (rows[0].ndim == 1 or y.ndim > 2 or (y.ndim == 2 and y.d[0] != 1) or y.d[-1] not in (1, rows[0].lane)):
            raise Unsupported("any number of rows and an array")
        xs.append(x)
    r = f(*xs)
    if r.kind == "b":
        r = settle(r)
    return rows[0]._like(r) if not doms else Rows(rows[0].n, rows[0].lane, doms[0], r)


def settle(a):
    """conditions that follow from the transition are decided"""
    c = sym.ctx()
    p = a.p.copy()
    for j in np.ndindex(*p.shape):
        b = sym.truth(sym.num(p[j]))
        if isinstance(b, B):
            b = k if (k := c.known(b)) is not None else b
        p[j] = b
    return _np().wrap(p, a.d, "b")


def _axis0(x, axis):
    if axis is None:
        if x.ndim != 1:
            raise Unsupported("any number of rows, flattened")
    elif axis not in (0, -x.ndim):
        raise Unsupported("along the rays")


def _tkey(a):
    return tuple(_np().bkey(v) for v in a.p.reshape(-1)) + a.p.shape


def order(x, kind):
    """domain of the rows of x in ascending order"""
    if x.dom[0] == "cat":
        if not x.asc:
            raise Unsupported("sorting rows that are not ascending operands")
        if kind not in ("stable", "mergesort"):
            raise Unsupported("ties in any order")
        return ("merged", x.dom, _tkey(x.values()))
    if x.dom[0] == "merged":
        return ("sorted", x.dom, _tkey(x.values()))
    raise Unsupported("sorting any number of rows")


def gather(x, perm):
    to = perm.perm
    if x.dom[0] == "const":
        return x
    if to[1] != x.dom:
        raise Unsupported("rows in the order of others")
    return Rows(x.n, x.lane, to, gathered(x, to), asc=_tkey(x.values()) == to[2])


def gathered(x, to):
    a = x.values()
    if to[0] == "merged":
        np_ = _np()
        return np_.wrap(a.p[[2 * o + s[o] for s, o in STEPS]], (8,) + a.d[1:], a.kind)
    return a


def argsort(x, axis=-1, kind=None):
    _axis0(x, axis)
    to = order(x, kind)
    a = None
    if to[0] == "merged":
        np_ = _np()
        halves = [blocks()[i] for i in x.dom[1]]
        k = []
        for o, h in enumerate(halves):
            v = sym.ctx().var("row", frozenset((0, 1)), isint=True, kind="aux")
            sym.ctx().assume(sym.le(sym.add(v, 1), h))
            k.append(v)
        p = np.empty((8,) if x.lane is None else (8, 1), dtype=object)
        for j, (s, o) in enumerate(STEPS):
            p[j] = sym.add(sym.add(sym.mul(k[o], 2), s[o]), sym.mul(halves[0], 2) if o else 0)
        a = np_.wrap(p, p.shape, "i")
    return Rows(x.n, x.lane, to, a, perm=to)


def sort(x, axis=-1, kind=None):
    _axis0(x, axis)
    if x.asc and x.dom[0] != "cat":
        return x.copy()
    to = order(x, kind or "stable")  # equal values are the same in either order
    return Rows(x.n, x.lane, to, gathered(x, to), asc=True)


def sort_stacked(x, axis, kind):
    if x.dom[0] == "cat":
        r = argsort(x, axis, "stable")
        return gather(x, r)
    return sort(x, axis, kind)


def stack(xs, axis=0):
    np_ = _np()
    xs = list(xs)
    if axis != 0 or any(not isinstance(x, Rows) for x in xs) or len(xs) != 2 or any(x.dom[0] not in ("block", "const") for x in xs):
        raise Unsupported("stacking any number of rows")
    if xs[0].ndim != xs[1].ndim or xs[0].lane != xs[1].lane:
        raise Unsupported("stacking rows of different rays")
    ids = []
    for x in xs:
        if x.dom[0] == "const":  # an operand of as many rows
            f = [i for i, h in enumerate(blocks()) if _same(sym.mul(h, 2), x.n)]
            if len(f) != 1:
                raise Unsupported("stacking constant rows")
            ids.append(f[0])
        else:
            ids.append(x.dom[1])
    if ids[0] == ids[1]:
        raise Unsupported("stacking rows of one operand")
    t = []
    for x in xs:
        a = x.spread()
        if a.d[0] == 1:
            a = np_.concatenate((a, a))
        t.append(a)
    return Rows(sym.add(xs[0].n, xs[1].n), xs[0].lane, ("cat", tuple(ids)), np_.concatenate(t), asc=all(x.asc for x in xs))


def states(x, when):
    """value per state if the rows are a function of the state before (0) or after (1) them"""
    if x.dom[0] == "const":
        return {s: x.values().p[0] for s in STATES}
    if x.dom[0] != "merged":
        raise Unsupported("neighbouring rows")
    r = {}
    for j, (s, o) in enumerate(STEPS):
        at = after(s, o) if when else s
        v = x.values().p[j]
        if at in r and not _eq(r[at], v):
            raise Unsupported("neighbouring rows")
        r[at] = v
    return r


def _eq(u, v):
    return all(_np().bkey(a) == _np().bkey(b) for a, b in zip(np.asarray(u, dtype=object).reshape(-1), np.asarray(v, dtype=object).reshape(-1)))


def moved(x, by):
    """value of the row before (by = 1) or behind (-1); around the ends, the state there is the same"""
    np_ = _np()
    if by not in (1, -1):
        raise Unsupported("rows further apart")
    f = states(x, by == 1)
    if x.dom[0] == "const":
        return x
    p = np.empty(x.values().p.shape, dtype=object)
    for j, (s, o) in enumerate(STEPS):
        p[j] = f[s if by == 1 else after(s, o)]
    return x._like(np_.wrap(p, x.values().d, x.kind))


def roll(x, shift, axis=None):
    _axis0(x, axis)
    return moved(x, int(shift))


def diff(x, n=1, axis=-1, prepend=None, append=None):
    np_ = _np()
    _axis0(x, axis)
    if n != 1 or (prepend is None) == (append is None):
        raise Unsupported("diff of any number of rows")
    edge = np_.asarr(prepend if append is None else append)
    by = 1 if append is None else -1
    f = states(x, by == 1)[0, 0]
    if edge.size != 1 or not all(_eq(v, edge.p.reshape(-1)[0]) for v in np.asarray(f, dtype=object).reshape(-1)):
        raise Unsupported("diff of any number of rows")
    m = moved(x, by)
    return lift(np_.UF["subtract"], x, m) if by == 1 else lift(np_.UF["subtract"], m, x)


def cumsum(x, axis=None, dtype=None):
    np_ = _np()
    _axis0(x, axis)
    if x.dom[0] != "merged":
        raise Unsupported("running sum")
    a = x.values()
    if a.kind == "b":
        a = a.astype(int)
    cols = {}
    for j, st in enumerate(STEPS):
        col = np.frompyfunc(sym.num, 1, 1)(a.p[j:j + 1].reshape(-1))
        v = col[0]
        if any(np_.bkey(w) != np_.bkey(v) for w in col) or isinstance(v, (B, SReal)) or v != v:
            raise Unsupported("running sum of values that are not known")
        cols[st] = v
    d = lambda s, o: cols[s, o]
    gain = [d((0, 0), 0) + d((1, 0), 0), d((0, 0), 1) + d((0, 1), 1)]  # of two rows of one operand
    if d((0, 1), 0) + d((1, 1), 0) != gain[0] or d((1, 0), 1) + d((1, 1), 1) != gain[1] \
            or d((0, 0), 0) + d((1, 0), 1) != d((0, 0), 1) + d((0, 1), 0) or d((1, 0), 0) + d((0, 0), 1) != d((1, 0), 1) + d((1, 1), 0):
        raise Unsupported("running sum that depends on the order of the rows")
    at = {(0, 0): 0, (1, 0): d((0, 0), 0), (0, 1): d((0, 0), 1)}
    at[1, 1] = at[1, 0] + d((1, 0), 1)
    c = sym.ctx()
    pairs = {}
    def seen(o, of):
        """pairs of rows of operand o read before a row of operand `of`"""
        if (o, of) not in pairs:
            v = pairs[o, of] = c.var("pairs", frozenset((0, 1)), isint=True, kind="aux")
            c.assume(sym.le(sym.add(v, int(o == of)), blocks()[x.dom[1][1][o]]))
        return pairs[o, of]
    p = np.empty((8,) if x.lane is None else (8, 1), dtype=object)
    for j, (s, o) in enumerate(STEPS):
        v = at[after(s, o)]
        for k in (0, 1):
            if gain[k]:
                n = seen(k, o)
                if k == o and s[k]:
                    n = sym.add(n, 1)
                v = sym.add(v, sym.mul(n, gain[k]))
        p[j] = v
    return Rows(x.n, x.lane, x.dom, np_.wrap(p, p.shape, a.kind))


def take_along(x, idx, axis):
    _axis0(x, axis)
    if not isinstance(idx, Rows) or not idx.perm or not isinstance(x, Rows):
        raise Unsupported("take_along_axis of any number of rows")
    return gather(x, idx)


def constant(n, rest, v, dtype=None):
    np_ = _np()
    a = np_.full((1,) + (1,) * len(rest), v, dtype)
    if len(rest) > 1:
        raise Unsupported("any number of rows in three dimensions")
    return Rows(n, np_.pdim(rest[0])[1] if rest else None, ("const", None), a, asc=True)


def row_shape(shape):
    """shape of any number of rows, if it is one"""
    np_ = _np()
    if isinstance(shape, SReal):
        shape = (shape,)
    if not isinstance(shape, (tuple, list)) or not shape or not isinstance(shape[0], SReal) or isinstance(shape[0], np_.LaneDim):
        return None
    hs = blocks()
    sums = [sym.mul(h, 2) for h in hs] + [sym.mul(sym.add(a, b), 2) for a, b in itertools.combinations(hs, 2)]
    return tuple(shape) if any(shape[0].p == sym.poly(s) for s in sums) else None


def _op(u, swap):
    return (lambda s, o: NotImplemented if o is None or isinstance(o, str) else u(o, s)) if swap else \
           (lambda s, o: NotImplemented if o is None or isinstance(o, str) else u(s, o))


def _iop(u):
    def f(s, o):
        r = u(s, o)
        s.dom, s.a, s.asc, s.perm = r.dom, r.a, False, None
        return s
    return f


def install(np_):
    """route calls with such arrays here"""
    g = vars(np_)
    for op, n in [("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("floordiv", "floor_divide"), ("mod", "remainder"),
                  ("pow", "power"), ("and", "bitwise_and"), ("or", "bitwise_or"), ("xor", "bitwise_xor")]:
        setattr(Rows, "__%s__" % op, _op(np_.UF[n], False))
        setattr(Rows, "__r%s__" % op, _op(np_.UF[n], True))
        setattr(Rows, "__i%s__" % op, _iop(np_.UF[n]))
    for op, n in [("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")]:
        setattr(Rows, "__%s__" % op, _op(np_.UF[n], False))
    Rows.__hash__ = None
    Rows.__neg__ = lambda s: np_.UF["negative"](s)
    Rows.__invert__ = lambda s: np_.UF["invert"](s)
    Rows.__abs__ = lambda s: np_.UF["absolute"](s)

    def holds(args):
        return any(isinstance(x, Rows) or (isinstance(x, (tuple, list)) and any(isinstance(y, Rows) for y in x)) for x in args)

    def route(name, f):
        old = g[name]
        def call(*a, **k):
            if blocks_in_use() and (holds(a) or holds(k.values())):
                return f(*a, **k)
            return old(*a, **k)
        call.__name__ = name
        g[name] = call

    def blocks_in_use():
        return sym.CTX is not None and getattr(sym.CTX, "row_blocks", None)

    def make(name, default):
        old = g[name]
        def call(shape, *a, **k):
            rs = row_shape(shape) if blocks_in_use() else None
            if rs is None:
                return old(shape, *a, **k)
            if name == "full":
                return constant(rs[0], rs[1:], *a, **{x: y for x, y in k.items() if x != "order"})
            return constant(rs[0], rs[1:], default, *a, **{x: y for x, y in k.items() if x != "order"})
        call.__name__ = name
        g[name] = call

    old = g["where"]
    for n, v in (("full", None), ("zeros", F(0)), ("ones", F(1))):
        make(n, v)
    route("where", lambda c, *ab: lift(old, c, *ab) if len(ab) == 2 else Rows._no(None))
    route("vstack", lambda xs: stack(xs))
    route("concatenate", lambda xs, axis=0: stack(xs, axis))
    route("argsort", lambda a, axis=-1, kind=None: argsort(a, axis, kind))
    route("sort", lambda a, axis=-1, kind=None: sort_stacked(a, axis, kind))
    route("cumsum", cumsum)
    route("roll", roll)
    route("diff", diff)
    route("take_along_axis", take_along)
    route("copy", lambda a: a.copy())
    route("array", lambda a, dtype=None, copy=True, **k: a.copy() if dtype is None and isinstance(a, Rows) else a.astype(dtype))
    route("asarray", lambda a, dtype=None: a if dtype is None else a.astype(dtype))
    route("asanyarray", lambda a, dtype=None: a if dtype is None else a.astype(dtype))
    route("atleast_1d", lambda a: a)
    route("atleast_2d", lambda a: a if a.ndim == 2 else Rows._no(None))
    for n, v in (("zeros_like", 0), ("ones_like", 1)):
        route(n, (lambda v: lambda a, dtype=None: a._like(np_.full((1,) * a.ndim, v, dtype) if dtype is not None else np_.full((1,) * a.ndim, {"f": F(v), "b": bool(v)}.get(a.kind, v)), asc=True))(v))
    route("full_like", lambda a, v, dtype=None: constant(a.n, a.shape[1:], v, dtype))
