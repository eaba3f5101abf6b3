"""Symbolic scalars for the verification-condition generator.

Values that flow through the real code under symbolic evaluation are
  * Fraction / int / bool            exact concrete numbers
  * float inf, -inf, nan             extended reals (kinds are always concrete on a path)
  * SReal                            a symbolic real: a Laurent polynomial over atoms, kept in normal form
  * B                                a symbolic condition; bool(B) forks the path
Machine floats are treated as mathematical reals (a recorded assumption)."""
import math
from fractions import Fraction as F
import numpy as np


class Unsupported(Exception):
    """the evaluator cannot follow the code here: the obligation is undecided (never a violation)"""


class Infeasible(Exception):
    """this path contradicts its assumptions"""


class Budget(Exception):
    pass


CTX = None  # current path context


def ctx():
    if CTX is None:
        raise Unsupported("no active path")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- polynomials
# mono = tuple of (atom id, exponent != 0) sorted by id;  poly = dict mono -> Fraction (no zeros)
ONE = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + (c if k == 1 else k * c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


MAXTERMS = 20000


def p_mul(p, q, rules=None):
    r = {}
    if len(p) * len(q) > 400000:
        raise Unsupported("polynomial too large")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if rules:
        r = p_reduce(r, rules)
    return r


def p_reduce(p, rules):
    """apply atom**2 -> poly for atoms in rules"""
    while True:
        hit = None
        for m in p:
            for a, e in m:
                if e >= 2 and a in rules:
                    hit = a
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        keep, acc = {}, {}
        for m, c in p.items():
            e = dict(m).get(hit, 0)
            if e >= 2:
                rest = tuple(x for x in m if x[0] != hit)
                if e % 2:
                    rest = mono_mul(rest, ((hit, 1),))
                acc.setdefault(e // 2, {})
                acc[e // 2][rest] = acc[e // 2].get(rest, 0) + c
            else:
                keep[m] = c
        base = rules[hit]
        for k, t in acc.items():
            bp = {ONE: F(1)}
            for _ in range(k):
                bp = p_mul(bp, base)
            keep = p_add(keep, p_mul(t, bp))
        p = keep


def p_subst(p, a, q):
    """replace atom a (non-negative exponents only) by poly q"""
    by = {}
    for m, c in p.items():
        e = 0
        for x, k in m:
            if x == a:
                e = k
        rest = m if e == 0 else tuple(x for x in m if x[0] != a)
        by.setdefault(e, {})
        by[e][rest] = by[e].get(rest, 0) + c
    if not by or set(by) == {0}:
        return p
    assert min(by) >= 0
    r = by.pop(0, {})
    pw = {ONE: F(1)}
    k = 0
    for e in sorted(by):
        while k < e:
            pw = p_mul(pw, q)
            k += 1
        r = p_add(r, p_mul(by[e], pw))
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def p_atoms(p):
    return {a for m in p for a, _ in m}


def p_const(p):
    """constant value or None"""
    if not p:
        return F(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


# ---------------------------------------------------------------- scalars
class SReal:
    __slots__ = ("p",)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    # arithmetic
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __pow__(s, o): return power(s, o)
    def __rpow__(s, o): return power(o, s)
    def __abs__(s): return absolute(s)
    def __floordiv__(s, o): return floor_(div(s, o))
    def __mod__(s, o): return sub(s, mul(o, floor_(div(s, o))))
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __eq__(s, o): return eq(s, o)
    def __ne__(s, o): return not_(eq(s, o))
    __hash__ = None
    def __bool__(s): return bool(not_(eq(s, 0)))
    def conjugate(s): return s
    @property
    def real(s): return s
    def __float__(s): raise Unsupported("float() of a symbolic value")
    def __int__(s): raise Unsupported("int() of a symbolic value")
    def __index__(s): raise Unsupported("a symbolic value used as an index")
    def __round__(s, *a): raise Unsupported("round() of a symbolic value")
    def __repr__(s):
        try:
            return p_str(s.p)
        except Exception:
            return "SReal(%d terms)" % len(s.p)
    def __copy__(s): return s
    def __deepcopy__(s, m): return s
    # things numpy scalars have
    ndim = 0
    shape = ()
    def item(s): return s
    def copy(s): return s
    def astype(s, t):
        return s if t in (float,) else trunc_(s)


def p_str(p, atoms=None):
    c = CTX
    out = []
    for m, k in sorted(p.items(), key=lambda t: str(t[0])):
        s = "*".join((c.atoms[a].name if c and a < len(c.atoms) else "a%d" % a) + ("" if e == 1 else "^%d" % e) for a, e in m)
        out.append((str(k) + ("*" + s if s else "")) if (k != 1 or not s) else s)
    t = " + ".join(out) or "0"
    return t if len(t) < 300 else t[:300] + "..."


def mk(p):
    c = p_const(p)
    return SReal(p) if c is None else c


NUM = (int, F, bool)


def num(x):
    """normalise a scalar: finite floats become exact rationals (their decimal literal)"""
    t = type(x)
    if t is F or t is SReal or t is int or t is bool or t is B:
        return x
    if t is Lazy:
        return x.force()
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isfinite(x):
            return F(repr(x))
        return x
    if isinstance(x, SReal) or isinstance(x, B):
        return x
    if isinstance(x, Uninit):
        return x
    raise Unsupported("cannot use %r as a scalar" % (type(x),))


class Lazy:
    """an undecided choice between two values; decided (the path forks) when it is first used"""
    __slots__ = ("c", "a", "b", "v", "mag")

    def __init__(self, c, a, b, mag=None):
        self.c, self.a, self.b, self.v, self.mag = c, a, b, None, mag

    def force(self):
        if self.v is None:
            self.v = num(self.a() if self.c is None else self.a if bool(self.c) else self.b)
        return self.v

    def __bool__(s): return bool(truth(s))
    def __float__(s): return float(s.force())
    def __int__(s): return int(s.force())
    def __hash__(s): return hash(s.force())
    def __abs__(s): return absolute(s)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __add__(s, o): return s.force() + o
    def __radd__(s, o): return o + s.force()
    def __sub__(s, o): return s.force() - o
    def __rsub__(s, o): return o - s.force()
    def __mul__(s, o): return s.force() * o
    def __rmul__(s, o): return o * s.force()
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(o, s)
    def __pow__(s, o): return power(s, o)
    def __rpow__(s, o): return power(o, s)
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __eq__(s, o): return eq(s, o)
    def __ne__(s, o): return not_(eq(s, o))
    def __and__(s, o): return and_(s, truth(o))
    def __or__(s, o): return or_(s, truth(o))
    def __invert__(s): return not_(s)
    def __repr__(s): return "Lazy"
    def __copy__(s): return s
    def __deepcopy__(s, m): return s
    ndim = 0
    shape = ()
    def item(s): return s.force()
    def copy(s): return s
    def astype(s, t): return s if t is float else s.force().astype(t)


def later(f):
    """a value worked out (and whatever has to be decided for it) only when it is first used"""
    return Lazy(None, f, None)


def pending(x): return type(x) is Lazy and x.v is None


class Uninit:
    """contents of np.empty before they are written"""
    __slots__ = ()
    def _no(self, *a): raise Unsupported("uninitialised array element used")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __bool__ = __abs__ = _no


UNINIT = Uninit()


def poly(x):
    x = num(x)
    if isinstance(x, SReal):
        return x.p
    if isinstance(x, B):
        return {ONE: F(1)} if bool(x) else {}
    if isinstance(x, NUM):
        x = F(x)
        return {ONE: x} if x else {}
    raise Unsupported("not a finite number: %r" % (x,))


def isinf(x):
    return isinstance(x, float)


def val(x):
    """numeric value for arithmetic: symbolic booleans are forked to 0/1"""
    x = num(x)
    if isinstance(x, B):
        return 1 if bool(x) else 0
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Uninit):
        raise Unsupported("uninitialised array element used")
    return x


def add(a, b):
    a, b = val(a), val(b)
    if isinf(a) or isinf(b):
        if isinf(a) and isinf(b):
            return a + b
        return a if isinf(a) else b
    if isinstance(a, SReal) or isinstance(b, SReal):
        return mk(p_add(poly(a), poly(b)))
    return a + b


def neg(a):
    a = val(a)
    if isinstance(a, SReal):
        return SReal(p_scale(a.p, -1))
    return -a


def sub(a, b):
    a, b = val(a), val(b)
    if isinf(a) or isinf(b):
        return add(a, neg(b))
    if isinstance(a, SReal) or isinstance(b, SReal):
        return mk(p_add(poly(a), poly(b), -1))
    return a - b


def sign(x):
    """-1, 0, 1 (forks)"""
    x = val(x)
    if isinstance(x, float):
        if math.isnan(x):
            raise Unsupported("sign of nan")
        return 1 if x > 0 else -1
    if isinstance(x, NUM):
        return (x > 0) - (x < 0)
    if bool(eq(x, 0)):
        return 0
    return 1 if bool(lt(0, x)) else -1


def mul(a, b):
    a, b = val(a), val(b)
    if isinf(a) or isinf(b):
        if isinf(a) and isinf(b):
            return a * b
        v, x = (a, b) if isinf(a) else (b, a)
        if math.isnan(v):
            return v
        s = sign(x)
        return math.nan if s == 0 else v * s
    if isinstance(a, SReal) or isinstance(b, SReal):
        return mk(p_mul(poly(a), poly(b), ctx().sqrules))
    return a * b


def div(a, b):
    if pending(a) or pending(b):
        return later(lambda: div_(a, b))
    a, b = val(a), val(b)
    if isinstance(b, SReal) and ctx().known(eq(b, 0)) is None:
        return later(lambda: div_(a, b))
    return div_(a, b)


def div_(a, b):
    a, b = val(a), val(b)
    if isinf(b):
        if math.isnan(b) or isinf(a):
            return math.nan
        return F(0)
    if isinf(a):
        if math.isnan(a):
            return a
        s = sign(b)
        return a * (s if s else 1)
    if not isinstance(b, SReal):
        if b == 0:
            s = sign(a)
            return math.nan if s == 0 else s * math.inf
        if isinstance(a, SReal):
            return mk(p_scale(a.p, 1 / F(b)))
        return F(a) / F(b)
    if bool(eq(b, 0)):
        s = sign(a)
        return math.nan if s == 0 else s * math.inf
    return mk(p_mul(poly(a), ctx().inverse(b.p), ctx().sqrules))


def power(a, b):
    a, b = val(a), val(b)
    if isinstance(b, F) and b.denominator == 1:
        b = int(b)
    if isinstance(b, int):
        if isinf(a):
            return a ** b
        if b < 0:
            return div(1, power(a, -b))
        r = F(1) if b == 0 else a
        for _ in range(b - 1):
            r = mul(r, a)
        return r
    if b == F(1, 2):
        return sqrt(a)
    return ctx().pow_atom(a, b)


def absolute(a):
    a = val(a)
    if isinstance(a, SReal):
        c = ctx()
        if c.known(le(a, 0)) is True:
            return neg(a)
        if c.known(le(0, a)) is True:
            return a
        return Lazy(lt(a, 0), neg(a), a, a)
    return abs(a)


def _mag(x): return x.mag if type(x) is Lazy and x.v is None else None


def sqrt(a, nonneg=False):
    if pending(a):
        return later(lambda: sqrt_(a, nonneg))
    a = val(a)
    if isinstance(a, SReal) and not nonneg and ctx().known(lt(a, 0)) is None:
        return later(lambda: sqrt_(a, nonneg))
    return sqrt_(a, nonneg)


def sqrt_(a, nonneg=False):
    a = val(a)
    if isinstance(a, float):
        return math.nan if not a > 0 else a
    if isinstance(a, NUM):
        if a < 0:
            return math.nan
        a = F(a)
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return F(n, d)
        return ctx().sqrt_atom({ONE: a})
    c = ctx()
    if len(a.p) < 400:
        for k in (0, 1):
            if c.ring_zero(p_add(a.p, {ONE: F(k)}, -1) if k else dict(a.p)):
                return F(k)
    for r in c.roots:
        if c.ring_zero(p_add(a.p, p_mul(r, r, c.sqrules), -1)):
            return absolute(SReal(r))
    if not nonneg and bool(lt(a, 0)):
        return math.nan
    return c.sqrt_atom(a.p)


def cos(a): return ctx().trig(val(a))[0]
def sin(a): return ctx().trig(val(a))[1]
def tan(a):
    c, s = ctx().trig(val(a))
    return div(s, c)
def arccos(a): return ctx().acos_atom(val(a))
def arcsin(a): return sub(div(ctx().pi(), 2), ctx().acos_atom(val(a)))


def floor_(a):
    a = val(a)
    if isinstance(a, SReal):
        return ctx().floor_atom(a)
    if isinf(a):
        return a
    return math.floor(a)


def trunc_(a):
    a = val(a)
    if isinstance(a, SReal):
        return floor_(a) if bool(le(0, a)) else neg(floor_(neg(a)))
    if isinf(a):
        raise Unsupported("int of a non-finite value")
    return math.trunc(a)


def smax(a, b):
    """np.maximum: nan wins"""
    a, b = val(a), val(b)
    for v in (a, b):
        if isinf(v) and math.isnan(v):
            return v
    if isinf(a) or isinf(b) or not (isinstance(a, SReal) or isinstance(b, SReal)):
        return a if _ext_ge(a, b) else b
    c = ctx()
    if c.merge:
        return c.minmax([a, b], 1)
    return b if bool(lt(a, b)) else a


def smin(a, b):
    a, b = val(a), val(b)
    for v in (a, b):
        if isinf(v) and math.isnan(v):
            return v
    if isinf(a) or isinf(b) or not (isinstance(a, SReal) or isinstance(b, SReal)):
        return a if _ext_ge(b, a) else b
    c = ctx()
    if c.merge:
        return c.minmax([a, b], -1)
    return b if bool(lt(b, a)) else a


def _ext_ge(a, b):
    r = le(b, a)
    return r if isinstance(r, bool) else bool(r)


# ---------------------------------------------------------------- conditions
class B:
    """symbolic condition.  k: 'lt','le','eq' (poly rel 0), 'and','or','not','nd' (free boolean)"""
    __slots__ = ("k", "a", "_key")
    __array_priority__ = 1000

    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._key = None

    def key(self):
        if self._key is None:
            if self.k in ("lt", "le", "eq"):
                self._key = (self.k, p_key(self.a))
            elif self.k == "nd":
                self._key = ("nd", self.a)
            else:
                self._key = (self.k, tuple(x.key() for x in self.a))
        return self._key

    def __bool__(self): return ctx().decide(self)
    def __and__(s, o): return and_(s, truth(o))
    __rand__ = __and__
    def __or__(s, o): return or_(s, truth(o))
    __ror__ = __or__
    def __invert__(s): return not_(s)
    def __xor__(s, o): return xor_(s, truth(o))
    __rxor__ = __xor__
    # arithmetic use: 0/1
    def __add__(s, o): return add(s, o)
    __radd__ = __add__
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    __rmul__ = __mul__
    def __neg__(s): return neg(s)
    def __eq__(s, o):
        o = num(o)
        if isinstance(o, B) or isinstance(o, bool):
            return iff_(s, o)
        if isinstance(o, int) and o in (0, 1):
            return s if o == 1 else not_(s)
        return eq(val(s), o)
    def __ne__(s, o): return not_(s.__eq__(o))
    def __lt__(s, o): return lt(val(s), o)
    def __gt__(s, o): return lt(o, val(s))
    def __le__(s, o): return le(val(s), o)
    def __ge__(s, o): return le(o, val(s))
    __hash__ = None
    def __repr__(self):
        if self.k in ("lt", "le", "eq"):
            return "(%s %s 0)" % (p_str(self.a), {"lt": "<", "le": "<=", "eq": "=="}[self.k])
        if self.k == "nd":
            return "nd%s" % (self.a,)
        return "%s(%s)" % (self.k, ", ".join(map(repr, self.a)))


def lit(k, p):
    c = p_const(p)
    if c is not None:
        return c < 0 if k == "lt" else c <= 0 if k == "le" else c == 0
    return B(k, p)


def _bcmp(a, b):
    a = val(a) if not isinstance(a, (B,)) else val(a)
    return a, val(b)


def lt(a, b):
    m = _mag(b)
    if m is not None and _mag(a) is None:
        a = val(a)
        return or_(lt(a, m), lt(a, neg(m)))
    m = _mag(a)
    if m is not None and _mag(b) is None:
        b = val(b)
        return and_(lt(m, b), lt(neg(m), b))
    a, b = _bcmp(a, b)
    if isinf(a) or isinf(b):
        if isinf(a) and isinf(b):
            return a < b
        if isinf(a):
            return a < 0
        return b > 0
    if isinstance(a, SReal) or isinstance(b, SReal):
        return lit("lt", p_add(poly(a), poly(b), -1))
    return a < b


def le(a, b):
    m = _mag(b)
    if m is not None and _mag(a) is None:
        a = val(a)
        return or_(le(a, m), le(a, neg(m)))
    m = _mag(a)
    if m is not None and _mag(b) is None:
        b = val(b)
        return and_(le(m, b), le(neg(m), b))
    a, b = _bcmp(a, b)
    if isinf(a) or isinf(b):
        if isinf(a) and isinf(b):
            return a <= b
        if isinf(a):
            return a < 0
        return b > 0
    if isinstance(a, SReal) or isinstance(b, SReal):
        return lit("le", p_add(poly(a), poly(b), -1))
    return a <= b


def eq(a, b):
    if isinstance(a, B) and isinstance(b, (B, bool)) or isinstance(b, B) and isinstance(a, bool):
        return iff_(a, b)
    a, b = _bcmp(a, b)
    if isinf(a) or isinf(b):
        return isinf(a) and isinf(b) and a == b
    if isinstance(a, SReal) or isinstance(b, SReal):
        return lit("eq", p_add(poly(a), poly(b), -1))
    return a == b


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def ne(a, b): return not_(eq(a, b))


def truth(x):
    x = num(x)
    if isinstance(x, (B, bool)):
        return x
    if isinstance(x, float):
        return True
    if isinstance(x, SReal):
        return not_(eq(x, 0))
    return bool(x)


def not_(x):
    x = truth(x)
    if isinstance(x, bool):
        return not x
    if x.k == "not":
        return x.a[0]
    if x.k == "lt":
        return B("le", p_scale(x.a, -1))
    if x.k == "le":
        return B("lt", p_scale(x.a, -1))
    return B("not", (x,))


def and_(*xs):
    out = []
    for x in xs:
        x = truth(x)
        if isinstance(x, bool):
            if not x:
                return False
        elif x.k == "and":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else B("and", tuple(out))


def or_(*xs):
    out = []
    for x in xs:
        x = truth(x)
        if isinstance(x, bool):
            if x:
                return True
        elif x.k == "or":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else B("or", tuple(out))


def implies_(a, b): return or_(not_(a), b)
def iff_(a, b): return and_(implies_(a, b), implies_(b, a))
def xor_(a, b): return not_(iff_(a, b))


def select(c, a, b):
    """np.where on one element"""
    c = truth(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    k = ctx().known(c)
    if k is not None:
        return a if k else b
    if type(a) is not Lazy and type(b) is not Lazy and same(a, b):
        return a
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return or_(and_(c, a), and_(not_(c), b))
    return Lazy(c, a, b)


def same(a, b):
    a, b = num(a), num(b)
    if isinstance(a, SReal) and isinstance(b, SReal):
        return a.p == b.p
    if isinstance(a, B) or isinstance(b, B):
        return isinstance(a, B) and isinstance(b, B) and a.key() == b.key()
    if isinstance(a, SReal) or isinstance(b, SReal):
        return False
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        return a is b
    if isinf(a) and isinf(b):
        return a == b or (a != a and b != b)
    if isinf(a) != isinf(b) or type(a) is bool and type(b) is not bool:
        return False
    return a == b


def _defer(cls):
    """scalar op array is the array's business"""
    for n in ("add", "sub", "mul", "truediv", "pow", "floordiv", "mod", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "xor"):
        f = cls.__dict__.get("__%s__" % n)
        if f is None:
            continue

        def g(s, o, f=f):
            if hasattr(type(o), "__vc_array__") or hasattr(type(o), "_vc_frame"):
                return NotImplemented
            return f(s, o)
        setattr(cls, "__%s__" % n, g)


for _c in (SReal, B, Lazy):
    _defer(_c)
