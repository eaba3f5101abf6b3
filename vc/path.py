"""Path contexts: atoms, facts, forking, feasibility and the prover portfolio."""
import math, os, subprocess, time, random
from fractions import Fraction as F
import numpy as np
import z3
from . import sym
from .sym import (SReal, B, ONE, Unsupported, Infeasible, p_add, p_mul, p_scale, p_subst, p_key, p_const, p_atoms,
                  p_reduce, mono_mul, mk, lit)

ALL = frozenset((-1, 0, 1))
NEG, ZERO, POS = frozenset((-1,)), frozenset((0,)), frozenset((1,))
NSAMP = 96


class Atom:
    __slots__ = ("name", "kind", "d", "sgn", "samp", "isint", "z", "origin")

    def __init__(self, name, kind, d=None, sgn=ALL, isint=False):
        self.name, self.kind, self.d, self.sgn, self.isint = name, kind, d, sgn, isint
        self.samp = None
        self.z = None
        self.origin = None


SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0]


class Ctx:
    def __init__(self, prefix=(), seed=0, merge=False, check_ms=200, deadline=None):
        self.prefix = list(prefix)
        self.trail = []          # decisions taken: list of (bool, alternative_possible)
        self.atoms = []
        self.names = {}
        self.sqrules = {}
        self.signs = {}
        self.facts = []          # path facts (B literals / formulas)
        self.keyed = {}          # key -> bool for non-literal decisions
        self.memo = {}
        self.lins = {}           # linear substitutions atom -> poly
        self.bounds = {}         # key of a polynomial without constant -> interval
        self.merge = merge
        self.check_ms = check_ms
        self.rng = np.random.RandomState(seed)
        self.alive = np.ones(NSAMP, bool)
        self._solver = None
        self._nasserted = 0
        self.deadline = deadline
        self.inputs = []         # (name, atom ids...) for replay
        self.solver_s = 0.0
        self.nchecks = 0
        self.nd = 0
        self.havoc = False       # True once a fact-free nondeterministic choice was made
        self.assumed = []
        self.choices = []
        self.roots = []
        self._lra = None
        self.forked = []         # conditions the path was split on
        self.of_lane = {}        # lane -> atoms that differ from lane to lane
        self.light = False       # feasibility by linear reasoning only

    # ------------------------------------------------------------ atoms
    def atom(self, name, kind="in", d=None, sgn=ALL, isint=False, samp=None):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        a = Atom(name if n == 0 else "%s'%d" % (name, n), kind, d, sgn, isint)
        self.atoms.append(a)
        a.samp = samp
        return len(self.atoms) - 1

    def var(self, name, sgn=ALL, isint=False, samp=None, kind="in"):
        if samp is None:
            samp = self.sample_values(sgn, isint)
        i = self.atom(name, kind, None, sgn, isint, samp)
        return SReal({((i, 1),): F(1)})

    def sample_values(self, sgn=ALL, isint=False):
        v = self.rng.uniform(-3, 3, NSAMP)
        sp = self.rng.choice(SPECIAL, NSAMP)
        m = self.rng.rand(NSAMP) < 0.3
        v[m] = sp[m]
        if isint:
            v = np.round(v * 3)
        if sgn == POS:
            v = np.abs(v) + (1 if isint else 0)
            v[v == 0] = 0.7
        elif sgn == frozenset((0, 1)):
            v = np.abs(v)
        elif 0 not in sgn:
            v[v == 0] = 0.7
        return v

    def inverse(self, p):
        """Laurent polynomial for 1/p; p is known to be non-zero on this path"""
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        # common monomial factor (every factor of a non-zero p is non-zero)
        mins = None
        for m in p:
            d = dict(m)
            mins = d if mins is None else {a: min(mins.get(a, 0), d.get(a, 0)) for a in mins.keys() | d.keys()}
        f = tuple(sorted((a, e) for a, e in mins.items() if e))
        if f:
            u = {tuple((a, -e) for a, e in f): F(1)}
            return p_mul(u, self.inverse(p_mul(p, u, self.sqrules)), self.sqrules)
        k = max(p)
        c0 = p[k]
        q = p_scale(p, 1 / c0)
        a = self.def_atom(q)
        return {((a, -1),): 1 / c0}

    def def_atom(self, q, name="d"):
        key = ("def", p_key(q))
        if key not in self.memo:
            self.memo[key] = self.atom(name, "def", q)
        return self.memo[key]

    def sqrt_atom(self, p):
        # pull the square part out of the numeric content, so that sqrt(p) and sqrt(4p) share an atom
        num, den = 0, 1
        for v in p.values():
            num, den = math.gcd(num, v.numerator), den * v.denominator // math.gcd(den, v.denominator)
        k, out = num * den, F(1, den)
        if k > 1:
            for r in (2, 3, 5, 7, 11, 13):
                while k % (r * r) == 0:
                    k //= r * r
                    out *= r
            r = math.isqrt(k)
            if r * r == k:
                k, out = 1, out * r
        if out != 1:
            f = 1 / (out * out)
            i = self.sqrt_atom({m: v * f for m, v in p.items()})
            return SReal(p_scale(i.p, out))
        key = ("sqrt", p_key(p))
        if key not in self.memo:
            i = self.atom("s", "sqrt", p, frozenset((0, 1)) if p_const(p) is None else POS)
            self.memo[key] = i
            if all(e > 0 for m in p for _, e in m):
                self.sqrules[i] = p
        i = self.memo[key]
        return SReal({((i, 1),): F(1)})

    def pi(self):
        if "pi" not in self.memo:
            self.memo["pi"] = self.atom("pi", "pi", None, POS, samp=np.full(NSAMP, math.pi))
        return SReal({((self.memo["pi"], 1),): F(1)})

    def const_trig(self, q):
        """cos and sin of q*pi for rational q, or None"""
        q = q % 2
        k = q * 12
        if k.denominator != 1:
            return None
        k = int(k)
        if k % 2 and k % 3:
            return None

        def c(k):
            k %= 24
            if k > 12:
                k = 24 - k
            if k > 6:
                v = c(12 - k)
                return sym.neg(v)
            return {0: F(1), 2: sym.div(sym.sqrt(3), 2), 3: sym.div(sym.sqrt(2), 2), 4: F(1, 2), 6: F(0)}[k]
        return c(k), c(k - 6)

    def trig(self, x):
        p = sym.poly(x)
        if not p:
            return F(1), F(0)
        pik = ((self.memo["pi"], 1),) if "pi" in self.memo else None
        q = p.get(pik) if pik else None
        if q is not None and len(p) == 1:
            r = self.const_trig(q)
            if r:
                return r
        if q is not None and len(p) > 1 and (q * 2).denominator == 1:
            rest = mk({m: c for m, c in p.items() if m != pik})
            c, s = self.trig(rest)
            n = int(q * 2) % 4
            for _ in range(n):
                c, s = sym.neg(s), c
            return c, s
        if p[min(p)] < 0:
            c, s = self.trig(mk(p_scale(p, -1)))
            return c, sym.neg(s)
        key = ("trig", p_key(p))
        if key not in self.memo:
            ci = self.atom("cos", "cos", p)
            si = self.atom("sin", "sin", p)
            self.sqrules[si] = {ONE: F(1), ((ci, 2),): F(-1)}
            self.atoms[ci].origin = si
            self.atoms[si].origin = ci
            self.memo[key] = (SReal({((ci, 1),): F(1)}), SReal({((si, 1),): F(1)}))
        return self.memo[key]

    def acos_atom(self, x):
        if not isinstance(x, SReal):
            if x == 1:
                return F(0)
            if x == -1:
                return self.pi()
            if x == 0:
                return sym.div(self.pi(), 2)
        if bool(sym.or_(sym.lt(x, -1), sym.lt(1, x))):
            return math.nan
        key = ("acos", p_key(sym.poly(x)))
        if key not in self.memo:
            self.pi()
            i = self.atom("acos", "acos", sym.poly(x), frozenset((0, 1)))
            th = SReal({((i, 1),): F(1)})
            self.memo[key] = th
            self.memo[("trig", p_key(th.p))] = (x, sym.sqrt(sym.sub(1, sym.mul(x, x))))
            self.fact(sym.le(th, self.pi()))
        return self.memo[key]

    def pow_atom(self, a, b):
        key = ("pow", p_key(sym.poly(a)), p_key(sym.poly(b)))
        if bool(sym.lt(a, 0)):
            return math.nan
        if not bool(sym.lt(0, b)):
            raise Unsupported("power with a non-positive exponent")
        if bool(sym.eq(a, 0)):
            return F(0)
        if bool(sym.eq(a, 1)):
            return F(1)
        if key not in self.memo:
            # equal bases have equal powers
            mine = self.memo.setdefault(("pows", key[2]), [])
            for a2, r in mine:
                if self.known(sym.eq(a, a2)) is True:
                    return r
            i = self.atom("pow", "pow", (sym.poly(a), sym.poly(b)), POS)
            r = SReal({((i, 1),): F(1)})
            self.memo[key] = r
            mine.append((a, r))
            # monotone in the base: x**g < 1 for 0 < x < 1, > 1 for x > 1
            self.fact(sym.iff_(sym.lt(a, 1), sym.lt(r, 1)))
        return self.memo[key]

    def whole(self, x):
        """is known to be an integer from its form"""
        return all(k.denominator == 1 and all(e > 0 and self.atoms[a].isint for a, e in m) for m, k in x.p.items())

    def floor_atom(self, x):
        key = ("floor", p_key(x.p))
        if self.whole(x):
            return x
        whole = {m: k for m, k in x.p.items() if m and k.denominator == 1 and all(e > 0 and self.atoms[a].isint for a, e in m)}
        if whole and all(m in whole or m == sym.ONE for m in x.p):  # an integer and a constant
            k = math.floor(x.p.get(sym.ONE, 0))
            return SReal({**whole, sym.ONE: F(k)} if k else whole)
        if key not in self.memo:
            for l in getattr(self, "lanes", {}).values():
                if not l.pair and l.parent is None and self.known(sym.and_(sym.le(l.n, x), sym.lt(x, sym.add(l.n, 1)))) is True:
                    self.memo[key] = l.n
                    return l.n
            i = self.atom("floor", "floor", x.p, isint=True)
            n = SReal({((i, 1),): F(1)})
            self.memo[key] = n
            self.fact(sym.le(n, x))
            self.fact(sym.lt(x, sym.add(n, 1)))
        return self.memo[key]

    def minmax(self, xs, s):
        xs = list({p_key(sym.poly(x)): x for x in xs}.values())
        # leave out what another member is known to dominate
        i = 0
        while i < len(xs) and len(xs) > 1:
            for j in range(len(xs)):
                if j != i and self.known(sym.le(xs[i], xs[j]) if s > 0 else sym.le(xs[j], xs[i])) is True:
                    xs.pop(i)
                    break
            else:
                i += 1
        if len(xs) == 1:
            return xs[0]
        key = ("mm", s, tuple(sorted(p_key(sym.poly(x)) for x in xs)))
        if key not in self.memo:
            i = self.atom("max" if s > 0 else "min", "mm", ([sym.poly(x) for x in xs], s))
            m = SReal({((i, 1),): F(1)})
            self.memo[key] = m
            for x in xs:
                self.fact(sym.le(x, m) if s > 0 else sym.le(m, x))
            self.fact(sym.or_(*[sym.eq(m, x) for x in xs]))
        return self.memo[key]

    # ------------------------------------------------------------ samples
    def asamp(self, i):
        a = self.atoms[i]
        if a.samp is None:
            with np.errstate(all="ignore"):
                k = a.kind
                if k == "def":
                    v = self.psamp(a.d)
                elif k == "sqrt":
                    v = np.sqrt(np.maximum(0, self.psamp(a.d)))
                elif k == "cos":
                    v = np.cos(self.psamp(a.d))
                elif k == "sin":
                    v = np.sin(self.psamp(a.d))
                elif k == "acos":
                    v = np.arccos(np.clip(self.psamp(a.d), -1, 1))
                elif k == "pow":
                    v = np.maximum(self.psamp(a.d[0]), 0) ** self.psamp(a.d[1])
                elif k == "floor":
                    v = np.floor(self.psamp(a.d))
                elif k == "mm":
                    ps = [self.psamp(p) for p in a.d[0]]
                    v = np.max(ps, axis=0) if a.d[1] > 0 else np.min(ps, axis=0)
                else:
                    v = self.sample_values(a.sgn, a.isint)
            a.samp = v
        return a.samp

    def psamp(self, p):
        out = np.zeros(NSAMP)
        with np.errstate(all="ignore"):
            for m, c in p.items():
                t = np.full(NSAMP, float(c))
                for a, e in m:
                    s = self.asamp(a)
                    t = t * (s if e == 1 else s ** e)
                out += t
        return out

    def bsamp(self, b):
        """numeric truth of a formula on the samples (heuristic)"""
        if isinstance(b, bool):
            return np.full(NSAMP, b)
        if b.k == "lt":
            return self.psamp(b.a) < -1e-11
        if b.k == "le":
            return self.psamp(b.a) <= 1e-11
        if b.k == "eq":
            return np.abs(self.psamp(b.a)) <= 1e-11
        if b.k == "not":
            return ~self.bsamp(b.a[0])
        if b.k == "and":
            return np.all([self.bsamp(x) for x in b.a], axis=0)
        if b.k == "or":
            return np.any([self.bsamp(x) for x in b.a], axis=0)
        return np.zeros(NSAMP, bool)

    # ------------------------------------------------------------ signs and normal forms
    def asign(self, i):
        a = self.atoms[i]
        s = a.sgn
        k = p_key({((i, 1),): F(1)})
        if k in self.signs:
            s = s & self.signs[k]
        if a.kind in ("def", "sqrt") and len(s) > 1:
            d = self.sign_of(a.d)
            if a.kind == "def":
                s = s & d
            elif d == POS:
                s = s & POS
            elif d == ZERO:
                s = s & ZERO
            elif 0 not in d:
                s = s & POS
        return s or ALL

    def canon(self, p):
        """(q, sgn): p = sgn * positive * q with q free of negative exponents, normalised"""
        for a, q in self.lins.items():
            if any(x == a for m in p for x, _ in m):
                if all(e > 0 for m in p for x, e in m if x == a):
                    p = p_reduce(p_subst(p, a, q), self.sqrules)
        sg = 1
        # clear denominators / common factors
        while True:
            if not p:
                return p, 1
            mins = {}
            first = True
            for m in p:
                d = dict(m)
                if first:
                    mins = dict(d)
                    first = False
                else:
                    for a in list(mins):
                        mins[a] = min(mins[a], d.get(a, 0))
                    for a in d:
                        if a not in mins:
                            mins[a] = min(0, d[a])
            f = []
            for a, e in mins.items():
                if e == 0:
                    continue
                s = self.asign(a)
                if e < 0:
                    k = -e
                    if k % 2:
                        if s == NEG or s == frozenset((-1, 0)):
                            sg = -sg
                        elif not (s <= frozenset((0, 1))):
                            k += 1
                    f.append((a, k))
                else:
                    if 0 in s:
                        continue
                    if e % 2 and s == ALL - ZERO:
                        e -= 1
                    if e % 2 and s == NEG:
                        sg = -sg
                    if e:
                        f.append((a, -e))
            if not f:
                break
            p = p_reduce({mono_mul(m, tuple(sorted(f))): c for m, c in p.items()}, self.sqrules)
            if not any(e < 0 for m in p for _, e in m):
                break
        if not p:
            return p, 1
        c = p[max(p)]
        if c < 0:
            sg = -sg
        return p_scale(p, 1 / c), sg

    def quick_sign(self, p):
        pos = neg = False
        nonneg = nonpos = True
        for m, c in p.items():
            s = POS if c > 0 else NEG
            for a, e in m:
                t = self.asign(a)
                if e % 2 == 0:
                    t = POS if 0 not in t else (ZERO if t == ZERO else frozenset((0, 1)))
                s = frozenset(x * y for x in s for y in t)
            if -1 in s:
                nonneg = False
            if 1 in s:
                nonpos = False
            if s == POS:
                pos = True
            if s == NEG:
                neg = True
        if nonneg and nonpos:
            return ZERO
        if nonneg:
            return POS if pos else frozenset((0, 1))
        if nonpos:
            return NEG if neg else frozenset((-1, 0))
        return ALL

    def sign_of(self, p):
        """known sign set of p on this path (no solver)"""
        c = p_const(p)
        if c is not None:
            return POS if c > 0 else NEG if c < 0 else ZERO
        q, sg = self.canon(p)
        c = p_const(q)
        if c is not None:
            s = POS if c > 0 else NEG if c < 0 else ZERO
        else:
            s = self.signs.get(p_key(q), ALL)
            if len(s) > 1:
                s = (s & self.quick_sign(q)) or s
            if len(s) > 1:
                s = (s & self.interval_sign(q)) or s
            if len(s) > 1 and len(q) == 2:
                s = (s & self.compare_roots(q)) or s
            if len(s) > 1 and self.roots and len(q) < 300:
                for r in self.roots:
                    r2 = p_mul(r, r, self.sqrules)
                    for k in (1, -1):
                        if self.ring_zero(p_add(p, r2, -k)):
                            t = self.sign_of(r)
                            t = POS if 0 not in t else frozenset((0, 1))
                            return t if k > 0 else frozenset(-x for x in t)
        return s if sg > 0 else frozenset(-x for x in s)

    def compare_roots(self, q):
        """sign of u - v for nonnegative u and v containing square roots: that of u*u - v*v"""
        (m, c), (n, d) = q.items()
        if c < 0:
            (m, c), (n, d) = (n, d), (m, c)
        if not c > 0 > d or not any(self.atoms[a].kind == "sqrt" and e % 2 for a, e in m + n):
            return ALL
        for x in (m, n):
            if not self.quick_sign({x: F(1)}) <= frozenset((0, 1)):
                return ALL
        r = p_add(p_mul({m: c}, {m: c}, self.sqrules), p_mul({n: d}, {n: d}, self.sqrules), -1)
        if any(self.atoms[a].kind == "sqrt" and e % 2 for x in r for a, e in x) and len(r) == 2:
            return ALL
        return self.sign_of(r)

    def split_const(self, q):
        base = {m: v for m, v in q.items() if m != ONE}
        k = base[max(base)]
        return p_key(p_scale(base, 1 / k)), k, q.get(ONE, F(0))

    def interval_sign(self, q):
        """sign of k*base + c from the recorded interval of base"""
        key, k, c = self.split_const(q)
        iv = self.bounds.get(key)
        if iv is None:
            return ALL
        lo, los, hi, his = iv
        x = -c / k          # sign of k*(base - x)
        s = set(ALL)
        if lo is not None and (lo > x or (lo == x and los)):
            s -= {-1, 0}
        elif lo is not None and lo == x:
            s -= {-1}
        if hi is not None and (hi < x or (hi == x and his)):
            s -= {1, 0}
        elif hi is not None and hi == x:
            s -= {1}
        return frozenset(s if k > 0 else {-t for t in s})

    def note_bounds(self, q, t):
        key, k, c = self.split_const(q)
        x = -c / k
        if k < 0:
            t = frozenset(-v for v in t)
        lo, los, hi, his = self.bounds.get(key, (None, False, None, False))
        if -1 not in t:
            st = 0 not in t
            if lo is None or x > lo or (x == lo and st):
                lo, los = x, st
        if 1 not in t:
            st = 0 not in t
            if hi is None or x < hi or (x == hi and st):
                hi, his = x, st
        self.bounds[key] = (lo, los, hi, his)

    LIT = {"lt": NEG, "le": frozenset((-1, 0)), "eq": ZERO}

    def known(self, b):
        """True / False / None without forking"""
        if isinstance(b, bool):
            return b
        if b.k in self.LIT:
            s = self.sign_of(b.a)
            t = self.LIT[b.k]
            if s <= t:
                return True
            if not (s & t):
                return False
            return None
        if b.k == "not":
            r = self.known(b.a[0])
            return None if r is None else not r
        if b.k in ("and", "or"):
            stop = b.k == "or"
            rs = [self.known(x) for x in b.a]
            if stop in rs:
                return stop
            return None if None in rs else (not stop)
        return self.keyed.get(b.key())

    # ------------------------------------------------------------ deciding
    def decide(self, b):
        if isinstance(b, bool):
            return b
        r = self.known(b)
        if r is not None:
            return r
        if b.k == "not":
            return not self.decide(b.a[0])
        if b.k == "and":
            for x in b.a:
                if not self.decide(x):
                    return False
            return True
        if b.k == "or":
            for x in b.a:
                if self.decide(x):
                    return True
            return False
        if self.deadline and time.time() > self.deadline:
            raise sym.Budget("time budget exhausted")
        if b.k == "nd":
            r = self.fork(None, None)
            self.keyed[b.key()] = r
            return r
        r = self.fork(b, sym.not_(b))
        self.learn(b if r else sym.not_(b))
        return r

    def fork(self, bt, bf):
        k = len(self.trail)
        if bt is not None:
            self.forked.append(bt)
        if k < len(self.prefix):
            r = self.prefix[k]
            self.trail.append((r, False))
            return r
        if bt is None:
            ft = ff = True
        else:
            ft, ff = self.feasible(bt), self.feasible(bf)
            if not ft and not ff:
                raise Infeasible()
        r = ft
        self.trail.append((r, ft and ff))
        return r

    # ---- linear arithmetic over monomials: every monomial is an unknown of its own, with its sign
    def lra_mono(self, m):
        z = self._lmono.get(m)
        if z is None:
            z = z3.Real("m%d" % len(self._lmono))
            self._lmono[m] = z
            self.lra_msign(m, z)
        return z

    def lra_msign(self, m, z):
        s = self.quick_sign({m: F(1)})
        if s == ALL or self._lsign.get(m) == s:
            return
        self._lsign[m] = s
        f = {POS: z > 0, NEG: z < 0, ZERO: z == 0, frozenset((0, 1)): z >= 0, frozenset((-1, 0)): z <= 0}.get(s)
        if f is not None:
            self._lnew.append(f)

    def lra_lit(self, k, p):
        ts = [z3.RealVal(str(c)) if m == ONE else z3.RealVal(str(c)) * self.lra_mono(m) for m, c in p.items()]
        e = z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)
        return e == 0 if k == "eq" else e < 0 if k == "lt" else e <= 0

    def lra_b(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.k in self.LIT:
            e = self.lra_lit(b.k, b.a)
            if any(x < 0 for m in b.a for _, x in m):
                k = ("lnk", b.k, p_key(b.a))
                if k not in self._lsign:
                    self._lsign[k] = True
                    q, sg = self.canon_nolin(b.a)
                    self._lnew.append(e == self.lra_lit(b.k, q if sg > 0 else p_scale(q, -1)))
            return e
        if b.k == "not":
            return z3.Not(self.lra_b(b.a[0]))
        if b.k in ("and", "or"):
            return (z3.And if b.k == "and" else z3.Or)([self.lra_b(x) for x in b.a])
        if b.k == "nd":
            return z3.Bool("nd%s" % b.a)
        raise Unsupported(b.k)

    def lra_unsat(self, b, ms=300):
        """is b impossible on this path by linear reasoning over monomials?"""
        if self._lra is None:
            self._lra = z3.SolverFor("QF_LRA")
            self._lra.set("timeout", ms)
            self._lmono, self._lnew, self._lsign, self._lasserted = {}, [], {}, 0
        t = time.time()
        if self._lasserted < len(self.facts):
            for m, z in self._lmono.items():
                self.lra_msign(m, z)
        while self._lasserted < len(self.facts):
            self._lra.add(self.lra_b(self.facts[self._lasserted]))
            self._lasserted += 1
        e = self.lra_b(b)
        for f in self._lnew:
            self._lra.add(f)
        self._lnew.clear()
        self._lra.push()
        self._lra.add(e)
        r = self._lra.check()
        self._lra.pop()
        self.solver_s += time.time() - t
        return r == z3.unsat

    def lin_sign(self, p):
        """sign set of p: sign algebra, then linear reasoning"""
        s = self.sign_of(p)
        if len(s) > 1:
            out = set(s)
            if 1 in out and self.lra_unsat(B("lt", p_scale(p, -1))):
                out.discard(1)
            if -1 in out and self.lra_unsat(B("lt", p)):
                out.discard(-1)
            if 0 in out and len(out) > 1 and self.lra_unsat(B("eq", p)):
                out.discard(0)
            s = frozenset(out)
        return s

    def feasible(self, b):
        if np.any(self.alive & self.bsamp(b)):
            return True
        if self.lra_unsat(b):
            return False
        if self.light:
            return True
        s = self.solver()
        t = time.time()
        s.push()
        s.add(self.z(b))
        for f in self.def_facts(self.cone([b]) - self._zdef):
            s.add(f)
        r = s.check()
        s.pop()
        self.solver_s += time.time() - t
        self.nchecks += 1
        return r != z3.unsat

    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set("timeout", self.check_ms)
            self._nasserted = 0
            self._zdef = set()
        new = self.facts[self._nasserted:]
        while self._nasserted < len(self.facts):
            f = self.facts[self._nasserted]
            self._solver.add(self.z(f))
            self._nasserted += 1
        if new:
            ids = self.cone(new) - self._zdef
            for f in self.def_facts(ids):
                self._solver.add(f)
            for f in new:
                if not isinstance(f, bool) and f.k in self.LIT:
                    q = p_atoms(f.a)
                    if len(q) == 1:
                        for i in q & self._zdef:
                            e = self.sign_fact(i)
                            if e is not None:
                                self._solver.add(e)
            self._zdef |= ids
        return self._solver

    def learn(self, b):
        """add a decided condition to the path"""
        if isinstance(b, bool):
            if not b:
                raise Infeasible()
            return
        if b.k == "and":
            for x in b.a:
                self.learn(x)
            return
        if b.k in self.LIT:
            q, sg = self.canon(b.a)
            c = p_const(q)
            if c is None:
                t = self.LIT[b.k]
                if sg < 0:
                    t = frozenset(-x for x in t)
                key = p_key(q)
                n = self.signs.get(key, ALL) & t
                if not n:
                    raise Infeasible()
                self.signs[key] = n
                self.note_bounds(q, t)
                if n == ZERO:
                    self.linear_rule(q)
                    self.sum_of_squares(q)
        elif b.k == "not" and b.a[0].k == "eq":
            q, sg = self.canon(b.a[0].a)
            if p_const(q) is None:
                key = p_key(q)
                n = self.signs.get(key, ALL) & frozenset((-1, 1))
                if not n:
                    raise Infeasible()
                self.signs[key] = n
        elif b.k == "nd":
            self.keyed[b.key()] = True
            return
        else:
            self.keyed[b.key()] = True
        self.facts.append(b)
        self.alive &= self.bsamp(b)

    fact = learn

    def learn_implied(self, b):
        """a proved consequence of the path"""
        if isinstance(b, bool):
            if not b:
                raise Infeasible()
            return
        self.learn(b)

    def assume(self, b):
        r = self.known(b)
        if r is True:
            return
        if r is False:
            raise Infeasible()
        self.learn(b)

    def sum_of_squares(self, q):
        """q == 0 with every term of one sign: every term is zero"""
        if len(q) < 2 and sum(e for _, e in next(iter(q))) < 2:
            return
        ss = []
        for m, c in q.items():
            s = self.quick_sign({m: c})
            ss.append(s)
        if all(x <= frozenset((0, 1)) for x in ss) or all(x <= frozenset((0, -1)) for x in ss):
            for m in q:
                nz = [a for a, e in m if 0 in self.asign(a)]
                if len(nz) == 1:
                    self.learn(lit("eq", {((nz[0], 1),): F(1)}))

    def linear_rule(self, q):
        """q == 0 with q = c*x + rest, x an input atom not in rest: remember x -> -rest/c"""
        best = None
        for m, c in q.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if self.atoms[a].kind in ("in", "def", "mm", "sqrt", "floor", "acos", "cos", "sin", "pow") and \
                        not any(x == a for mm in q for x, _ in mm if mm != m):
                    if any(x == a for r in self.lins.values() for mm in r for x, _ in mm):
                        # keep lins triangular: substitute into existing rules below
                        pass
                    if best is None or a > best[0]:
                        best = (a, c, m)
        if best and self.atoms[best[0]].kind == "in":
            a, c, m = best
            rest = {mm: -cc / c for mm, cc in q.items() if mm != m}
            for k in list(self.lins):
                self.lins[k] = p_subst(self.lins[k], a, rest)
            self.lins[a] = rest
            # re-canonicalise known signs
            old = self.signs
            self.signs = {}
            for k, s in old.items():
                qq, sg = self.canon(dict(k))
                if p_const(qq) is None:
                    t = s if sg > 0 else frozenset(-x for x in s)
                    kk = p_key(qq)
                    self.signs[kk] = (self.signs.get(kk, ALL) & t) or t

    # ------------------------------------------------------------ z3
    def zatom(self, i):
        a = self.atoms[i]
        if a.z is None:
            n = "%s_%d" % (a.name.replace("'", "_"), i)
            a.z = z3.ToReal(z3.Int(n)) if a.isint else z3.Real(n)
        return a.z

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            t = z3.RealVal(str(c)) if c != 1 or not m else None
            for a, e in m:
                z = self.zatom(a)
                assert e > 0
                for _ in range(e):
                    t = z if t is None else t * z
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

    def z(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.k in self.LIT:
            q, sg = self.canon_nolin(b.a)
            e = self.zpoly(q)
            if b.k == "eq":
                return e == 0
            if sg > 0:
                return e < 0 if b.k == "lt" else e <= 0
            return e > 0 if b.k == "lt" else e >= 0
        if b.k == "not":
            return z3.Not(self.z(b.a[0]))
        if b.k == "and":
            return z3.And([self.z(x) for x in b.a])
        if b.k == "or":
            return z3.Or([self.z(x) for x in b.a])
        if b.k == "nd":
            return z3.Bool("nd%s" % b.a)
        raise Unsupported(b.k)

    def canon_nolin(self, p):
        l = self.lins
        self.lins = {}
        try:
            return self.canon(p)
        finally:
            self.lins = l

    def formula_atoms(self, b, out=None):
        out = set() if out is None else out
        if isinstance(b, bool):
            return out
        if b.k in self.LIT:
            out |= p_atoms(b.a)
        elif b.k != "nd":
            for x in b.a:
                self.formula_atoms(x, out)
        return out

    def atom_deps(self, i):
        a = self.atoms[i]
        if a.kind in ("def", "sqrt"):
            return p_atoms(a.d)
        if a.kind in ("cos", "sin"):
            return {a.origin}
        if i in self.sqrules:
            return p_atoms(self.sqrules[i])
        return set()

    def varies(self, i, pr):
        """may the atom differ between the lanes of an axis?"""
        a = self.atoms[i]
        if i in self.of_lane.get(pr, ()):
            return True
        if a.kind in ("in", "pi") and i not in self.sqrules:
            return False
        if a.kind in ("def", "sqrt", "cos", "sin") or a.kind == "in":
            return any(self.varies(j, pr) for j in self.atom_deps(i))
        return True

    def lane_sum(self, lane, x):
        """the sum of x over all lanes of an axis: linear in what differs between them, one unknown per monomial of it"""
        pr, n = lane.prime, lane.n
        for b in self.forked:
            if any(self.varies(i, pr) for i in self.cone([b])):
                raise Unsupported("sum over lanes that were told apart")
        x = sym.val(x)
        if isinstance(x, float):
            raise Unsupported("sum of infinities over lanes")
        out = {}
        p = sym.poly(x)
        for a, q in self.lins.items():
            if any(y == a for m in p for y, _ in m) and all(e > 0 for m in p for y, e in m if y == a):
                p = p_reduce(p_subst(p, a, q), self.sqrules)
        for m, k in p.items():
            dep = tuple((i, e) for i, e in m if self.varies(i, pr))
            rest = tuple((i, e) for i, e in m if (i, e) not in dep)
            if not dep:
                t = n.p
            else:
                key = ("sum", pr, dep)
                if key not in self.memo:
                    # as an instance: all lanes alike
                    self.memo[key] = self.atom("sum", "sum", samp=self.psamp(n.p) * self.psamp({dep: F(1)}))
                t = {((self.memo[key], 1),): F(1)}
            out = p_add(out, p_mul({rest: k}, t, self.sqrules))
        return mk(out)

    def cone(self, bs):
        todo = set()
        for b in bs:
            self.formula_atoms(b, todo)
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            todo |= self.atom_deps(i) - seen
        return seen

    def def_facts(self, ids):
        out = []
        for i in sorted(ids):
            a = self.atoms[i]
            z = self.zatom(i)
            if a.kind == "def":
                q = a.d
                if all(e > 0 for m in q for _, e in m):
                    out.append(z == self.zpoly(q))
                else:
                    out.append(self.z(lit("eq", p_add({((i, 1),): F(1)}, q, -1))))
            elif a.kind == "sqrt":
                q, mult = self.clear(a.d)
                t = z * z
                for x, e in mult:
                    for _ in range(e):
                        t = t * self.zatom(x)
                out.append(t == self.zpoly(q))
                out.append(z >= 0)
            elif i in self.sqrules:
                out.append(z * z == self.zpoly(self.sqrules[i]))
            elif a.kind == "pi":
                out.append(z > z3.Q(314159, 100000))
                out.append(z < z3.Q(314160, 100000))
            f = self.sign_fact(i)
            if f is not None:
                out.append(f)
        return out

    def sign_fact(self, i):
        """what is known of the atom's sign, learned facts included (z() cancels factors of known sign, so a fact about the atom alone is only stated here)"""
        a, z = self.atoms[i], self.zatom(i)
        sg = a.sgn if a.kind not in ("sqrt", "pi") else frozenset((0, 1)) if a.kind == "sqrt" else POS
        sg = sg & self.signs.get(p_key({((i, 1),): F(1)}), ALL)
        if sg == POS:
            return z > 0
        if sg == frozenset((0, 1)):
            return z >= 0
        if sg == NEG:
            return z < 0
        if sg == frozenset((0, -1)):
            return z <= 0
        if sg == frozenset((-1, 1)):
            return z != 0
        if sg == ZERO:
            return z == 0

    def clear(self, p):
        mins = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
        mult = tuple(sorted((a, -e) for a, e in mins.items()))
        return {mono_mul(m, mult): c for m, c in p.items()}, mult

    # ------------------------------------------------------------ proving
    def ring_zero(self, p, hyps=()):
        """is p == 0 by rewriting with the definitions (and known equalities)?"""
        for _ in range(60):
            if not p:
                return True
            if len(p) > sym.MAXTERMS:
                return False
            p, _m = self.clear(p)
            p = p_reduce(p, self.sqrules)
            done = True
            for a in sorted(p_atoms(p), reverse=True):
                at = self.atoms[a]
                if at.kind == "def":
                    p = p_subst(p, a, at.d)
                    done = False
                    break
                if a in self.lins:
                    p = p_subst(p, a, self.lins[a])
                    done = False
                    break
                if at.kind == "sqrt" and a not in self.sqrules and any(dict(m).get(a, 0) >= 2 for m in p):
                    # definition with denominators: a^2 = d
                    q, mult = self.clear(at.d)
                    out = {}
                    for m, c in p.items():
                        e = dict(m).get(a, 0)
                        t = {m: c}
                        k = e // 2
                        if k:
                            rest = tuple(x for x in m if x[0] != a)
                            if e % 2:
                                rest = mono_mul(rest, ((a, 1),))
                            t = {rest: c}
                            for _ in range(k):
                                t = p_mul(t, at.d)
                        out = p_add(out, t)
                    p = out
                    done = False
                    break
            if done:
                break
        if not p:
            return True
        # divide by known equalities
        eqs = [self.canon_nolin(f.a)[0] for f in self.facts if isinstance(f, B) and f.k == "eq"]
        if not eqs:
            return False
        p, _ = self.clear(p)
        eqs = [(max(q, key=lambda m: (sum(e for _, e in m), m)), q) for q in eqs if q]
        for _ in range(400):
            if not p:
                return True
            hit = False
            for m, c in sorted(p.items(), reverse=True):
                d = dict(m)
                for lm, q in eqs:
                    if all(d.get(a, 0) >= e for a, e in lm):
                        f = mono_mul(m, tuple((a, -e) for a, e in lm))
                        p = p_reduce(p_add(p, p_mul({f: c / q[lm]}, q), -1), self.sqrules)
                        hit = True
                        break
                if hit:
                    break
            if not hit or len(p) > 3000:
                return not p
        return False

    def prove(self, g, timeout_ms=4000, hints=()):
        """-> (status, backend, seconds, model)"""
        t0 = time.time()
        if not isinstance(g, bool):
            r = self.known(g)
            if r is True:
                return "proved", "sign-algebra", time.time() - t0, None
        if g is True:
            return "proved", "evaluation", time.time() - t0, None
        if g is not False and g.k == "and":
            tot = 0
            be = set()
            for x in g.a:
                st, b, s, m = self.prove(x, timeout_ms, hints)
                tot += s
                if st != "proved":
                    return st, b, tot, m
                be.add(b)
            return "proved", "+".join(sorted(be)), tot, None
        if g is not False and g.k == "eq":
            try:
                if self.ring_zero(dict(g.a)):
                    return "proved", "ring-normal-form", time.time() - t0, None
            except Unsupported:
                pass
        if self.lra_unsat(sym.not_(g)):
            return "proved", "lra-monomials", time.time() - t0, None
        ng = self.z(sym.not_(g))
        hz = [self.z(h) for h in hints]
        ids = self.cone([g] + list(hints))
        rel = [f for f in self.facts if self.formula_atoms(f) <= ids]
        # widen: facts reachable through shared atoms
        wid = set(ids)
        allf = list(self.facts)
        allids = self.cone(allf + [g] + list(hints))
        plans = []
        small = [self.z(f) for f in rel] + self.def_facts(ids) + hz
        full = [self.z(f) for f in allf] + self.def_facts(allids) + hz
        plans.append(("z3-nlsat", "qfnra-nlsat", small))
        if len(full) != len(small):
            plans.append(("z3-nlsat", "qfnra-nlsat", full))
        plans.append(("z3", None, full))
        sat = None
        for name, tac, fs in plans:
            try:
                s = z3.Tactic(tac).solver() if tac else z3.Solver()
                s.set("timeout", timeout_ms)
                for f in fs:
                    s.add(f)
                s.add(ng)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                self.solver_s += time.time() - t0
                return "proved", name, time.time() - t0, None
            if r == z3.sat and fs is full:
                sat = s.model()
                break
        if sat is None:
            r = self.cvc5(full + [ng], timeout_ms)
            if r == "unsat":
                self.solver_s += time.time() - t0
                return "proved", "cvc5", time.time() - t0, None
        self.solver_s += time.time() - t0
        if sat is not None:
            return "refuted", "z3", time.time() - t0, self.model_values(sat)
        # numeric candidate from the samples
        try:
            bad = self.alive & ~self.bsamp(g) if not isinstance(g, bool) else self.alive
            if np.any(bad):
                k = int(np.argmax(bad))
                return "candidate", "sampling", time.time() - t0, self.sample_model(k)
        except Exception:
            pass
        return "unknown", "timeout", time.time() - t0, None

    def cvc5(self, fs, timeout_ms):
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "--lang=smt2"], input=txt, capture_output=True, text=True,
                               timeout=timeout_ms / 1000 + 5)
            return r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
        except Exception:
            return "unknown"

    def model_values(self, m):
        out = {}
        for i, a in enumerate(self.atoms):
            if a.kind != "in":
                continue
            v = m.eval(self.zatom(i), model_completion=True)
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(15)
                out[a.name] = float(v.as_fraction()) if hasattr(v, "as_fraction") else float(str(v))
            except Exception:
                try:
                    out[a.name] = float(v.as_decimal(12).rstrip("?"))
                except Exception:
                    out[a.name] = 0.0
        return out

    def sample_model(self, k):
        return {a.name: float(self.asamp(i)[k]) for i, a in enumerate(self.atoms) if a.kind == "in"}
