"""P12: combined solids are hit exactly where the boolean combination is."""
from vc.engine import contract
from .common import *
from vc.sym import Unsupported
from vc.rows import Rows, STEPS, after

COVERS = ["tinygfx.g3d.csg.array_csg"]
OPS3 = ["UNION", "INTERSECT", "DIFFERENCE"]
ASSUME = ["the hits of each operand are ascending with an even number of rows, missing hits infinite (the operands' own contract, P06, P07, P13)",
          "array_csg is decided for any number of rows where it is written as whole-array steps over the merged rows (sort, shift, running sum, selection); "
          "otherwise for up to 6 rows per operand (every order type of the hits, so every real value) and concretely beyond",
          "equal-valued rows keep their parity under np.argsort(kind='stable'); the step from rows kept to membership along the ray is the induction written at `kept`",
          "np.argsort(kind='stable') keeps the order of ties; without it they come in either order"]


def within(S, hits, t):
    """t lies strictly inside one of the stretches bounded by hits read in pairs"""
    return S.or_(*[S.and_(S.lt(hits[k], t), S.lt(t, hits[k + 1])) for k in range(0, len(hits), 2)])


def boolean(S, op, a, b):
    if op == "UNION":
        return S.or_(a, b)
    if op == "INTERSECT":
        return S.and_(a, b)
    return S.and_(a, S.not_(b))


def sorted_hits(S, name, rows, N, special=True):
    """rows ascending hits per ray: finite, missing from some row on, possibly unbounded on either side"""
    h = S.arr(name, (rows,), N)
    k = S.choice(name + " finite pairs", rows // 2 + 1)
    h[2 * k:] = S.inf
    if special and k == 1:
        s = S.choice(name + " unbounded", 4)
        if s & 1:
            h[0] = -S.inf
        if s & 2:
            h[1] = S.inf
    if not S.symbolic:
        h.sort(axis=0)
        if S.rng.rand() < .3 and rows == 2:
            h[1] = h[0]
    for hh in S.lanes(N, h):
        S.assume(S.and_(*[S.le(x, y) for x, y in zip(hh, hh[1:])]))
    return h


def sheets(S, op, hits, l, r):
    """a stretch without length (a sheet) away from all others is kept like any other point of its operand"""
    for mine, other, keep in ((l, r, op != "INTERSECT"), (r, l, op == "UNION")):
        if op == "DIFFERENCE" and mine is r:
            return
        for k in range(0, len(mine), 2):
            x, y = mine[k], mine[k + 1]
            if not (S.finite(x) and S.finite(y)):
                continue
            away = [S.or_(S.lt(x, h[i]), S.lt(h[i + 1], x)) for h in (mine, other) for i in range(0, len(h), 2) if (h, i) != (mine, k) and (keep or h is mine)]
            there = True if keep else within(S, other, x)
            S.ensure("sheets are kept", S.implies(S.and_(S.eq(x, y), there, *away), S.or_(*[S.eq(h, x) for h in hits if S.finite(h)])))


def ascending(S, h):
    return S.and_(*[S.le(x, y) for x, y in zip(h, h[1:])])


def ts(S, N, *hits):
    """an arbitrary parameter that is not one of the hits"""
    t = S.arr("t", (), N)
    for row in S.lanes(N, t, *hits):
        S.assume(S.and_(*[S.ne(row[0], x) for h in row[1:] for x in h if S.finite(x)]))
    return t


SIZES = [(2, 2), (2, 4), (4, 2), (4, 4), (2, 6), (6, 2), (4, 6), (6, 4)]


@contract("P12", COVERS, merge=True, cases=[dict(op=o, m=m, n=n) for o in OPS3 for m, n in SIZES], budget=200, conc=40, bounded="operands of %s rows, every order of the hits" % SIZES)
def booleans(S, op, m, n):
    N = S.N()
    a, b = sorted_hits(S, "a", m, N, m + n == 4), sorted_hits(S, "b", n, N, m + n == 4)
    a0, b0 = S.np.array(a), S.np.array(b)
    r = S.R.csg.array_csg(a, b, getattr(S.R.csg.Operation, op))
    S.ensure("one column per ray", S.shape_ok(r, (m + n, N)))
    S.ensure("operands are not modified", S.and_(S.same_array(a, a0), S.same_array(b, b0)))
    T = ts(S, N, a, b)
    for hh, aa, bb, t in S.lanes(N, r, a, b, T):
        S.ensure("ascending", ascending(S, hh))
        S.ensure("inside exactly where the combination is", S.iff(within(S, hh, t), boolean(S, op, within(S, aa, t), within(S, bb, t))))
        if m + n <= 6:
            sheets(S, op, hh, aa, bb)


@contract("P12", COVERS, merge=True, cases=[dict(op=o) for o in OPS3], budget=60, bounded="operands of 2 and 4 values")
def single_ray(S, op):
    """the same for the hits of one ray in plain vectors"""
    N = S.N()
    m, n = S.pick("sizes", [(2, 2), (4, 2)])
    a, b = [x[:, 0] if not S.symbolic else S.array(S.lanes(N, x)[0]) for x in (sorted_hits(S, "a", m, N), sorted_hits(S, "b", n, N))]
    r = S.tolist(S.R.csg.array_csg(a, b, getattr(S.R.csg.Operation, op)))
    aa, bb, t = S.tolist(a), S.tolist(b), S.real("t")
    S.assume(S.and_(*[S.ne(t, x) for x in aa + bb if S.finite(x)]))
    S.ensure("ascending", ascending(S, r))
    S.ensure("inside exactly where the combination is", S.iff(within(S, r, t), boolean(S, op, within(S, aa, t), within(S, bb, t))))
    sheets(S, op, r, aa, bb)


# the object that applies it, its members under contract (see P13 for the stubs)
@contract("P12", ["tinygfx.g3d.csg.CSGSurface.intersect", "tinygfx.g3d.csg.CSGSurface.__init__"], merge=True, stubs=True, budget=200,
          cases=[dict(op=o, m=m, n=n) for o in OPS3 for m, n in ((2, 2), (4, 2), (2, 4))],
          bounded="members with 2+2, 4+2, 2+4 hits per ray, every order of the hits, any number of rays")
def combination(S, op, m, n):
    from .p13 import combined
    for hh, ii, l, r, ids, t in combined(S, op, m, n):
        S.ensure("inside exactly where the combination is", S.iff(within(S, hh, t), boolean(S, op, within(S, l, t), within(S, r, t))))
        sheets(S, op, hh, l, r)


def any_operands(S, source):
    """the operands' hits with any number of rows; source: the entries of an operand's even and odd rows, missing or unbounded for either operand"""
    A, B = [Rows.block(S.real("half the rows of " + n, lo=1, int_=True), v, asc=True) for n, v in zip("ab", source)]
    return A, B


def flips(op, s, o):
    inside = lambda s: {"UNION": s[0] or s[1], "INTERSECT": s[0] and s[1], "DIFFERENCE": s[0] and not s[1]}[op]
    return bool(inside(s)) != bool(inside(after(s, o)))


def kept(S, op, h, entry, N, reached=True):
    """Every row of the merged hits, told apart by the state before it (which operands the ray is inside, by parity) and its operand, stays if and only if it
    changes membership in the combination. From this: outside before the first row, so after any prefix of the rows the hits kept are odd in number exactly when
    the combination of the operands' parities holds; the hits below t are such a prefix; so t is between the members of a pair of kept hits exactly where it is
    inside the combination."""
    for hh, *e in S.lanes(N, h.table(), *entry):
        for j, (s, o) in enumerate(STEPS):
            x = e[2 * o + s[o]]
            S.ensure("a row stays exactly if it changes membership", S.eqv(hh[j], x if flips(op, s, o) and reached else S.inf))


@contract("P12", COVERS, cases=[dict(op=o) for o in OPS3], conc=0, advisory=True)
def any_rows(S, op):
    """array_csg for operands with any number of rows, any number of rays"""
    N = S.N()
    flat = S.flag("plain vectors")
    e = [S.arr(n, (), N) if not flat else S.real(n) for n in ("even of a", "odd of a", "even of b", "odd of b")]
    miss = S.pick("rows are", [None, S.inf, -S.inf])
    if miss is not None:
        e = [S.np.full((N,), miss) if not flat else miss for _ in e]
    A, B = any_operands(S, [S.np.stack(e[:2]), S.np.stack(e[2:])] if not flat else [S.array(e[:2]), S.array(e[2:])])
    a0, b0 = A.copy(), B.copy()
    r = S.R.csg.array_csg(A, B, getattr(S.R.csg.Operation, op))
    if not isinstance(r, Rows):
        raise Unsupported("rows computed by other means")
    S.ensure("one column per ray, as many rows as both", S.and_(r.ndim == A.ndim, r.lane == A.lane, S.eq(r.n, A.n + B.n)))
    S.ensure("operands are not modified", S.and_(S.same_array(A.a, a0.a), S.same_array(B.a, b0.a)))
    S.ensure("ascending", r.asc and r.dom[0] in ("merged", "sorted", "const"))
    kept(S, op, r, e, N)


@contract("P12", ["tinygfx.g3d.csg.CSGSurface.intersect", "tinygfx.g3d.csg.CSGSurface.__init__"], cases=[dict(op=o) for o in OPS3], conc=0, advisory=True, stubs=True)
def any_members(S, op):
    """the same for members with any number of hits per ray"""
    from .p13 import any_combined
    for h, i, stays, hit, label in any_combined(S, op):
        S.ensure("a row stays exactly if it changes membership", S.eqv(h, hit) if bool(stays) else S.eqv(h, S.inf))


@contract("P12", [], sym=False, conc=300)
def trees(S):
    from .p13 import check_solid
    check_solid(S, False)


@contract("P12", [], sym=False, conc=200)
def long_operands(S):
    """array_csg on longer operands"""
    op = S.pick("op", OPS3)
    m, n, N = 2 * (1 + S.choice("m", 8)), 2 * (1 + S.choice("n", 8)), S.N()
    a, b = sorted_hits(S, "a", m, N), sorted_hits(S, "b", n, N)
    r = S.R.csg.array_csg(a, b, getattr(S.R.csg.Operation, op))
    for k in range(N):
        vals = S.np.unique([x for x in list(a[:, k]) + list(b[:, k]) if S.finite(x)])
        S.ensure("ascending", ascending(S, list(r[:, k])))
        for t in [-50., 50.] + [(x + y) / 2 for x, y in zip(vals, vals[1:])]:
            S.ensure("inside exactly where the combination is", S.iff(within(S, r[:, k], t), boolean(S, op, within(S, a[:, k], t), within(S, b[:, k], t))))
