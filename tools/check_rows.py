"""Compares vc/rows.py (arrays with any number of rows) with numpy: small array programs run once on the generic rows, then on random operands; every row of
numpy's result must be the table's entry for that row's transition. Run: vc/py tools/check_rows.py"""
import sys, site; site.addsitedir("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, "/verif")
import numpy as np
from vc import sym, nparr, engine, loader, path, session
from vc.rows import Rows, STEPS, after

PROGRAMS = {}
def program(f): PROGRAMS[f.__name__] = f; return f

def merged(np, a, b):
    m = np.vstack((a, b))
    s = np.argsort(m, axis=0, kind="stable")
    return m, s, m[s, np.arange(m.shape[-1])]

@program
def parity(np, a, b):
    return merged(np, a, b)[1] & 1
@program
def parity_mod(np, a, b):
    return merged(np, a, b)[1] % 2
@program
def operand(np, a, b):
    return merged(np, a, b)[1] >= a.shape[0]
@program
def count(np, a, b):
    return np.cumsum(np.where(merged(np, a, b)[1] & 1, -1, 1), axis=0)
@program
def count_a(np, a, b):
    return np.cumsum(merged(np, a, b)[1] < a.shape[0], axis=0) % 2
@program
def count_b2(np, a, b):
    s = merged(np, a, b)[1]
    return (np.cumsum(np.where(s >= a.shape[0], 3, 0), axis=0) & 1) == 1
@program
def before(np, a, b):
    return np.roll(count(np, a, b), 1, axis=0)
@program
def behind(np, a, b):
    s = merged(np, a, b)[1]
    c = np.cumsum(np.where(s & 1, -1, 1), axis=0)
    return np.roll(np.roll(c, 1, axis=0), -1, axis=0)
@program
def changes(np, a, b):
    return np.diff(count(np, a, b) == 2, axis=0, prepend=False) if np is not real else np.logical_xor(count(np, a, b) == 2, np.roll(count(np, a, b) == 2, 1, axis=0))
@program
def steps(np, a, b):
    return np.diff(count(np, a, b), axis=0, prepend=0)
@program
def values(np, a, b):
    m, s, v = merged(np, a, b)
    return np.where(np.logical_xor(s & 1, s >= a.shape[0]), v, np.inf)
@program
def by_sort(np, a, b):
    return np.sort(np.vstack((a, b)), axis=0)
@program
def along(np, a, b):
    m = np.concatenate((a, b))
    return np.take_along_axis(m, np.argsort(m, axis=0, kind="stable"), 0) * 2 + 1
@program
def assigned(np, a, b):
    m, s, v = merged(np, a, b)
    v = v.copy()
    v[count(np, a, b) == 0] = -7
    return v

real = np
rng = np.random.RandomState(1)
bad = 0
for name, f in PROGRAMS.items():
    if name == "changes":
        continue
    sym.CTX = path.Ctx([], seed=1)
    c = sym.CTX
    N = nparr.new_lane("n")
    S = session.Sym(c, type("T", (), {"np": None})())
    e = [S.arr(n, (), N) for n in ("a0", "a1", "b0", "b1")]
    vnp = nparr.make_numpy()[0]
    A = Rows.block(S.real("p", lo=1, int_=True), vnp.stack(e[:2]), asc=True)
    Bk = Rows.block(S.real("q", lo=1, int_=True), vnp.stack(e[2:]), asc=True)
    r = f(vnp, A, Bk)
    tab = r.table()
    atoms = {n: list(x.p[0].p)[0][0][0] for n, x in zip(("a0", "a1", "b0", "b1"), e)}
    for _ in range(200):
        p, q = rng.randint(1, 5, 2)
        a, b = [np.sort(np.where(rng.rand(2 * k, 3) < .15, np.inf, rng.randint(-4, 5, (2 * k, 3)) / 2.), axis=0) for k in (p, q)]
        got = f(real, a, b)
        order = np.argsort(np.vstack((a, b)), axis=0, kind="stable")
        for lane in range(3):
            st = (0, 0)
            for row in range(2 * (p + q)):
                k = order[row, lane]
                o = int(k >= 2 * p)
                pos = k - 2 * p * o
                if pos % 2 != st[o]:
                    bad += 1; print(name, "parity"); continue
                v = (b if o else a)[pos, lane]
                want = sym.num(tab.p[STEPS.index((st, o)), 0])
                if isinstance(want, sym.SReal):
                    ok = [x for x in ("a0", "a1", "b0", "b1") if atoms[x] in {y for m in want.p for y, _ in m}]
                    assert ok == ["ab"[o] + str(pos % 2)], (name, want, ok)
                    w = sum(float(cf) * np.prod([v ** ex for _, ex in m] or [1.]) for m, cf in want.p.items())
                else:
                    w = want
                g = got[row, lane]
                if not (g == w or (np.isinf(v) and np.isinf(g))):
                    bad += 1
                    if bad < 10: print(name, "row", row, "numpy", g, "table", w, st, o)
                st = after(st, o)
    print("%-12s ok" % name if not bad else name, "dom", r.dom[0])
sys.exit(bad > 0)
