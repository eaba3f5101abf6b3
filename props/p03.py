"""P03: total internal reflection exactly when Snell has no solution."""
from vc.engine import contract
from .common import *
from .p02 import run_refract, run_glass


@contract("P03", ["tinygfx.g3d.operations.refract"], cases=[dict(unit=u, glob=g) for u in (True, False) for g in ("default", "scalar", "array")])
def tir(S, unit, glob):
    run_refract(S, "tir", unit, glob)


@contract("P03", ["pyrayt.materials.Glass.trace"], cases=[dict(disp=d) for d in ("any", "basic")])
def glass_tir(S, disp):
    run_glass(S, "tir", disp)


@contract("P03", ["tinygfx.g3d.operations.refract"])
def equal_indices(S):
    N = S.N()
    v, n = S.unit("v", N), S.unit("n", N)
    for a, m in S.lanes(N, v, n):
        S.assume(S.ne(S.dot(a[:3], m[:3]), 0))
        S.root(S.dot(a[:3], m[:3]))
    i = S.arr("n1", (), N, pos=True)
    v0 = S.np.array(v)
    r, idx = S.R.ops.refract(v, n, i, S.np.array(i), S.np.array(i))
    S.ensure("direction unchanged", S.same_array(r, v0))
    S.ensure("index unchanged", S.same_array(idx, i))
