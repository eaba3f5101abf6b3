from vc.engine import contract
U = "pyrayt.utils.lensmakers_equation"


@contract("P29", [U])
def thick_lens_focal_length(S):
    r1 = S.real("r1", nonzero=True); r2 = S.real("r2", nonzero=True)
    n = S.real("n", pos=True); t = S.real("t", nonneg=True)
    # ghost: paraxial system matrix (height, reduced-free angle): refraction at r1, propagation t, refraction at r2
    one = S.const(1)
    # refraction into index n at radius r: [[1,0],[-(n-1)/(n r), 1/n]];  out of n: [[1,0],[(n-1)/r, n]]
    a1 = [[one, 0 * one], [-(n - 1) / (n * r1), one / n]]
    p = [[one, t], [0 * one, one]]
    a2 = [[one, 0 * one], [-(1 - n) / r2, n]]
    def mm(x, y): return [[x[i][0] * y[0][j] + x[i][1] * y[1][j] for j in range(2)] for i in range(2)]
    sysm = mm(a2, mm(p, a1))
    S.assume(S.ne(sysm[1][0], 0))      # not afocal
    f = S.R.utils.lensmakers_equation(r1, r2, n, t)
    S.ensure("focal length is -1/C of the composed paraxial system", S.eq(f * sysm[1][0], -1))
    g = S.R.utils.lensmakers_equation(-r2, -r1, n, t)
    S.ensure("turning the lens round leaves the focal length unchanged", S.eq(f, g))
    S.ensure("inputs only", S.finite(f))
