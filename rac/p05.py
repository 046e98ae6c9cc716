"""Logical operators."""
from rac.common import *
from rac.p04 import code_cases, relabel
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


@group(GROUPS, "logical", ["StabilizerCode.logical_operators",
                           "StabilizerCode._matrix_blocks_standard_form"],
       "k logical X and Z rows, commuting with every generator, X_i anticommutes with Z_j iff i=j")
class A:
    def cases(rng, tier):
        return (c for c in code_cases(rng, tier, 8, kmin=1))

    def check(c):
        rows, n = np.array(c["rows"]), c["n"]
        m = len(rows)
        k = n - m
        code = SC(rows, n, k)
        rows = relabel(code, rows)
        nf = np.asarray(code.normal_form)
        need(same_span(nf, rows), "normal form and relabelled generators differ")
        lx, lz = np.asarray(code.logical_x), np.asarray(code.logical_z)
        need(lx.shape == (k, 2 * n) and lz.shape == (k, 2 * n), "shape of logical operators")
        need(np.all((lx == 0) | (lx == 1)) and np.all((lz == 0) | (lz == 1)), "not binary")
        for i in range(k):
            for r in rows:
                need(symp(lx[i], r) == 0, "logical X %d anticommutes with generator %s" % (i, r))
                need(symp(lz[i], r) == 0, "logical Z %d anticommutes with generator %s" % (i, r))
            for j in range(k):
                need(symp(lx[i], lx[j]) == 0, "logical X %d, %d" % (i, j))
                need(symp(lz[i], lz[j]) == 0, "logical Z %d, %d" % (i, j))
                need(symp(lx[i], lz[j]) == int(i == j), "logical X %d against Z %d" % (i, j))
        need(gf2_rank(np.vstack((rows, lx, lz))) == m + 2 * k, "not independent")
        a, b = code.logical_operators()
        need(np.array_equal(a, lx) and np.array_equal(b, lz), "logical_operators() differs")
