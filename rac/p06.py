"""Encoding isometry."""
from rac.common import *
from rac.p04 import code_cases
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


def herm(row):
    """The Hermitian generator: XZ-convention matrix, times i when the number of Y is odd."""
    row = np.asarray(row)
    n = len(row) // 2
    m = pauli_mat(row)
    return 1j * m if int(row[:n] @ row[n:]) % 2 else m


@group(GROUPS, "isometry", ["StabilizerCode.encode_krauss_operators"],
       "columns are an orthonormal basis of the joint +1 eigenspace; sparse equals dense")
class A:
    def cases(rng, tier):
        return code_cases(rng, tier, 6)

    def check(c):
        rows, n = np.array(c["rows"]), c["n"]
        k = n - len(rows)
        code = SC(rows.copy(), n, k)
        v = np.asarray(code.encode_krauss_operators())
        need(v.shape == (2 ** n, 2 ** k), "shape %s of the isometry" % (v.shape,))
        close(v.conj().T @ v, np.eye(2 ** k), "isometry columns not orthonormal", 1e-5)
        for r in rows:
            close(herm(r) @ v, v, "column outside the +1 eigenspace of %s" % bits_to_str(r), 1e-5)
        s = code.encode_krauss_operators(sparse=True)
        need(hasattr(s, "todense"), "sparse flag ignored")
        p = dense(s)
        close(p @ p.conj().T, v @ v.conj().T, "sparse and dense code space", 1e-5)
