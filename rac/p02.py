"""Pauli matrices of binary rows; commutation bit."""
from rac.common import *
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


@group(GROUPS, "matrices", ["StabilizerCode.binary_rep_to_pauli_mat",
                            "StabilizerCode.index_to_qubit_pauli"],
       "matrix i is the tensor product, first qubit leftmost; dense and sparse agree")
class A:
    def cases(rng, tier):
        for n in (1, 2, 3):
            for b in all_bits(2 * n):
                yield {"b": [b]}
        while True:
            n, m = int(rng.integers(1, 7)), int(rng.integers(1, 4))
            yield {"b": rng.integers(0, 2, (m, 2 * n)).tolist(), "f": int(rng.integers(2))}

    def check(c):
        b = np.array(c["b"], dtype=float if c.get("f") else int)
        keep = b.copy()
        want = [pauli_mat(r) for r in c["b"]]
        got = SC.binary_rep_to_pauli_mat(b)
        got_s = SC.binary_rep_to_pauli_mat(b, sparse=True)
        need(len(got) == len(want) and len(got_s) == len(want), "number of matrices")
        for g, gs, w in zip(got, got_s, want):
            close(g, w, "matrix of %s" % c["b"])
            close(dense(gs), w, "sparse matrix of %s" % c["b"])
        need(np.array_equal(b, keep), "input was modified")
        # the shared single-qubit constants must survive use
        close(SC.index_to_qubit_pauli(1, 1), PXZ, "Y")
        close(dense(SC.index_to_qubit_pauli(1, 1, True)), PXZ, "sparse Y")


@group(GROUPS, "single", ["StabilizerCode.index_to_qubit_pauli"],
       "the four single-qubit cases, and ValueError elsewhere")
class S:
    def cases(rng, tier):
        for x in (0, 1, 2, 3, -1):
            for z in (0, 1, 2, 3, -1):
                for s in (False, True):
                    yield {"x": x, "z": z, "s": s}

    def check(c):
        if c["x"] in (0, 1) and c["z"] in (0, 1):
            m = SC.index_to_qubit_pauli(c["x"], c["z"], c["s"])
            need(hasattr(m, "todense") == c["s"], "sparse flag ignored")
            close(dense(m), pauli_mat([c["x"], c["z"]]), "pauli %s" % c)
        else:
            raises(ValueError, lambda: SC.index_to_qubit_pauli(c["x"], c["z"], c["s"]),
                   "non-binary %s" % c)


@group(GROUPS, "commutation", ["StabilizerCode.inner_prod"],
       "inner_prod is 0 iff the matrices commute and 1 iff they anticommute")
class C:
    def cases(rng, tier):
        for n in (1, 2):
            for a in all_bits(2 * n):
                for b in all_bits(2 * n):
                    yield {"a": a, "b": b}
        while True:
            n = int(rng.integers(3, 6)) if rng.random() < 0.7 else int(rng.integers(6, 30))
            yield {"a": rng.integers(0, 2, 2 * n).tolist(), "b": rng.integers(0, 2, 2 * n).tolist()}

    def check(c):
        a, b = np.array(c["a"]), np.array(c["b"])
        got = SC.inner_prod(a, b)
        need(got == symp(a, b), "inner product of %s, %s is %s" % (c["a"], c["b"], got))
        need(SC.inner_prod(a.astype(float), b.astype(float)) == symp(a, b), "float rows")
        if len(a) <= 10:
            m, w = SC.binary_rep_to_pauli_mat(np.array([a, b]))
            sign = -1 if got else 1
            close(m @ w, sign * (w @ m), "commutation of matrices vs inner product")
