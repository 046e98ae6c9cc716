"""Syndrome measurement."""
from rac.common import *
from rac.pq import *
from rac.p04 import code_cases
from rac.p06 import herm
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


@group(GROUPS, "syndrome", ["StabilizerCode.single_syndrome_measurement"],
       "on the code space plus a Pauli error the result is the commutation bit of the error with "
       "the measured element, the state is untouched, with or without a supplied ancilla")
class A:
    def cases(rng, tier):
        for c in code_cases(rng, tier, 5):
            n = c["n"]
            yield dict(c, s=int(rng.integers(1 << 30)), e=rng.integers(0, 2, 2 * n).tolist(),
                       anc=int(rng.integers(2)), kind=["arr", "str", "intarr"][rng.integers(3)])

    def check(c):
        rng = np.random.default_rng(c["s"])
        rows, n = np.array(c["rows"]), c["n"]
        code = SC(rows, n, n - len(rows))
        # a random state of the joint +1 eigenspace, built by the oracle
        psi = rnd_c(rng, 2 ** n)
        for r in rows:
            psi = psi + herm(r) @ psi
        psi = pauli_mat(c["e"]) @ (psi / np.linalg.norm(psi))
        eng = engine(c["s"] % 1000, c["s"] % 2 == 0)
        reg = list(eng.allocate_qureg(n))
        full = reg
        if c["anc"]:
            full = reg + list(eng.allocate_qureg(1))
            prepare(eng, full, np.kron(psi, [1, 0]))
        else:
            prepare(eng, full, psi)
        for r in rows[:2] if c["anc"] == 0 else rows[:1]:
            arg = bits_to_str(r) if c["kind"] == "str" else np.array(r)
            got = code.single_syndrome_measurement(eng, full, arg)
            need(got == symp(r, c["e"]), "measuring %s after error %s gives %s"
                 % (bits_to_str(r), bits_to_str(c["e"]), got))
            t = state(eng, reg).reshape(2 ** n, -1)
            close(t @ t.conj().T, np.outer(psi, psi.conj()), "state after the measurement", 1e-5)
        done(eng, full)


@group(GROUPS, "wrong_register", ["StabilizerCode.single_syndrome_measurement"],
       "a register of another size is rejected with TypeError")
class B:
    def cases(rng, tier):
        for n in (2, 3):
            for d in (-1, 2, 3):
                yield {"n": n, "d": d}

    def check(c):
        code = SC([[0, 0, 1, 1]], 2, 1) if c["n"] == 2 else SC([[0, 0, 0, 1, 1, 0]], 3, 2)
        eng = engine()
        reg = list(eng.allocate_qureg(c["n"] + c["d"]))
        try:
            raises(TypeError, lambda: code.single_syndrome_measurement(
                eng, reg, np.array(code.stab_bin_rep[0])), "wrong register")
        finally:
            done(eng, reg)
