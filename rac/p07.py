"""Encoding and decoding circuits."""
from rac.common import *
from rac.pq import *
from rac.p04 import code_cases, relabel
from rac.p06 import herm
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


def encoded(code, n, s):
    eng = engine(1, n % 2 == 0)
    reg = eng.allocate_qureg(n)
    eng.flush()
    code.encoding_circuit(eng, reg, list(s))
    need_flushed(eng, "encoding_circuit")
    psi = state(eng, reg)
    done(eng, reg)
    return psi


def encode_circuit_isometry(code, n, k):
    return np.array([encoded(code, n, s) for s in itertools.product([0, 1], repeat=k)]).T


@group(GROUPS, "encoding", ["StabilizerCode.encoding_circuit"],
       "each basis state goes to an eigenvector of every generator, with an eigenvalue that does not "
       "depend on the state; distinct states are orthogonal; logical Z_i reads bit i")
class A:
    def cases(rng, tier):
        return code_cases(rng, tier, 6)

    def check(c):
        rows, n = np.array(c["rows"]), c["n"]
        k = n - len(rows)
        code = SC(rows, n, k)
        rows = relabel(code, rows)
        v = encode_circuit_isometry(code, n, k)
        close(v.conj().T @ v, np.eye(2 ** k), "encoded basis states not orthonormal")
        for r in rows:
            lam = [eig(herm(r), v[:, i]) for i in range(2 ** k)]
            need(all(x is not None for x in lam),
                 "encoded state is not stabilized (up to sign) by %s" % bits_to_str(r))
            need(max(abs(x - lam[0]) for x in lam) < 1e-6,
                 "eigenvalue of %s depends on the encoded state" % bits_to_str(r))
        for i, z in enumerate(np.asarray(code.logical_z)):
            lam = [eig(pauli_mat(z), v[:, j]) for j in range(2 ** k)]
            for j, s in enumerate(itertools.product([0, 1], repeat=k)):
                need(lam[j] is not None and abs(lam[j] - (-1) ** s[i] * lam[0]) < 1e-6,
                     "logical Z %d does not read bit %d of %s" % (i, i, s))
        for i, x in enumerate(np.asarray(code.logical_x)):
            for j, s in enumerate(itertools.product([0, 1], repeat=k)):
                if not s[i]:
                    t = list(s)
                    t[i] = 1
                    jj = int("".join(map(str, t)), 2)
                    close(abs(np.vdot(v[:, jj], pauli_mat(x) @ v[:, j])), 1.0,
                          "logical X %d does not flip bit %d of %s" % (i, i, s))


@group(GROUPS, "decoding", ["StabilizerCode.decoding_circuit", "StabilizerCode.encoding_circuit"],
       "decoding an encoded superposition leaves it, coherently, on the k extra qubits")
class B:
    def cases(rng, tier):
        for c in code_cases(rng, tier, 5, kmin=1):
            yield dict(c, s=int(rng.integers(1 << 30)), mode=int(rng.integers(4)))

    def check(c):
        rows, n = np.array(c["rows"]), c["n"]
        k = n - len(rows)
        code = SC(rows, n, k)
        rng = np.random.default_rng(c["s"])
        v = encode_circuit_isometry(code, n, k)
        amp = rnd_c(rng, 2 ** k)
        amp /= np.linalg.norm(amp)
        psi = v @ amp
        eng = engine(c["s"] % 1000, c["s"] % 2 == 0)
        add, dealloc = bool(c["mode"] & 1), bool(c["mode"] & 2)
        reg = eng.allocate_qureg(n)
        if add:
            prepare(eng, reg, psi)
            out = code.decoding_circuit(eng, reg, add_ancilla_bits=True, deallocate_nqubits=dealloc)
        else:
            anc = eng.allocate_qureg(k)
            full = list(reg) + list(anc)
            zero = np.zeros(2 ** k)
            zero[0] = 1
            prepare(eng, full, np.kron(psi, zero))
            out = code.decoding_circuit(eng, full, add_ancilla_bits=False,
                                        deallocate_nqubits=dealloc)
        need_flushed(eng, "decoding_circuit")
        out = list(out)
        need(len(out) == (k if dealloc else n + k), "decoding returns %d qubits" % len(out))
        t = state(eng, out[-k:]).reshape(2 ** k, -1)
        rho = t @ t.conj().T
        All(Measure) | out
        if dealloc and add:
            All(Measure) | reg
        eng.flush()
        close(rho, np.outer(amp, amp.conj()), "decoded state of the ancillas", 1e-5)
