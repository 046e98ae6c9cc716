"""Applying Pauli strings and logical operators on a register."""
from rac.common import *
from rac.pq import *
from rac.p04 import code_cases
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


def same_up_to_phase(a, b, msg):
    close(abs(np.vdot(a, b)), 1.0, msg)


@group(GROUPS, "apply_pauli", ["StabilizerCode.apply_stabilizer_circuit"],
       "letter q acts on register[q]; a string, a list and an array argument act the same")
class A:
    def cases(rng, tier):
        for b in all_bits(4):
            yield {"b": b, "n": 2, "s": 3, "kind": "str"}
        while True:
            n = int(rng.integers(1, 6))
            yield {"b": rng.integers(0, 2, 2 * n).tolist(), "n": n, "s": int(rng.integers(1 << 30)),
                   "kind": ["str", "list", "arr"][rng.integers(3)]}

    def check(c):
        n, rng = c["n"], np.random.default_rng(c["s"])
        z = np.zeros((1, 2 * max(n, 2)), dtype=int)
        z[0, -1] = 1
        code = SC(z, max(n, 2), max(n, 2) - 1)
        psi = rnd_c(rng, 2 ** n)
        psi /= np.linalg.norm(psi)
        eng = engine(1, c["s"] % 2 == 0)
        reg = list(eng.allocate_qureg(n))
        prepare(eng, reg, psi)
        arg = {"str": bits_to_str(c["b"]), "list": list(c["b"]), "arr": np.array(c["b"])}[c["kind"]]
        code.apply_stabilizer_circuit(eng, reg, arg)
        need_flushed(eng, "apply_stabilizer_circuit")
        got = state(eng, reg)
        done(eng, reg)
        same_up_to_phase(got, pauli_mat(c["b"]) @ psi, "applying %s" % bits_to_str(c["b"]))


@group(GROUPS, "logical_circuit", ["StabilizerCode.logical_circuit"],
       "Xi, Zi, Yi act as logical X_i, Z_i and X_i Z_i; other requests raise AssertionError")
class B:
    def cases(rng, tier):
        for c in code_cases(rng, tier, 5, kmin=1):
            yield dict(c, s=int(rng.integers(1 << 30)), op="XYZ"[rng.integers(3)],
                       custom=int(rng.integers(2)))

    def check(c):
        rng = np.random.default_rng(c["s"])
        rows, n = np.array(c["rows"]), c["n"]
        k = n - len(rows)
        if c["custom"]:
            lx, lz = rng.integers(0, 2, (2, k, 2 * n))
            code = SC(rows, n, k, [lx, lz])
        else:
            code = SC(rows, n, k)
            lx, lz = np.asarray(code.logical_x), np.asarray(code.logical_z)
        i = int(rng.integers(min(k, 10)))
        for bad in ("A0", "X%d" % min(k, 9), "x0"):
            if bad == "X9" and k > 9:
                continue
            eng = engine()
            reg = list(eng.allocate_qureg(n))
            raises(AssertionError, lambda: code.logical_circuit(eng, reg, bad), "request %s" % bad)
            done(eng, reg)
        psi = rnd_c(rng, 2 ** n)
        psi /= np.linalg.norm(psi)
        eng = engine(1, c["s"] % 2 == 0)
        reg = list(eng.allocate_qureg(n))
        prepare(eng, reg, psi)
        code.logical_circuit(eng, reg, "%s%d" % (c["op"], i))
        need_flushed(eng, "logical_circuit")
        got = state(eng, reg)
        done(eng, reg)
        row = {"X": lx[i], "Z": lz[i], "Y": (lx[i] + lz[i]) % 2}[c["op"]]
        same_up_to_phase(got, pauli_mat(row) @ psi, "logical %s%d" % (c["op"], i))
