"""Approximate unitary 2-design and the average fidelity estimate."""
from rac.common import *
from rac.pq import *
import projectq
from projectq.ops import XGate, Ph, S, T
from PyQCodes.device_adaptor import ProjectQDeviceAdaptor
from PyQCodes.find_codes import QDeviceChannel

GROUPS = []


@group(GROUPS, "inverse", ["ProjectQDeviceAdaptor.approximate_unitary_two_design",
                           "ProjectQDeviceAdaptor.inverse_of_unitary_two_design"],
       "the inverse circuit undoes the sampled circuit on every state of the register")
class A:
    def cases(rng, tier):
        while True:
            yield {"n": int(rng.integers(1, 5)), "eps": float(rng.choice([1, 0.5, 0.1, 0.01, 1e-4])),
                   "s": int(rng.integers(1 << 30))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        np.random.seed(c["s"] % 2**32)
        eng = engine()
        reg = eng.allocate_qureg(c["n"])
        eng.flush()
        dev = ProjectQDeviceAdaptor(eng, reg)
        psi = rnd_c(rng, 2 ** c["n"])
        psi /= np.linalg.norm(psi)
        prepare(eng, reg, psi)
        ph = dev.approximate_unitary_two_design(c["eps"])
        rounds = 2 * int(np.ceil(np.log2(1. / c["eps"]) / c["n"])) + 1
        need(len(ph) == rounds, "number of rounds %d instead of %d" % (len(ph), rounds))
        need(all(len(p) == c["n"] ** 2 for p in ph), "phases per round")
        for p in ph:
            need(all(min(abs(x - y) for y in (0, 2 * np.pi / 3, 4 * np.pi / 3)) < 1e-9
                     for x in p[:c["n"]]), "single-qubit phases")
            need(all(min(abs(x), abs(x - np.pi)) < 1e-9 for x in p[c["n"]:]), "two-qubit phases")
        dev.inverse_of_unitary_two_design(ph)
        got = state(eng, reg)
        need(abs(abs(np.vdot(psi, got)) - 1) < 1e-6, "U^-1 U is not the identity")
        done(eng, reg)


@group(GROUPS, "circuit", ["ProjectQDeviceAdaptor.approximate_unitary_two_design"],
       "the sampled circuit is the documented product of diagonal random phases and Hadamards")
class A2:
    def cases(rng, tier):
        while True:
            yield {"n": int(rng.integers(1, 4)), "eps": float(rng.choice([1, 0.5, 0.1])),
                   "s": int(rng.integers(1 << 30))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        np.random.seed(c["s"] % 2**32)
        n = c["n"]
        eng = engine()
        reg = eng.allocate_qureg(n)
        eng.flush()
        dev = ProjectQDeviceAdaptor(eng, reg)
        psi = rnd_c(rng, 2 ** n)
        psi /= np.linalg.norm(psi)
        prepare(eng, reg, psi)
        ph = dev.approximate_unitary_two_design(c["eps"])
        got = state(eng, reg)
        bits = np.array([[(x >> (n - 1 - q)) & 1 for q in range(n)] for x in range(2 ** n)])
        had = np.array([[(-1) ** int(np.dot(a, b)) for b in bits] for a in bits]) / 2 ** (n / 2)
        want = psi
        for p in reversed(ph):          # phases are returned last round first
            theta = bits @ np.array(p[:n])
            k = n
            for i in range(n):
                for j in range(n):
                    if i != j:
                        theta = theta + bits[:, i] * bits[:, j] * p[k]
                        k += 1
            want = had @ (np.exp(1j * theta) * want)
        need(abs(abs(np.vdot(want, got)) - 1) < 1e-6, "circuit differs from its recorded phases")
        done(eng, reg)


@group(GROUPS, "unitary_channels", ["ProjectQDeviceAdaptor.estimate_average_fidelity",
                                    "ProjectQDeviceAdaptor.set_register_to_zero",
                                    "QDeviceChannel.estimate_average_fidelity_channel",
                                    "QDeviceChannel.estimate_average_fidelity_error_code"],
       "the estimate is 1 for the identity (and encoder-inverse pairs), counts zero outcomes over "
       "ntimes, and is the average fidelity of other channels within sampling error")
class B:
    def cases(rng, tier):
        while True:
            yield {"n": int(rng.integers(1, 4)), "what": ["identity", "phase", "code", "flip",
                                                          "dirty", "count"][rng.integers(6)],
                   "cheat": int(rng.integers(2)), "s": int(rng.integers(1 << 30))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        np.random.seed(c["s"] % 2**32)
        n = c["n"]
        eng = engine(int(rng.integers(1, 1000)), c["s"] % 2 == 0)
        reg = eng.allocate_qureg(n)
        eng.flush()
        calls = []
        th = float(rng.uniform(0, 6))

        def chan(e, r):
            calls.append(len(r))
            if c["what"] == "phase":
                Ph(th) | r[0]
            elif c["what"] == "flip":
                X | r[n - 1]
            elif c["what"] == "count":
                [XGate() | q for q in r if rng.random() < 0.5]
            e.flush()
        dev = QDeviceChannel(eng, reg, chan)
        need(dev.numb_qubits == n and dev.channel is chan, "attributes")
        if c["what"] == "code":
            def enc(e, r):
                H | r[0]
                for q in range(1, n):
                    CNOT | (r[0], r[q])

            def dec(e, r):
                for q in range(n - 1, 0, -1):
                    CNOT | (r[0], r[q])
                H | r[0]
            got = dev.estimate_average_fidelity_error_code(enc, dec, 8, 0.3)
            close(got, 1, "encoder then inverse")
        elif c["what"] == "flip":
            t = 150
            got = dev.estimate_average_fidelity_channel(t, 0.01, cheat=bool(c["cheat"]))
            want = 1 / (2 ** n + 1)
            need(abs(got - want) < 6 * np.sqrt(want * (1 - want) / t) + 0.05,
                 "average fidelity %g instead of %g" % (got, want))
            need(abs(got * t - round(got * t)) < 1e-9 and len(calls) == t, "frequency over trials")
        elif c["what"] == "count":
            t = int(rng.integers(1, 12))
            zeros = []
            old = dev._device.inverse_of_unitary_two_design

            def inv(*a, **k):
                old(*a, **k)
                zeros.append(0)
            dev._device.inverse_of_unitary_two_design = inv
            got = dev.estimate_average_fidelity_channel(t, 0.5)
            need(len(calls) == t and len(zeros) == t, "each trial applies channel and inverse once")
            need(abs(got * t - round(got * t)) < 1e-9 and 0 <= got <= 1, "frequency over trials")
        else:
            if c["what"] == "dirty":
                All(X) | reg
                eng.flush()
                if c["cheat"] == 0:
                    All(Measure) | reg
                    eng.flush()
            t = int(rng.integers(1, 8))
            got = dev.estimate_average_fidelity_channel(t, 0.5, cheat=bool(c["cheat"]))
            close(got, 1, "identity channel (%s)" % c["what"])
            need(len(calls) == t, "number of trials")
        All(Measure) | dev.register
        eng.flush()
