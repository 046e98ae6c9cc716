"""Effective channel of a stabilizer code."""
import contextlib
import io
from rac.common import *
from rac import common
from PyQCodes.codes import StabilizerCode
from PyQCodes.find_codes import effective_channel_with_stabilizers
from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan.param import OverParam, CholeskyParam

GROUPS = []


def pauli_chan(rng, coherent_phase=True):
    p = rng.dirichlet([3, 1, 1, 1]) * (rng.random(4) < 0.8)
    p = p / p.sum() if p.sum() > 0 else np.array([1., 0, 0, 0])
    mats = [PI, PX, 1j * PX @ PZ, PZ]
    ph = np.exp(1j * rng.uniform(0, 6, 4)) if coherent_phase else np.ones(4)
    return [np.sqrt(a) * m * b for a, m, b in zip(p, mats, ph)]


@group(GROUPS, "effective", ["effective_channel_with_stabilizers"],
       "the channel handed to the optimizer is syndrome recovery after the n-fold error after the "
       "encoder; the objective, options and result are passed through unchanged")
class A:
    def cases(rng, tier):
        while True:
            yield {"n": int(rng.integers(2, 4)), "s": int(rng.integers(1 << 30)),
                   "obj": ["coherent", "fidelity"][rng.integers(2)],
                   "opts": int(rng.integers(4)), "str": int(rng.integers(2))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        n = c["n"]
        rows = np.array(common.random_code(rng, n, n - 1))
        kr = pauli_chan(rng)
        seen = {}
        sentinel = {"optimal_val": 1}

        def opt(name):
            def f(self, *a, **kw):
                seen["name"] = name
                seen["args"] = a
                seen["kw"] = kw
                seen["chan"] = self
                return sentinel
            return f
        old = AnalyticQChan.optimize_coherent, AnalyticQChan.optimize_fidelity
        options = [None, {"lipschitz": 3, "use_pool": 0}, {"param": "cholesky", "maxiter": 7},
                   {"samples": [np.ones(8)], "lipschitz": 0}][c["opts"]]
        try:
            AnalyticQChan.optimize_coherent = opt("coherent")
            AnalyticQChan.optimize_fidelity = opt("fidelity")
            with contextlib.redirect_stdout(io.StringIO()):
                arg = [bits_to_str(r) for r in rows] if c["str"] else rows
                out = effective_channel_with_stabilizers(arg, (n, 1), kr, optimize=c["obj"],
                                                         options=options)
        finally:
            AnalyticQChan.optimize_coherent, AnalyticQChan.optimize_fidelity = old
        need(out is sentinel, "result of the optimizer is not returned")
        need(seen.get("name") == c["obj"], "objective %s" % seen.get("name"))
        for k, v in (options or {}).items():
            need(seen["kw"].get(k) is v or seen["kw"].get(k) == v, "option %s ignored" % k)
        # effective channel: independent of the numbering of Kraus operators
        chan = seen["chan"]
        got = [dense(k) for k in dense(chan.kraus)]
        with contextlib.redirect_stdout(io.StringIO()):
            sc = StabilizerCode(arg, n, 1)
            enc = np.asarray(sc.encode_krauss_operators())
            rec = sc.kraus_operators_correcting_errors(np.array(common.power_ops(np.array(kr), n)), sparse=False)
        want = [np.asarray(r) @ enc for r in rec]
        close(sup(got), sup(want), "effective channel")
        need((chan.dim_in ** chan.numb_qubits[0], chan.dim_out ** chan.numb_qubits[1]) == (2, 2 ** n),
             "dimensions of the effective channel")


def sup(ks):
    return sum(np.kron(np.conj(k), k) for k in ks)


@group(GROUPS, "real", ["effective_channel_with_stabilizers"],
       "optimum reported for a real run is attained by the reported state, with the user's options")
class B:
    def cases(rng, tier):
        while True:
            yield {"s": int(rng.integers(1 << 30)), "obj": "coherent",
                   "par": ["overparam", "cholesky"][rng.integers(2)]}

    def check(c):
        rng = np.random.default_rng(c["s"])
        np.random.seed(c["s"] % 2**32)
        n = 2
        rows = np.array(common.random_code(rng, n, 1))
        kr = pauli_chan(rng)
        smp = [{"overparam": OverParam, "cholesky": CholeskyParam}[c["par"]].random_vectors(2, 2)]
        with contextlib.redirect_stdout(io.StringIO()):
            res = effective_channel_with_stabilizers(
                rows, (n, 1), kr, optimize=c["obj"],
                options={"param": c["par"], "lipschitz": 0, "use_pool": 0, "samples": smp, "maxiter": 5})
            sc = StabilizerCode(rows, n, 1)
            enc = np.asarray(sc.encode_krauss_operators())
            rec = sc.kraus_operators_correcting_errors(np.array(common.power_ops(np.array(kr), n)), sparse=False)
        ch = AnalyticQChan([np.asarray(r) @ enc for r in rec], [1, n], 2, 2)
        close(ch.coherent_information(res["optimal_rho"], 1), res["optimal_val"], "reported optimum")


@group(GROUPS, "gate", ["effective_channel_with_stabilizers"],
       "wrong objectives and error dimensions are rejected with TypeError")
class C:
    def cases(rng, tier):
        for i in range(6):
            yield {"i": i}

    def check(c):
        f = effective_channel_with_stabilizers
        bad = [lambda: f(["ZZ"], (2, 1), [np.eye(2)], optimize="w"),
               lambda: f(["ZZ"], (2, 1), [np.eye(2)], optimize=3),
               lambda: f(["ZZ"], (2, 1), [np.eye(3)]),
               lambda: f(["ZZ"], (2, 1), [np.eye(4)], options={"lipschitz": 1, "use_pool": 0, "maxiter": 1}),
               lambda: f(["ZZ"], (2, 1), [np.eye(1)], options={"lipschitz": 1, "use_pool": 0, "maxiter": 1}),
               lambda: f(["XXXX", "ZZZZ"], (4, 2), [np.eye(2)], options={"lipschitz": 1, "use_pool": 0, "maxiter": 1})][c["i"]]
        raises(TypeError, bad, "gate")
