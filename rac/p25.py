"""Optimization of parameterized encoders and decoders."""
import scipy.optimize
from rac.common import *
from rac.pq import *
import PyQCodes.find_codes as fc
from PyQCodes.find_codes import QDeviceChannel

GROUPS = []


@group(GROUPS, "objective", ["QDeviceChannel.optimize_encoder_decoder_average_fidelity"],
       "each evaluation runs encoder(first parameters), channel, decoder(other parameters); the "
       "optimizer is asked to maximize the estimate; the result reports its best point and value")
class A:
    def cases(rng, tier):
        while True:
            yield {"a": int(rng.integers(0, 4)), "b": int(rng.integers(0, 4)),
                   "s": int(rng.integers(1 << 30)), "cand": int(rng.integers(1, 6))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        log = []
        eng, reg = object(), [0, 1]
        dev = QDeviceChannel(eng, reg, lambda e, r: log.append(("chan", e, tuple(r))))
        m = c["a"] + c["b"]
        w = rng.normal(size=m)
        est_args = []

        def estimate(channel, ntimes, epsilon, cheat=False):
            est_args.append((ntimes, epsilon))
            del log[:]
            channel(eng, reg)
            p = np.concatenate([np.ravel(x[3]) for x in log if len(x) > 3] + [np.zeros(0)])
            need([x[0] for x in log] == ["enc", "chan", "dec"], "order %s" % [x[0] for x in log])
            need(all(x[1] is eng and tuple(x[2]) == (0, 1) for x in log), "engine and register")
            need(len(log[0][3]) == c["a"] and len(log[2][3]) == c["b"], "split of the parameters")
            return float(1 / (1 + np.exp(-np.dot(w, p))))
        dev._device.estimate_average_fidelity = estimate
        bounds = [(-float(x), float(x) + 1) for x in rng.random(m)]
        xs = [rng.normal(size=m) for _ in range(c["cand"])]
        ok = bool(rng.integers(2))

        def evol(fun, bounds=None, maxiter=None, args=(), **kw):
            need(list(bounds) == want_bounds and maxiter == 7, "bounds or iterations")
            vals = [fun(np.array(x), *args) for x in xs]
            i = int(np.argmin(vals))
            return scipy.optimize.OptimizeResult(x=xs[i], fun=vals[i], success=ok)
        want_bounds = list(bounds)
        old = [(m, m.differential_evolution) for m in (fc, scipy.optimize) if hasattr(m, "differential_evolution")]
        try:
            for m, _ in old:
                m.differential_evolution = evol
            res = dev.optimize_encoder_decoder_average_fidelity(
                lambda e, r, p: log.append(("enc", e, tuple(r), p)),
                lambda e, r, p: log.append(("dec", e, tuple(r), p)), 11, 0.25,
                (c["a"], c["b"]), bounds, maxiter=7)
        finally:
            for m, v in old:
                m.differential_evolution = v
        need(all(a == (11, 0.25) for a in est_args) and len(est_args) >= len(xs), "trials, precision")
        f = [float(1 / (1 + np.exp(-np.dot(w, x)))) for x in xs]
        best = xs[int(np.argmax(f))]
        close(res["optimal_val"], max(f), "optimal value is the best average fidelity")
        close(res["params_encoder"], best[:c["a"]], "encoder parameters")
        close(res["params_decoder"], best[c["a"]:], "decoder parameters")
        need(res["success"] == ok, "success flag")


@group(GROUPS, "gate", ["QDeviceChannel.optimize_encoder_decoder_average_fidelity"],
       "wrong numbers of bounds and unknown optimizers are rejected")
class B:
    def cases(rng, tier):
        for a in range(3):
            for b in range(3):
                for d in (-1, 1):
                    if a + b + d >= 0:
                        yield {"a": a, "b": b, "d": d}

    def check(c):
        dev = QDeviceChannel(object(), [0], lambda e, r: None)
        nop = lambda e, r, p: None
        bounds = [(0., 1.)] * (c["a"] + c["b"] + c["d"])
        raises(AssertionError, lambda: dev.optimize_encoder_decoder_average_fidelity(
            nop, nop, 2, 0.5, (c["a"], c["b"]), bounds), "number of bounds")
        raises(ValueError, lambda: dev.optimize_encoder_decoder_average_fidelity(
            nop, nop, 2, 0.5, (c["a"], c["b"]), [(0., 1.)] * (c["a"] + c["b"]), optimizer="w"),
            "unknown optimizer")


@group(GROUPS, "real", ["QDeviceChannel.optimize_encoder_decoder_average_fidelity"],
       "on the simulator a rotation that undoes a known error is found")
class C:
    def cases(rng, tier):
        while True:
            yield {"s": int(rng.integers(1 << 30))}

    def check(c):
        np.random.seed(c["s"] % 2**32)
        eng = engine()
        reg = eng.allocate_qureg(1)
        eng.flush()
        dev = QDeviceChannel(eng, reg, lambda e, r: X | r[0])
        res = dev.optimize_encoder_decoder_average_fidelity(
            lambda e, r, p: None, lambda e, r, p: Rx(p[0]) | r[0], 6, 0.5, (0, 1),
            [(0., 2 * np.pi)], maxiter=1)
        # 30 evaluations of 6 shots each: the best of them is far above 1/2
        need(0.5 <= res["optimal_val"] <= 1, "best fidelity found is %g" % res["optimal_val"])
        need(len(res["params_encoder"]) == 0 and len(res["params_decoder"]) == 1, "parameters")
        All(Measure) | dev.register
        eng.flush()
