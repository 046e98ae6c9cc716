"""Optimizers of coherent information and minimum fidelity."""
import contextlib
import io
import scipy.optimize
from rac.common import *
from rac.p13 import make, build
from PyQCodes.chan import _coherent
from PyQCodes.chan._coherent import optimize_procedure
from PyQCodes.chan.param import OverParam, CholeskyParam, StandardBasis, ParameterizationABC
from PyQCodes._optimize import initial_guesses_lipschitz
from PyQCodes.chan.channel import AnalyticQChan

GROUPS = []


class Mine(OverParam):
    """A user's own parameterization."""
    rho_from_vec = staticmethod(lambda vec, nsize, rank=None:
                                OverParam.rho_from_vec(np.asarray(vec)[::-1], nsize, rank))


PARAMS = {"overparam": OverParam, "cholesky": CholeskyParam, "mine": Mine}


def rnd_chan(c):
    rng = np.random.default_rng(c["s"])
    ks = rnd_kraus(rng, c["m"], 2, c["do"])
    return rng, AnalyticQChan(list(ks), [1, 1], 2, c["do"])


def value(chan, rho, n, objective):
    if objective == "coherent":
        return chan.coherent_information(rho, n)
    return chan.fidelity_two_states(rho, n)


def fake_pool():
    class P:
        """Every way to map over a pool of processes, in this process."""
        def __init__(self, *a, **kw):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def map(self, f, *xs, **kw):
            return [f(*x) for x in zip(*xs)]

        def imap(self, f, *xs, **kw):
            return iter(self.map(f, *xs))
        uimap = imap

        def amap(self, f, *xs, **kw):
            out = self.map(f, *xs)
            return type("Result", (), {"get": lambda self, timeout=None: out})()

        def close(self):
            pass
        join = clear = terminate = restart = close
    return P


@contextlib.contextmanager
def patched(**kw):
    """The names replaced wherever the code may look them up."""
    old = [(m, k, getattr(m, k)) for k in kw for m in (_coherent, scipy.optimize) if hasattr(m, k)]
    try:
        for m, k, _ in old:
            setattr(m, k, kw[k])
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


def gen(rng, tier):
    while True:
        obj = ["coherent", "fidelity"][rng.integers(2)]
        yield {"s": int(rng.integers(1 << 30)), "m": int(rng.integers(1, 4)),
               "do": 2 if obj == "fidelity" else int(rng.integers(2, 4)),
               "n": 1, "obj": obj, "rank": 1 if obj == "fidelity" else int(rng.integers(1, 3)),
               "opt": ["slsqp", "slsqp", "pool", "diffev"][rng.integers(4)],
               "param": ["overparam", "cholesky", "mine"][rng.integers(3)],
               "samples": int(rng.integers(1, 5)), "lip": int(rng.integers(0, 4)),
               "reg": int(rng.integers(2)),
               "api": int(rng.integers(2))}


@group(GROUPS, "selects_best", ["optimize_procedure", "_optimize_samples_slsqp",
                                "_use_multi_processes", "_optimize_differential_evol"],
       "with any local solver, the reported value, state and success flag are those of the best "
       "start (maximal coherent information, minimal fidelity)")
class A:
    cases = gen

    def check(c):
        rng, chan = rnd_chan(c)
        P = PARAMS[c["param"]]
        m = P.numb_variables(2, c["rank"])
        samples = [P.random_vectors(2, c["rank"]) for _ in range(c["samples"])]
        ends = {}

        def solver(fun, x0, args=(), **kw):
            # a local solver that may stop anywhere, fail, or move
            x = np.array(x0, float)
            if rng.integers(2):
                x = x + rng.normal(size=m) * 0.1
            r = scipy.optimize.OptimizeResult(x=x, fun=fun(x, *args), success=bool(rng.integers(2)))
            ends[len(ends)] = r
            return r

        def evol(fun, bounds=None, args=(), init=None, **kw):
            need(len(bounds) == m, "bounds")
            if c["samples"] + c["lip"]:
                need(not isinstance(init, str) and len(init) == c["samples"] + c["lip"], "initial population")
                need(all(np.allclose(a, b) for a, b in zip(init, samples)), "samples of the user")
            xs = [np.array(x, float) for x in init]
            vals = [fun(x, *args) for x in xs]
            i = int(np.argmin(vals))
            r = scipy.optimize.OptimizeResult(x=xs[i], fun=vals[i], success=bool(rng.integers(2)))
            ends[0] = r
            return r
        kw = dict(optimizer="diffev" if c["opt"] == "diffev" else "slsqp",
                  param=P if c["param"] == "mine" else c["param"], lipschitz=c["lip"],
                  use_pool=2 if c["opt"] == "pool" else 0, samples=samples)
        with patched(minimize=solver, differential_evolution=evol, Pool=fake_pool()), \
                contextlib.redirect_stdout(io.StringIO()):
            if c["obj"] == "coherent":
                res = (chan.optimize_coherent(1, c["rank"], **kw) if c["api"] else
                       optimize_procedure(chan, 1, c["rank"], objective="coherent", **kw))
            else:
                res = (chan.optimize_fidelity(1, **kw) if c["api"] else
                       optimize_procedure(chan, 1, 1, objective="fidelity", **kw))
        if c["opt"] != "diffev":
            need(len(ends) == c["samples"] + c["lip"], "%d starts were optimized" % len(ends))
        best = min(ends.values(), key=lambda r: r["fun"])
        sign = -1 if c["obj"] == "coherent" else 1
        close(res["optimal_val"], sign * best["fun"], "optimal value is the best candidate's", 1e-9)
        close(res["optimal_rho"], P.rho_from_vec(best["x"], 2, c["rank"]), "optimal state", 1e-9)
        close(value(chan, res["optimal_rho"], 1, c["obj"]), res["optimal_val"],
              "value at the reported state", 1e-9)
        need(res["success"] == best["success"], "success flag of the best candidate")
        need(res["objective"] == c["obj"] and res["lipschitz"] == (c["lip"] > 0) and
             res["method"] == kw["optimizer"], "labels of the result")


@group(GROUPS, "real_solver", ["optimize_procedure", "AnalyticQChan.optimize_coherent",
                               "AnalyticQChan.optimize_fidelity"],
       "the reported optimum is attained by the reported state and is not below its samples")
class B:
    def cases(rng, tier):
        g = gen(rng, tier)
        while True:
            c = next(g)
            if c["opt"] == "slsqp":
                yield dict(c, n=int(rng.integers(1, 3)) if c["m"] < 3 else 1, do=2)

    def check(c):
        rng, chan = rnd_chan(c)
        P = PARAMS[c["param"]]
        n, d = c["n"], 2 ** c["n"]
        samples = [P.random_vectors(d, c["rank"], "uniform") for _ in range(c["samples"])]
        kw = dict(optimizer="slsqp", param=P if c["param"] == "mine" else c["param"],
                  lipschitz=c["lip"], samples=samples, maxiter=15)
        with contextlib.redirect_stdout(io.StringIO()):
            if c["obj"] == "coherent":
                res = chan.optimize_coherent(n, c["rank"], regularized=bool(c["reg"]), **kw)
            else:
                res = chan.optimize_fidelity(n, **kw)
        sc = n if c["obj"] == "coherent" and c["reg"] else 1
        got = res["optimal_val"]
        rho = res["optimal_rho"]
        close(rho, rho.conj().T, "Hermitian")
        close(np.trace(rho), 1, "trace")
        need(np.linalg.eigvalsh(rho)[0] > -1e-9, "positive")
        close(value(chan, rho, n, c["obj"]) / sc, got, "value at the reported state", 1e-6)
        vals = [value(chan, P.rho_from_vec(s, d, c["rank"]), n, c["obj"]) / sc for s in samples]
        if c["obj"] == "coherent":
            need(got > max(vals) - 1e-5, "optimum %g below a sample %g" % (got, max(vals)))
        else:
            need(got < min(vals) + 1e-5, "minimum %g above a sample %g" % (got, min(vals)))


@group(GROUPS, "gate", ["optimize_procedure", "_get_parameterization_scheme_density",
                        "_choose_objective_func"],
       "unknown optimizers, objectives, parameterizations and negative counts are rejected")
class C:
    def cases(rng, tier):
        for i in range(8):
            yield {"i": i}

    def check(c):
        chan = AnalyticQChan([np.eye(2)], [1, 1], 2, 2)
        s = [OverParam.random_vectors(2, 2)]
        kw = [dict(optimizer="w", samples=s), dict(objective="w", samples=s), dict(param="w", samples=s),
              dict(param=3, samples=s), dict(use_pool=-1, samples=s), dict(lipschitz=-1, samples=s),
              dict(optimizer="slsqp"), dict(param=int, samples=s)][c["i"]]
        exc = [TypeError, TypeError, TypeError, TypeError, AssertionError, AssertionError,
               AssertionError, TypeError][c["i"]]
        with contextlib.redirect_stdout(io.StringIO()):
            raises(exc, lambda: optimize_procedure(chan, 1, 2, **kw), str(kw))


@group(GROUPS, "lipschitz", ["initial_guesses_lipschitz"],
       "the sampler keeps a candidate exactly when the largest value so far is below every "
       "upper bound f_i + |rho - rho_i|_1, and reports success exactly when it has enough")
class D:
    def cases(rng, tier):
        while True:
            yield {"s": int(rng.integers(1 << 30)), "num": int(rng.integers(1, 8)),
                   "tries": int(rng.integers(0, 30)), "slope": float(rng.uniform(0, 6)),
                   "rank": int(rng.integers(1, 3))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        drawn = []

        class P(OverParam):
            def random_vectors(nsize, rank):
                v = rng.normal(size=2 * nsize * rank)
                drawn.append(v)
                return v
        h = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))

        def f(vec, nsize, rank, param, chan, n):
            need((nsize, rank, param, chan, n) == (2, c["rank"], P, "chan", 3), "arguments of f")
            return c["slope"] * np.real(np.trace(param.rho_from_vec(vec, nsize, rank) @ h))
        with contextlib.redirect_stdout(io.StringIO()):
            vecs, evals, ok = initial_guesses_lipschitz(f, 2, c["rank"], P, "chan", 3, c["num"],
                                                        c["tries"])
        args = (2, c["rank"], P, "chan", 3)
        keep, vals, tries = [drawn[0]], [-f(drawn[0], *args)], 0
        rhos = [P.rho_from_vec(drawn[0], 2, c["rank"])]
        for v in drawn[1:]:
            need(tries < c["tries"] and len(keep) < c["num"], "draws after the end")
            r = P.rho_from_vec(v, 2, c["rank"])
            if max(vals) <= min(y + np.abs(r - x).sum() for x, y in zip(rhos, vals)):
                keep.append(v)
                rhos.append(r)
                vals.append(-f(v, *args))
            tries += 1
        need(tries == c["tries"] or len(keep) >= c["num"], "stopped early")
        need(len(vecs) == len(keep) and all(np.array_equal(a, b) for a, b in zip(vecs, keep)),
             "samples kept")
        close(evals, vals, "values of the samples")
        need(ok == (len(keep) == c["num"]), "success flag")
