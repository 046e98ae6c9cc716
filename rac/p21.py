"""Parameterizations of density matrices."""
from rac.common import *
from PyQCodes.chan.param import OverParam, CholeskyParam, StandardBasis, ParameterizationABC

GROUPS = []
PARAMS = {"over": OverParam, "chol": CholeskyParam}


def gen(rng, tier):
    while True:
        n = int(rng.integers(1, 7))
        yield {"p": ["over", "chol"][rng.integers(2)], "n": n, "r": int(rng.integers(1, n + 1)),
               "s": int(rng.integers(1 << 30)), "scale": float(rng.uniform(0.1, 5)),
               "dist": ["normal", "uniform"][rng.integers(2)]}


@group(GROUPS, "density", ["OverParam.rho_from_vec", "CholeskyParam.rho_from_vec"],
       "every nonzero vector of the declared length maps to a density matrix of at most that rank")
class A:
    cases = gen

    def check(c):
        P, n, r = PARAMS[c["p"]], c["n"], c["r"]
        rng = np.random.default_rng(c["s"])
        m = P.numb_variables(n, r)
        v = rng.normal(size=m) * c["scale"]
        keep = v.copy()
        rho = P.rho_from_vec(v, n, r)
        need(np.array_equal(v, keep), "the vector was changed")
        need(rho.shape == (n, n), "shape")
        close(rho, rho.conj().T, "Hermitian")
        close(np.trace(rho), 1, "trace")
        e = np.linalg.eigvalsh(rho)
        need(e[0] > -1e-9, "eigenvalue %g" % e[0])
        need(np.sum(e > 1e-7) <= r, "rank %d above %d" % (np.sum(e > 1e-7), r))
        # the matrix the vector documents: A row by row, or L with its diagonal first
        if c["p"] == "over":
            a = (v[0::2] + 1j * v[1::2]).reshape(n, r)
        else:
            a = np.zeros((n, r), complex)
            k = r
            for i in range(n):
                for j in range(min(i, r)):
                    a[i, j] = v[k] + 1j * v[k + 1]
                    k += 2
            for i in range(r):
                a[i, i] = v[i]
            need(k == m, "number of variables %d, layout uses %d" % (m, k))
        want = a @ a.conj().T
        close(rho, want / np.trace(want), "documented layout of the vector")
        if c["p"] == "over" or r == n:
            close(P.rho_from_vec(v, n), rho, "rank left out")
        if n > 1:
            bad = np.append(v, [0.3, 0.2])
            raises(AssertionError, lambda: P.rho_from_vec(bad, n, r), "vector of another length")
        raises(AssertionError, lambda: P.rho_from_vec(v, n, n + 1), "rank above the dimension")


@group(GROUPS, "roundtrip", ["OverParam.vec_from_rho", "CholeskyParam.vec_from_rho"],
       "rho_from_vec(vec_from_rho(rho)) = rho with a vector of the declared length inside bounds")
class B:
    cases = gen

    def check(c):
        P, n, r = PARAMS[c["p"]], c["n"], c["r"]
        rng = np.random.default_rng(c["s"])
        low = c["p"] == "over" and c["s"] % 3 == 0            # a state of lower rank than declared
        rho = rnd_rho(rng, n, 1 + c["s"] % r if low else r)
        keep = rho.copy()
        v = P.vec_from_rho(rho, n, r)
        close(rho, keep, "rho was changed")
        need(np.isrealobj(v), "vector is not real")
        need(np.shape(v) == (P.numb_variables(n, r),), "length %s, declared %d"
             % (np.shape(v), P.numb_variables(n, r)))
        close(P.rho_from_vec(v, n, r), rho, "round trip", 2e-4 if c["p"] == "over" else 1e-6)
        b = P.bounds(n, r)
        need(all(l - 1e-9 <= x <= u + 1e-9 for x, (l, u) in zip(v, b)), "vector outside bounds")


@group(GROUPS, "lengths", ["OverParam.bounds", "OverParam.random_vectors", "CholeskyParam.bounds",
                           "CholeskyParam.random_vectors", "OverParam.numb_variables",
                           "CholeskyParam.numb_variables"],
       "bounds and random vectors have the declared length; bounds are ordered; random diagonals "
       "and uniform vectors lie within bounds")
class C:
    cases = gen

    def check(c):
        P, n, r = PARAMS[c["p"]], c["n"], c["r"]
        np.random.seed(c["s"] % 2**32)
        m = P.numb_variables(n, r)
        need(m == (2 * n * r if c["p"] == "over" else r + 2 * sum(min(i, r) for i in range(n))),
             "number of variables %d" % m)
        b = P.bounds(n, r)
        need(len(b) == m and all(len(x) == 2 and x[0] < x[1] for x in b), "bounds")
        if c["p"] == "over":
            need(all(tuple(x) == (-1, 1) for x in b), "bounds values")
            v = P.random_vectors(n, r, c["dist"])
        else:
            need(all(tuple(x) == (0, 1) for x in b[:r]) and all(tuple(x) == (-1, 1) for x in b[r:]),
                 "bounds values")
            lo, hi = -c["scale"], c["scale"] / 2
            b2 = P.bounds(n, r, lo, hi)
            need(all(tuple(x) == (0, hi) for x in b2[:r]) and
                 all(tuple(x) == (lo, hi) for x in b2[r:]) and len(b2) == m, "given bounds")
            v = P.random_vectors(n, r, c["dist"])
            w = P.random_vectors(n, r, "uniform", lo, hi)
            need(all(0 <= x <= hi for x in w[:r]) and all(lo <= x <= hi for x in w[r:]),
                 "uniform vector outside the given bounds")
            need(np.all(np.asarray(v[:r]) >= 0), "negative diagonal")
        need(np.shape(v) == (m,), "length of the random vector")
        if c["dist"] == "uniform":
            need(all(l <= x <= u for x, (l, u) in zip(v, b)), "uniform vector outside bounds")
        rho = P.rho_from_vec(v, n, r)
        need(np.all(np.isfinite(rho)), "random state")
        raises(TypeError, lambda: P.random_vectors(n, r, "w"), "unknown distribution")


@group(GROUPS, "standard", ["StandardBasis.rho_from_vec", "StandardBasis.vec_from_rho",
                            "StandardBasis.numb_variables", "StandardBasis.bounds"],
       "d*d real numbers and Hermitian matrices correspond one to one")
class D:
    cases = gen

    def check(c):
        rng = np.random.default_rng(c["s"])
        n = c["n"]
        need(StandardBasis.numb_variables(n) == n * n, "number of variables")
        need(list(map(tuple, StandardBasis.bounds(n))) == [(-1, 1)] * (n * n), "bounds")
        v = rng.normal(size=n * n)
        keep = v.copy()
        h = StandardBasis.rho_from_vec(v, n)
        want = np.zeros((n, n), complex)
        k = 0
        for i in range(n):
            want[i, i] = v[k]
            k += 1
            for j in range(i + 1, n):
                want[i, j] = v[k] + 1j * v[k + 1]
                want[j, i] = v[k] - 1j * v[k + 1]
                k += 2
        close(h, want, "matrix of a vector")
        close(StandardBasis.vec_from_rho(h, n), keep, "vector -> matrix -> vector")
        raises(AssertionError, lambda: StandardBasis.rho_from_vec(np.append(v, 1.), n), "length")
        raises(AssertionError, lambda: StandardBasis.vec_from_rho(h, n + 1), "shape")
