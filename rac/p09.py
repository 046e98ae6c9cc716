"""Recovery composed with errors."""
from rac.common import *
from PyQCodes.codes import StabilizerCode as SC
from scipy.sparse import csr_matrix
from sparse import COO

GROUPS = []


@group(GROUPS, "correcting", ["StabilizerCode.kraus_operators_correcting_errors"],
       "error i becomes (anticommuting generator).error when one exists and is unchanged otherwise")
class A:
    def cases(rng, tier):
        for a in all_bits(4):
            if any(a):
                yield {"rows": [a], "n": 2, "errs": all_bits(4), "s": 1, "sparse": 0}
        while True:
            n = int(rng.integers(1, 5))
            m = int(rng.integers(1, n + 1))
            rows = random_code(rng, n, m, STYLES[rng.integers(len(STYLES))])
            errs = rng.integers(0, 2, (int(rng.integers(1, 8)), 2 * n))
            yield {"rows": rows.tolist(), "n": n, "errs": errs.tolist(),
                   "s": int(rng.integers(1 << 30)), "sparse": int(rng.integers(4))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        rows, n = np.array(c["rows"]), c["n"]
        code = SC(rows, n, n - len(rows))
        sc = rng.uniform(0.05, 1., len(c["errs"])) * np.exp(2j * np.pi * rng.random(len(c["errs"])))
        errs = [s * pauli_mat(e) for s, e in zip(sc, c["errs"])]
        arg = [e.copy() for e in errs]
        if c["sparse"] == 1:
            arg = [csr_matrix(e) for e in errs]
        elif c["sparse"] == 3:
            arg = COO(np.array(errs))
        elif c["sparse"] == 2:
            arg = np.array(errs)
        out = code.kraus_operators_correcting_errors(arg, sparse=c["sparse"] in (1, 3))
        need(len(out) == len(errs), "one operator per error expected, got %d" % len(out))
        for e, b, o in zip(errs, c["errs"], out):
            anti = [r for r in rows if symp(r, b)]
            o = dense(o)
            if not anti:
                close(o, e, "error %s commutes with all generators but was changed" % bits_to_str(b))
            else:
                need(any(np.allclose(o, pauli_mat(r) @ e, atol=1e-7) for r in anti),
                     "error %s is not multiplied by a generator it anticommutes with"
                     % bits_to_str(b))
