"""Concatenation of codes."""
from rac.common import *
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


@group(GROUPS, "concatenate", ["StabilizerCode.concatenate_codes"],
       "inner generators on every block, outer generators with each Pauli replaced by the logical "
       "operator of its block; ValueError when the sizes do not divide")
class A:
    def cases(rng, tier):
        while True:
            n = int(rng.integers(1, 6))
            k = int(rng.integers(0, n))
            divs = [l for l in range(1, n + 1) if n % l == 0]
            l = int(rng.choice(divs)) if rng.random() < 0.85 else int(rng.integers(1, 5))
            m = l + int(rng.integers(1, 4))
            if (n // l) * m > 14:
                continue
            o = random_code(rng, n, n - k, STYLES[rng.integers(len(STYLES))])
            i = random_code(rng, m, m - l, STYLES[rng.integers(len(STYLES))])
            yield {"o": o.tolist(), "i": i.tolist(), "n": n, "k": k, "m": m, "l": l}

    def check(c):
        n, k, m, l = c["n"], c["k"], c["m"], c["l"]
        outer, inner = SC(np.array(c["o"]), n, k), SC(np.array(c["i"]), m, l)
        if n % l:
            raises(ValueError, lambda: SC.concatenate_codes(outer, inner), "l does not divide n")
            return
        code = SC.concatenate_codes(outer, inner)
        blocks = n // l
        N = blocks * m
        need(code.n == N and code.k == k, "parameters [%s, %s]" % (code.n, code.k))
        want = []
        for b in range(blocks):
            for r in np.array(c["i"]):
                v = np.zeros(2 * N, dtype=int)
                v[b * m:(b + 1) * m], v[N + b * m:N + (b + 1) * m] = r[:m], r[m:]
                want.append(v)
        back = [list(inner.qubit_order).index(q) for q in range(m)]
        back = back + [m + q for q in back]
        lx, lz = np.asarray(inner.logical_x)[:, back], np.asarray(inner.logical_z)[:, back]
        for r in np.array(c["o"]):
            v = np.zeros(2 * N, dtype=int)
            for q in range(n):
                b, w = divmod(q, l)
                op = (r[q] * lx[w] + r[n + q] * lz[w]) % 2
                v[b * m:(b + 1) * m] ^= op[:m].astype(int)
                v[N + b * m:N + (b + 1) * m] ^= op[m:].astype(int)
            want.append(v)
        got = np.asarray(code.stab_bin_rep)
        need(got.shape == (N - k, 2 * N), "number of generators")
        need(same_span(got, np.array(want)), "concatenated code has another stabilizer group")
