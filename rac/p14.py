"""Complementary channel (entropy exchange)."""
from rac.common import *
from rac.p13 import chan_cases, make, build, KINDS
from PyQCodes.chan._kraus import DenseKraus
from PyQCodes.chan.channel import AnalyticQChan

GROUPS = []


def exch(kind, obj, rho, n, adjoint=False):
    if kind in ("dense", "sparse"):
        obj.update_kraus_operators(n)
    return obj.entropy_exchange(rho, n, adjoint) if adjoint else obj.entropy_exchange(rho, n)


def oracle(big, rho):
    return np.array([[np.trace(a @ rho @ b.conj().T) for b in big] for a in big])


@group(GROUPS, "exchange", ["DenseKraus.entropy_exchange", "SparseKraus.entropy_exchange",
                            "AnalyticQChan.entropy_exchange"],
       "W_ij = tr(K_i rho K_j^H) for the n-fold Kraus operators")
class A:
    def cases(rng, tier):
        for c in chan_cases(rng, tier, cap=32):
            yield dict(c, kind=KINDS[rng.integers(4)])

    def check(c):
        rng = np.random.default_rng(c["s"] + 1)
        ks, q, di, do = make(c)
        obj = build(c["kind"], ks, q, di, do)
        rho = rnd_rho(rng, (di ** q[0]) ** c["n"])
        got = exch(c["kind"], obj, rho, c["n"])
        need(isinstance(got, list) and len(got) == 1, "a list with one matrix expected")
        w = oracle(power_ops(ks, c["n"]), rho)
        close(dense(got[0]), w, "entropy exchange (%s, n=%d)" % (c["kind"], c["n"]))
        close(np.trace(dense(got[0])), 1, "trace of the entropy exchange")


@group(GROUPS, "exchange_adjoint", ["DenseKraus.entropy_exchange", "SparseKraus.entropy_exchange",
                                    "AnalyticQChan.entropy_exchange"],
       "the adjoint of the complementary channel is dual to it")
class B:
    def cases(rng, tier):
        for c in chan_cases(rng, tier, cap=32):
            yield dict(c, kind=KINDS[rng.integers(4)])

    def check(c):
        rng = np.random.default_rng(c["s"] + 1)
        ks, q, di, do = make(c)
        obj = build(c["kind"], ks, q, di, do)
        d, e = (di ** q[0]) ** c["n"], c["m"] ** c["n"]
        x, rho = rnd_c(rng, e, e), rnd_c(rng, d, d)
        x = x + x.conj().T          # Hermitian observable
        rho = rho + rho.conj().T
        got = dense(exch(c["kind"], obj, x, c["n"], True))
        w = oracle(power_ops(ks, c["n"]), rho)
        need(got.shape == (d, d), "shape of the adjoint")
        close(np.trace(got @ rho), np.trace(x @ w), "duality of the complementary channel")


@group(GROUPS, "orthogonal_blocks", ["DenseKraus.entropy_exchange"],
       "with groups of mutually orthogonal Kraus operators the blocks returned are exactly the "
       "diagonal blocks of the entropy exchange matrix, and the rest of the matrix is zero")
class C:
    def cases(rng, tier):
        while True:
            parts = [int(x) for x in rng.integers(1, 4, int(rng.integers(2, 4)))]
            yield {"parts": parts, "d": int(rng.integers(2, 4)), "n": int(rng.integers(1, 3)),
                   "s": int(rng.integers(1 << 30)), "a": int(rng.integers(2))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        d, parts, n = c["d"], c["parts"], c["n"]
        m = sum(parts)
        # direct-sum output space: group g maps into its own subspace of dimension d
        ks = rnd_kraus(rng, m, d, d)
        full = np.zeros((m, d * len(parts), d), dtype=complex)
        at = 0
        for g, p in enumerate(parts):
            for _ in range(p):
                full[at, g * d:(g + 1) * d] = ks[at]
                at += 1
        split = [int(x) for x in np.cumsum(parts)[:-1]]
        if (m ** n) * (d ** n) > 400:
            n = 1
        if c["a"]:
            obj = AnalyticQChan(list(full), [1, 1], d, d * len(parts), orthogonal_krauss=split)
        else:
            obj = DenseKraus(list(full), [1, 1], d, d * len(parts), orthogonal_kraus=split)
            obj.update_kraus_operators(n)
        rho = rnd_rho(rng, d ** n)
        got = [dense(x) for x in obj.entropy_exchange(rho, n)]
        w = oracle(power_ops(full, n), rho)
        need(len(got) == len(parts), "number of blocks")
        at = 0
        for g, p in zip(got, parts):
            size = p * m ** (n - 1)
            close(g, w[at:at + size, at:at + size], "block of the entropy exchange")
            at += size
