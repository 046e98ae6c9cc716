"""Entropy, coherent information, fidelity."""
from rac.common import *
from rac.p13 import chan_cases, make, build
from rac.p14 import oracle
from PyQCodes.chan.channel import AnalyticQChan

GROUPS = []


def any_chan():
    return AnalyticQChan([np.eye(2)], [1, 1], 2, 2)


@group(GROUPS, "entropy", ["AnalyticQChan.entropy"],
       "-tr(rho log2 rho); a list of blocks has the sum of the entropies; zero eigenvalues add nothing")
class A:
    def cases(rng, tier):
        while True:
            yield {"d": [int(x) for x in rng.integers(1, 7, int(rng.integers(1, 4)))],
                   "lst": int(rng.integers(2)), "s": int(rng.integers(1 << 30)),
                   "sparse": int(rng.integers(2))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        mats = [rnd_rho(rng, d, int(rng.integers(1, d + 1))) * rng.uniform(0.2, 1) for d in c["d"]]
        ch = AnalyticQChan([np.eye(2)], [1, 1], 2, 2, sparse=bool(c["sparse"]))
        if c["lst"]:
            close(ch.entropy(mats), sum(entropy_bits(m) for m in mats), "entropy of a list")
        else:
            close(ch.entropy(mats[0]), entropy_bits(mats[0]), "entropy")
            r = rnd_rho(rng, c["d"][0], 1)
            close(ch.entropy(r), 0, "entropy of a pure state")
            d = c["d"][0]
            close(ch.entropy(np.eye(d) / d), np.log2(d), "entropy of the maximally mixed state")


@group(GROUPS, "coherent", ["AnalyticQChan.coherent_information"],
       "S(N(rho)) - S(N^c(rho)) for the n-fold channel, divided by n when regularized")
class B:
    def cases(rng, tier):
        for c in chan_cases(rng, tier, cap=32):
            yield dict(c, sparse=int(rng.integers(2)), reg=int(rng.integers(2)),
                       r=int(rng.integers(1, 5)))

    def check(c):
        rng = np.random.default_rng(c["s"] + 1)
        ks, q, di, do = make(c)
        ch = build("asparse" if c["sparse"] else "adense", ks, q, di, do)
        d = (di ** q[0]) ** c["n"]
        rho = rnd_rho(rng, d, min(c["r"], d))
        big = power_ops(ks, c["n"])
        want = entropy_bits(apply_kraus(big, rho)) - entropy_bits(oracle(big, rho))
        if c["reg"]:
            got = ch.coherent_information(rho, c["n"], regularized=True)
            want = want / c["n"]
        else:
            got = ch.coherent_information(rho, c["n"])
        close(got, want, "coherent information n=%d" % c["n"], 1e-5)


@group(GROUPS, "coherent_orthogonal", ["AnalyticQChan.coherent_information",
                                       "DenseKraus.entropy_exchange", "AnalyticQChan.entropy"],
       "declaring orthogonal Kraus groups does not change the coherent information")
class C:
    def cases(rng, tier):
        while True:
            yield {"p": float(rng.random()), "e": float(rng.random()), "n": int(rng.integers(1, 4)),
                   "s": int(rng.integers(1 << 30)), "which": int(rng.integers(2))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        p, e = c["p"], c["e"]
        emb = np.array([[1, 0], [0, 1], [0, 0.]])
        e1, e2 = np.zeros((3, 2)), np.zeros((3, 2))
        e1[2, 0] = e2[2, 1] = 1
        if c["which"]:
            ks = [np.sqrt(1 - e) * emb, np.sqrt(e) * e1, np.sqrt(e) * e2]
            split = [1]
        else:
            z = emb @ np.diag([1, -1])
            ks = [np.sqrt((1 - e) * (1 - p)) * emb, np.sqrt((1 - e) * p) * z, np.sqrt(e) * e1,
                  np.sqrt(e) * e2]
            split = [2]
        n = min(c["n"], 2 if not c["which"] else 3)
        rho = rnd_rho(rng, 2 ** n)
        got = AnalyticQChan(ks, [1, 1], 2, 3, orthogonal_krauss=split).coherent_information(rho, n)
        big = power_ops(ks, n)
        want = entropy_bits(apply_kraus(big, rho)) - entropy_bits(oracle(big, rho))
        close(got, want, "coherent information with orthogonal Kraus groups", 1e-5)


@group(GROUPS, "fidelity", ["AnalyticQChan.fidelity_two_states"],
       "fidelity tr sqrt(sqrt(rho) N(rho) sqrt(rho)) between the input and the channel output")
class D:
    def cases(rng, tier):
        while True:
            yield {"q": int(rng.integers(1, 3)), "m": int(rng.integers(1, 4)),
                   "n": int(rng.integers(1, 3)), "sparse": int(rng.integers(2)),
                   "pure": int(rng.integers(2)), "s": int(rng.integers(1 << 30)),
                   "choi": int(rng.integers(3))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        d = 2 ** c["q"]
        ks = rnd_kraus(rng, c["m"], d, d)
        n = c["n"] if c["choi"] or c["q"] == 1 else 1
        if c["choi"] == 0:
            n = 1
            from rac.p18 import choi_of
            ch = AnalyticQChan(choi_of(ks), [c["q"], c["q"]], 2, 2)
        else:
            ch = AnalyticQChan(list(ks), [c["q"], c["q"]], 2, 2, sparse=bool(c["sparse"]))
        if d ** n > 8:
            n = 1
        rho = rnd_rho(rng, d ** n, 1 if c["pure"] else None)
        out = apply_kraus(power_ops(ks, n), rho)
        w, v = np.linalg.eigh(rho)
        sq = (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T
        ev = np.linalg.eigvalsh(sq @ out @ sq)
        want = np.sum(np.sqrt(np.clip(ev, 0, None)))
        got = ch.fidelity_two_states(rho, n)
        close(got, want, "fidelity", 1e-5 if not c["pure"] else 1e-3)
