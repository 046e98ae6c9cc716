"""Choi matrices."""
from rac.common import *
from rac.p13 import chan_cases
from PyQCodes.chan._choi import ChoiQutip
from PyQCodes.chan.channel import AnalyticQChan

GROUPS = []


def choi_of(ks):
    return sum(np.outer(np.ravel(k, order="F"), np.conj(np.ravel(k, order="F"))) for k in ks)


def gen(rng, tier):
    while True:
        qi, qo = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        di, do = int(rng.integers(2, 4)), int(rng.integers(2, 4))
        if di ** qi * do ** qo > 24:
            continue
        m = int(rng.integers(1, 5))
        m = max(m, -(-di ** qi // do ** qo))
        yield {"qi": qi, "qo": qo, "di": di, "do": do, "m": m, "s": int(rng.integers(1 << 30)),
               "api": int(rng.integers(2))}


def setup(c):
    rng = np.random.default_rng(c["s"])
    ks = rnd_kraus(rng, c["m"], c["di"] ** c["qi"], c["do"] ** c["qo"])
    ch = choi_of(ks)
    q = [c["qi"], c["qo"]]
    if c.get("api"):
        a = AnalyticQChan(ch, q, c["di"], c["do"])
        return rng, ks, ch, a, a.choi
    o = ChoiQutip(ch, q, c["di"], c["do"])
    return rng, ks, ch, o, o


@group(GROUPS, "choi_channel", ["ChoiQutip.channel", "AnalyticQChan.channel"],
       "the channel of a Choi matrix sum vec(K)vec(K)^H is rho -> sum K rho K^H")
class A:
    cases = gen

    def check(c):
        rng, ks, ch, o, _ = setup(c)
        rho = rnd_rho(rng, ks.shape[2])
        got = o.channel(rho, 1) if c["api"] else o.channel(rho)
        close(np.asarray(got), apply_kraus(ks, rho), "Choi channel action")
        x = rng.normal(size=(ks.shape[1],) * 2) + 1j * rng.normal(size=(ks.shape[1],) * 2)
        got = o.channel(x, 1, True) if c["api"] else o.channel(x, adjoint=True)
        close(np.asarray(got), sum(k.conj().T @ x @ k for k in ks), "Choi adjoint action")
        if c["api"]:
            need(o.input_dimension == ks.shape[2] and o.output_dimension == ks.shape[1], "dims")


@group(GROUPS, "choi_kraus", ["ChoiQutip.kraus_operators", "AnalyticQChan.kraus"],
       "extracted Kraus operators reproduce the Choi matrix")
class B:
    cases = gen

    def check(c):
        rng, ks, ch, o, _ = setup(c)
        got = list(o.kraus if c["api"] else o.kraus_operators())
        need(all(np.shape(k) == ks[0].shape for k in got), "shape of extracted operators")
        close(choi_of(got), ch, "Choi matrix of the extracted Kraus operators")


@group(GROUPS, "choi_complementary", ["ChoiQutip.complementary_channel",
                                      "AnalyticQChan.coherent_information"],
       "the complementary matrix has the spectrum of the entropy exchange matrix")
class C:
    cases = gen

    def check(c):
        rng, ks, ch, o, choi = setup(c)
        rho = rnd_rho(rng, ks.shape[2])
        w = np.array([[np.trace(a @ rho @ b.conj().T) for b in ks] for a in ks])
        ent = entropy_bits(w)
        close(entropy_bits(choi.complementary_channel(rho)), ent, "entropy of complementary", 1e-5)
        if c["api"]:
            close(o.coherent_information(rho, 1), entropy_bits(apply_kraus(ks, rho)) - ent,
                  "coherent information from a Choi matrix", 1e-5)


@group(GROUPS, "choi_gate", ["ChoiQutip.__init__"],
       "a matrix that is not trace preserving, not positive or of another size is rejected")
class D:
    def cases(rng, tier):
        for c in gen(rng, tier):
            yield dict(c, how=["tp", "cp", "shape"][rng.integers(3)])

    def check(c):
        rng, ks, ch, o, choi = setup(c)
        q = [c["qi"], c["qo"]]
        if c["how"] == "tp":
            raises(AssertionError, lambda: ChoiQutip(ch * rng.choice([0.9, 1.1]), q, c["di"], c["do"]),
                   "Choi matrix that is not trace preserving")
        elif c["how"] == "cp":
            # trace preserving, Hermitian, not positive: mix of the channel and traceless outputs
            d, e = ks.shape[2], ks.shape[1]
            h = np.diag([1.0, -1.0] + [0.0] * (e - 2))
            bad = ch + 5 * np.kron(np.diag([1.] + [0.] * (d - 1)), h)
            raises(AssertionError, lambda: ChoiQutip(bad, q, c["di"], c["do"]), "non-positive Choi")
        else:
            q2 = [q[0], q[1] + 1]
            raises(ValueError, lambda: ChoiQutip(ch, q2, c["di"], c["do"]), "Choi shape")
