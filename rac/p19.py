"""Average entanglement fidelity."""
from rac.common import *
from rac.p18 import choi_of
from PyQCodes.chan._choi import ChoiQutip
from PyQCodes.chan._kraus import DenseKraus, SparseKraus
from PyQCodes.chan.channel import AnalyticQChan

GROUPS = []


@group(GROUPS, "avg_entanglement_fidelity",
       ["DenseKraus.average_entanglement_fidelity", "SparseKraus.average_entanglement_fidelity",
        "ChoiQutip.average_entanglement_fidelity", "AnalyticQChan.average_entanglement_fidelity"],
       "sum_i p_i sum_K |tr(K rho_i)|^2 whatever the representation")
class A:
    def cases(rng, tier):
        while True:
            q, d = int(rng.integers(1, 3)), int(rng.integers(2, 4))
            if d ** q > 8:
                continue
            yield {"q": q, "d": d, "m": int(rng.integers(1, 5)), "e": int(rng.integers(1, 5)),
                   "kind": ["dense", "sparse", "choi", "adense", "asparse", "achoi"][rng.integers(6)],
                   "n": int(rng.integers(1, 3)), "s": int(rng.integers(1 << 30))}

    def check(c):
        rng = np.random.default_rng(c["s"])
        d = c["d"] ** c["q"]
        ks = rnd_kraus(rng, c["m"], d, d)
        p = rng.random(c["e"])
        p = list(p / p.sum())
        rho = [rnd_rho(rng, d, int(rng.integers(1, d + 1))) for _ in p]
        q = [c["q"], c["q"]]
        k = c["kind"].lstrip("a") if c["kind"][0] == "a" else c["kind"]
        if c["kind"][0] == "a":
            o = AnalyticQChan(choi_of(ks) if k == "choi" else list(ks), q, c["d"], c["d"],
                              sparse=k == "sparse")
            if k != "choi" and d <= 4:
                o.channel(rnd_rho(rng, d ** c["n"]), c["n"])
        elif k == "choi":
            o = ChoiQutip(choi_of(ks), q, c["d"], c["d"])
        else:
            o = {"dense": DenseKraus, "sparse": SparseKraus}[k](list(ks), q, c["d"], c["d"])
        want = sum(pi * sum(abs(np.trace(a @ r)) ** 2 for a in ks) for pi, r in zip(p, rho))
        got = o.average_entanglement_fidelity(p, rho)
        # Recorded finding: the dense form sums every entry of K.rho, the sparse form takes the
        # trace over the operator index; exactly these values are that finding, anything else is not.
        if k == "dense":
            old = sum(pi * sum(abs(np.sum(a @ r)) ** 2 for a in ks) for pi, r in zip(p, rho))
        elif k == "sparse":
            old = sum(pi * np.sum(np.abs(np.trace(np.matmul(ks, r))) ** 2) for pi, r in zip(p, rho))
        if k in ("dense", "sparse") and abs(got - want) > 1e-6 and abs(got - old) < 1e-7:
            raise Known("P19-%s" % k, "average_entanglement_fidelity of %s Kraus operators is %.4f "
                        "instead of %.4f" % (k, got, want))
        close(got, want, "average entanglement fidelity (%s)"
              % c["kind"])


@group(GROUPS, "choi_square_only", ["ChoiQutip.average_entanglement_fidelity"],
       "a Choi channel between different dimensions is rejected with ValueError")
class B:
    def cases(rng, tier):
        for i in range(5):
            yield {"s": i}

    def check(c):
        rng = np.random.default_rng(c["s"])
        o = ChoiQutip(choi_of(rnd_kraus(rng, 2, 2, 4)), [1, 2], 2, 2)
        raises(ValueError, lambda: o.average_entanglement_fidelity([1.], [np.eye(2) / 2]), "non-square")
