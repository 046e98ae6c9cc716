"""Only trace-preserving, correctly dimensioned Kraus sets become channels."""
from rac.common import *
from rac.p13 import chan_cases, make, build
from PyQCodes.chan.channel import AnalyticQChan
from PyQCodes.chan._kraus import DenseKraus, SparseKraus

GROUPS = []


@group(GROUPS, "gate", ["AnalyticQChan.__init__", "DenseKraus.is_trace_perserving",
                        "SparseKraus.is_trace_perserving"],
       "accepted iff sum K^H K = I, for dense and sparse alike")
class A:
    def cases(rng, tier):
        for c in chan_cases(rng, tier, nmax=1):
            yield dict(c, sparse=int(rng.integers(2)), lst=int(rng.integers(2)),
                       how=["ok", "scale", "drop", "one", "phase", "offdiag", "sum"][rng.integers(7)])

    def check(c):
        rng = np.random.default_rng(c["s"] + 3)
        ks, q, di, do = make(c)
        ks = np.array(ks)
        if c["how"] == "scale":
            ks *= rng.choice([0.9, 1.1, 0.5, 1.001, 0.999])
        elif c["how"] == "drop" and len(ks) > 1:
            ks = ks[:-1]
        elif c["how"] == "one":
            ks[rng.integers(len(ks))] *= 1.01
        elif c["how"] == "phase":
            ks = ks * np.exp(2j * np.pi * rng.random((len(ks), 1, 1)))
        elif c["how"] == "offdiag":
            # right diagonal, wrong off-diagonal of sum K^H K
            d = ks.shape[2]
            u = np.eye(d, dtype=complex)
            if d > 1:
                t = 0.3
                u[0, 1], u[1, 1] = np.sin(t) * np.exp(1j * rng.random()), np.cos(t)
            ks = ks @ u
        elif c["how"] == "sum":
            # trace of sum K^H K right, not the identity
            d = ks.shape[2]
            if d > 1:
                w = np.ones(d)
                w[0], w[1] = 1.2, 0.8
                ks = ks @ np.diag(np.sqrt(w))
        good = np.max(np.abs(sum(k.conj().T @ k for k in ks) - np.eye(ks.shape[2]))) < 1e-9
        arg = list(ks) if c["lst"] else ks
        cls = SparseKraus if c["sparse"] else DenseKraus
        need(bool(cls(arg, q, di, do).is_trace_perserving()) == good,
             "is_trace_perserving should be %s (%s)" % (good, c["how"]))
        f = lambda: AnalyticQChan(arg, q, di, do, sparse=bool(c["sparse"]))
        if good:
            ch = f()
            close(dense(ch.kraus), ks, "Kraus operators kept")
            need(ch.input_dimension == ks.shape[2] and ch.output_dimension == ks.shape[1], "dims")
            need(ch.numb_krauss == len(ks), "number of Kraus operators")
            need(ch.dim_in == di and ch.dim_out == do and list(ch.numb_qubits) == list(q), "meta")
        else:
            raises(AssertionError, f, "channel that is not trace preserving (%s)" % c["how"])


@group(GROUPS, "dimensions", ["Kraus.__init__"],
       "Kraus operators whose shape differs from the stated dimensions are rejected")
class B:
    def cases(rng, tier):
        for c in chan_cases(rng, tier, nmax=1):
            yield dict(c, sparse=int(rng.integers(2)), w=["di", "do", "qi", "qo"][rng.integers(4)],
                       d=int(rng.choice([-1, 1])), api=int(rng.integers(2)))

    def check(c):
        ks, q, di, do = make(c)
        p = {"di": di, "do": do, "qi": q[0], "qo": q[1]}
        p[c["w"]] += c["d"]
        if p["di"] ** p["qi"] == di ** q[0] and p["do"] ** p["qo"] == do ** q[1]:
            return
        cls = SparseKraus if c["sparse"] else DenseKraus
        f = lambda: cls(list(ks), [p["qi"], p["qo"]], p["di"], p["do"])
        if c["api"]:
            f = lambda: AnalyticQChan(list(ks), [p["qi"], p["qo"]], p["di"], p["do"],
                                      sparse=bool(c["sparse"]))
        raises(AssertionError, f, "wrong dimension %s" % p)


@group(GROUPS, "types", ["Kraus.__init__", "AnalyticQChan.__init__"],
       "other operator types are rejected with TypeError")
class T:
    def cases(rng, tier):
        for k in range(4):
            yield {"k": k}

    def check(c):
        bad = ["XX", (np.eye(2),), 3, {1: np.eye(2)}][c["k"]]
        for f in (lambda: AnalyticQChan(bad, [1, 1], 2, 2), lambda: DenseKraus(bad, [1, 1], 2, 2)):
            raises(TypeError, f, "operator of type %s" % type(bad))
