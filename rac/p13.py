"""Action of a channel given by Kraus operators, and of its adjoint."""
from rac.common import *
from PyQCodes.chan._kraus import DenseKraus, SparseKraus
from PyQCodes.chan.channel import AnalyticQChan

GROUPS = []


def chan_cases(rng, tier, nmax=3, cap=64):
    while True:
        qi, qo = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        di, do = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        if rng.random() < 0.4:
            di = do = 2
        numb = int(rng.integers(1, 5))
        n = int(rng.integers(1, nmax + 1))
        din, dout = di ** qi, do ** qo
        if numb * dout < din:
            numb = -(-din // dout)
        if din ** n > cap or dout ** n > cap or numb ** n > cap or (din * dout * numb) ** n > 4e4:
            continue
        yield {"qi": qi, "qo": qo, "di": di, "do": do, "m": numb, "n": n,
               "s": int(rng.integers(1 << 30))}


def make(c, sparse=False, rng=None):
    rng = rng or np.random.default_rng(c["s"])
    ks = rnd_kraus(rng, c["m"], c["di"] ** c["qi"], c["do"] ** c["qo"])
    return ks, [c["qi"], c["qo"]], c["di"], c["do"]


def build(kind, ks, q, di, do, as_list=True):
    arg = [np.array(k) for k in ks] if as_list else np.array(ks)
    if kind == "dense":
        return DenseKraus(arg, q, di, do)
    if kind == "sparse":
        return SparseKraus(arg, q, di, do)
    return AnalyticQChan(arg, q, di, do, sparse=kind == "asparse")


def apply(kind, obj, rho, n, adjoint=False):
    if kind in ("dense", "sparse"):
        obj.update_kraus_operators(n)
        return dense(obj.channel(rho, adjoint=adjoint) if adjoint else obj.channel(rho))
    return dense(obj.channel(rho, n, adjoint=adjoint) if adjoint else obj.channel(rho, n))


KINDS = ["dense", "sparse", "adense", "asparse"]


@group(GROUPS, "action", ["DenseKraus.channel", "SparseKraus.channel", "AnalyticQChan.channel"],
       "channel(rho) = sum K rho K^H over the n-fold Kraus operators, single matrix or batch")
class A:
    def cases(rng, tier):
        for c in chan_cases(rng, tier):
            yield dict(c, kind=KINDS[rng.integers(4)], batch=int(rng.integers(0, 4)),
                       lst=int(rng.integers(2)))

    def check(c):
        rng = np.random.default_rng(c["s"] + 1)
        ks, q, di, do = make(c)
        obj = build(c["kind"], ks, q, di, do, c["lst"])
        d = (di ** q[0]) ** c["n"]
        big = power_ops(ks, c["n"])
        rho = rnd_c(rng, d, d) if c["batch"] == 0 else rnd_c(rng, c["batch"], d, d)
        keep = rho.copy()
        got = apply(c["kind"], obj, rho, c["n"])
        want = apply_kraus(big, rho) if rho.ndim == 2 else np.array([apply_kraus(big, r) for r in rho])
        close(got, want, "channel action (%s, n=%d)" % (c["kind"], c["n"]))
        need(np.array_equal(rho, keep), "the input state was modified")
        if rho.ndim == 2:
            close(np.trace(got), np.trace(rho), "trace preservation")


@group(GROUPS, "adjoint", ["DenseKraus.channel", "SparseKraus.channel", "AnalyticQChan.channel"],
       "tr(X channel(rho)) = tr(channel^dagger(X) rho) for all X, rho")
class B:
    def cases(rng, tier):
        for c in chan_cases(rng, tier):
            yield dict(c, kind=KINDS[rng.integers(4)], lst=int(rng.integers(2)),
                       batch=int(rng.integers(0, 3)))

    def check(c):
        rng = np.random.default_rng(c["s"] + 1)
        ks, q, di, do = make(c)
        obj = build(c["kind"], ks, q, di, do, c["lst"])
        d, e = (di ** q[0]) ** c["n"], (do ** q[1]) ** c["n"]
        x = rnd_c(rng, e, e) if c["batch"] == 0 else rnd_c(rng, c["batch"], e, e)
        big = power_ops(ks, c["n"])
        got = apply(c["kind"], obj, x, c["n"], True)
        back = [k.conj().T for k in big]
        want = apply_kraus(back, x) if x.ndim == 2 else np.array([apply_kraus(back, y) for y in x])
        close(got, want, "adjoint action (%s, n=%d)" % (c["kind"], c["n"]))
        if x.ndim == 2:
            rho = rnd_rho(rng, d)
            close(np.trace(x @ apply(c["kind"], obj, rho, c["n"])), np.trace(got @ rho), "duality")
