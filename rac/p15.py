"""n-fold use of a channel does not depend on what was asked before."""
from rac.common import *
from rac.p13 import make, build, apply, KINDS
from rac.p14 import exch, oracle

GROUPS = []


@group(GROUPS, "history", ["Kraus.update_kraus_operators", "SparseKraus._tensor_kraus_operators",
                           "DenseKraus._tensor_kraus_operators", "Kraus._kraus_operators_exchange",
                           "AnalyticQChan._update_channel_tensored"],
       "after any sequence of requests the n-fold channel is K_{i1} x ... x K_{in}, first factor "
       "slowest, and every query answers as on a fresh object")
class A:
    def cases(rng, tier):
        for kind in KINDS:
            for a in range(1, 5):
                for b in range(1, 5):
                    yield {"qi": 1, "qo": 1, "di": 2, "do": 2, "m": 2, "kind": kind,
                           "seq": [[a, "chan"], [b, "chan"], [b, "exch"]], "s": a * 7 + b}
        while True:
            m = int(rng.integers(1, 4))
            seq = [[int(rng.integers(1, 5 if m < 3 else 4)),
                    ["chan", "adj", "exch", "exadj", "ops", "dims"][rng.integers(6)]]
                   for _ in range(int(rng.integers(2, 6)))]
            yield {"qi": 1, "qo": 1, "di": int(rng.integers(1, 3)), "do": 2, "m": m,
                   "kind": KINDS[rng.integers(4)], "seq": seq, "s": int(rng.integers(1 << 30))}

    def check(c):
        rng = np.random.default_rng(c["s"] + 1)
        ks, q, di, do = make(c)
        obj = build(c["kind"], ks, q, di, do)
        plain = c["kind"] in ("dense", "sparse")
        for step, (n, what) in enumerate(c["seq"]):
            big = power_ops(ks, n)
            rho = rnd_rho(rng, di ** n)
            msg = "%s at n=%d after %s" % (what, n, c["seq"][:step])
            if what == "chan":
                close(apply(c["kind"], obj, rho, n), apply_kraus(big, rho), msg)
            elif what == "adj":
                x = rnd_c(rng, do ** n, do ** n)
                close(apply(c["kind"], obj, x, n, True),
                      apply_kraus([k.conj().T for k in big], x), msg)
            elif what == "exch":
                close(dense(exch(c["kind"], obj, rho, n)[0]), oracle(big, rho), msg)
            elif what == "exadj":
                e = c["m"] ** n
                x = rnd_c(rng, e, e)
                x = x + x.conj().T
                got = dense(exch(c["kind"], obj, x, n, True))
                close(np.trace(got @ rho), np.trace(x @ oracle(big, rho)), msg)
            elif what == "ops":
                if plain:
                    obj.update_kraus_operators(n)
                    got = obj.nth_kraus_ops
                else:
                    obj.channel(rho, n)
                    got = obj.nth_kraus_operators
                close(dense(got), np.array(big), msg)
            else:
                if plain:
                    obj.update_kraus_operators(n)
                    need(obj.current_n == n, msg)
                else:
                    obj.channel(rho, n)
                    need(obj.input_dimension == di ** n and obj.output_dimension == do ** n, msg)
            base = dense(obj.kraus_ops if plain else obj.kraus)
            close(base, ks, "single-use Kraus operators changed, " + msg)
