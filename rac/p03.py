"""Construction of stabilizer codes."""
from rac.common import *
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


def build(rows, n, k, kind, logical=None):
    if kind == "str":
        arg = [bits_to_str(r) for r in rows]
    elif kind == "list":
        arg = [list(map(int, r)) for r in rows]
    else:
        arg = np.array(rows, dtype=float if kind == "float" else int)
    return SC(arg, n, k) if logical is None else SC(arg, n, k, logical)


def check_meta(code, rows, n, k):
    need(code.n == n and code.k == k and code.dim_code_space == k, "n, k reported as %s, %s (%s)" % (code.n, code.k, code.dim_code_space))
    close(code.stab_bin_rep, np.array(rows), "generators reported")
    need(list(code.pauli_stab) == [bits_to_str(r) for r in rows], "pauli strings reported")


@group(GROUPS, "accepts_iff_commuting", ["StabilizerCode.__init__",
                                         "StabilizerCode._is_stabilizer_code"],
       "accepted (with the right metadata) iff all pairs commute; AssertionError otherwise")
class A:
    def cases(rng, tier):
        kinds = ["str", "int", "list", "float"]
        for a in all_bits(4):
            for b in all_bits(4):
                yield {"rows": [a, b], "n": 2, "k": 0, "kind": kinds[(sum(a) + sum(b)) % 3]}
        while True:
            n = int(rng.integers(2, 8))
            m = int(rng.integers(1, n + 1))
            rows = random_code(rng, n, m, STYLES[rng.integers(len(STYLES))])
            kind = kinds[rng.integers(4)]
            yield {"rows": rows.tolist(), "n": n, "k": n - m, "kind": kind}
            if m >= 2:
                i = int(rng.integers(m))
                r2 = rows.copy()
                # break exactly one pair where possible
                for _ in range(50):
                    v = rng.integers(0, 2, 2 * n)
                    bad = [symp(v, r) for q, r in enumerate(rows) if q != i]
                    if sum(bad) == 1:
                        r2[i] = v
                        break
                else:
                    r2[i] = rng.integers(0, 2, 2 * n)
                yield {"rows": r2.tolist(), "n": n, "k": n - m, "kind": kind}

    def check(c):
        rows, n, k = np.array(c["rows"]), c["n"], c["k"]
        comm = all(symp(a, b) == 0 for a in rows for b in rows)
        if comm:
            if gf2_rank(rows) < len(rows):
                return  # dependent generators are outside the contract
            check_meta(build(rows, n, k, c["kind"]), rows, n, k)
        else:
            raises(AssertionError, lambda: build(rows, n, k, c["kind"]),
                   "non-commuting generators %s" % c["rows"])


@group(GROUPS, "rejects_wrong_shape", ["StabilizerCode.__init__"],
       "generators of another length or another number are rejected with AssertionError")
class B:
    def cases(rng, tier):
        kinds = ["str", "int", "list", "float"]
        while True:
            n = int(rng.integers(2, 6))
            m = int(rng.integers(1, n + 1))
            rows = random_code(rng, n, m)
            dn, dk = int(rng.integers(-2, 3)), int(rng.integers(-2, 3))
            yield {"rows": rows.tolist(), "n": n + dn, "k": n - m + dk, "kind": kinds[rng.integers(4)],
                   "good": dn == 0 and dk == 0}

    def check(c):
        f = lambda: build(np.array(c["rows"]), c["n"], c["k"], c["kind"])
        if c["good"]:
            check_meta(f(), c["rows"], c["n"], c["k"])
        else:
            raises(AssertionError, f, "shape mismatch n=%d k=%d rows=%s"
                   % (c["n"], c["k"], np.shape(c["rows"])))


@group(GROUPS, "logical_ops_argument", ["StabilizerCode.__init__"],
       "user logical operators are kept as given; wrong type or width is rejected")
class L:
    def cases(rng, tier):
        while True:
            n = int(rng.integers(2, 6))
            m = int(rng.integers(1, n))
            rows = random_code(rng, n, m)
            yield {"rows": rows.tolist(), "n": n, "k": n - m, "s": int(rng.integers(1 << 30)),
                   "how": ["ok", "xw", "zw", "xl", "zl"][rng.integers(5)]}

    def check(c):
        rng = np.random.default_rng(c["s"])
        n, k = c["n"], c["k"]
        w = {"x": 2 * n, "z": 2 * n}
        if c["how"] in ("xw", "zw"):
            w[c["how"][0]] += int(rng.choice([-1, 1]))
        lx, lz = (rng.integers(0, 2, (k, w[a])) for a in "xz")
        arg = [lx.copy(), lz.copy()]
        if c["how"] == "xl":
            arg[0] = lx.tolist()
        if c["how"] == "zl":
            arg[1] = lz.tolist()
        f = lambda: build(c["rows"], n, k, "int", arg)
        if c["how"] == "ok":
            code = f()
            close(code.logical_x, lx, "logical X given")
            close(code.logical_z, lz, "logical Z given")
        else:
            raises(AssertionError, f, "bad logical_ops (%s)" % c["how"])
