"""Pauli strings <-> binary rows."""
from rac.common import *
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


@group(GROUPS, "strings_to_rows", ["StabilizerCode.pauli_str_to_binary_representation"],
       "row i has X-part then Z-part of string i; wrong symbols raise ValueError")
class A:
    def cases(rng, tier):
        for n in (1, 2, 3):
            for t in itertools.product("IXYZ", repeat=n):
                yield {"s": ["".join(t)]}
        while True:
            n, m = int(rng.integers(1, 13)), int(rng.integers(1, 9))
            yield {"s": ["".join(rng.choice(list("IXYZ"), n)) for _ in range(m)]}
            s = ["".join(rng.choice(list("IXYZ"), n)) for _ in range(m)]
            i, j = int(rng.integers(m)), int(rng.integers(n))
            bad = str(rng.choice(list("xyziAW 01-E")))
            s[i] = s[i][:j] + bad + s[i][j + 1:]
            yield {"s": s, "bad": 1}

    def check(c):
        s = list(c["s"])
        if c.get("bad"):
            raises(ValueError, lambda: SC.pauli_str_to_binary_representation(s),
                   "unknown symbol in %s" % s)
            return
        got = np.asarray(SC.pauli_str_to_binary_representation(s))
        need(got.ndim == 2, "result is not two-dimensional")
        close(got, np.array([str_to_bits(x) for x in s]), "rows for %s" % s)
        back = [SC.binary_rep_to_pauli_str(r) for r in got]
        need(back == s, "round trip of %s gives %s" % (s, back))


@group(GROUPS, "row_to_string", ["StabilizerCode.binary_rep_to_pauli_str"],
       "every binary row (list or array, int or float) gives its Pauli string and converts back")
class B:
    def cases(rng, tier):
        for n in (1, 2, 3, 4):
            for b in all_bits(2 * n):
                yield {"b": b, "k": "int"}
        while True:
            n = int(rng.integers(1, 40))
            b = rng.integers(0, 2, 2 * n).tolist()
            yield {"b": b, "k": str(rng.choice(["int", "float", "list", "int8"]))}

    def check(c):
        b = c["b"]
        row = {"int": lambda: np.array(b), "float": lambda: np.array(b, dtype=float),
               "int8": lambda: np.array(b, dtype=np.int8), "list": lambda: list(b)}[c["k"]]()
        s = SC.binary_rep_to_pauli_str(row)
        need(s == bits_to_str(b), "row %s gives %r" % (b, s))
        if len(s):
            r = np.asarray(SC.pauli_str_to_binary_representation([s]))
            close(r[0], np.array(b), "round trip of row %s" % b)
