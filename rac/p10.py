"""Normalizer and undetectable errors."""
from rac.common import *
from rac.p04 import code_cases
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


@group(GROUPS, "normalizer", ["StabilizerCode.normalizer", "StabilizerCode.undetectable_errors"],
       "exactly the Pauli elements commuting with all generators that are not products of them")
class A:
    def cases(rng, tier):
        return code_cases(rng, tier, 4)

    def check(c):
        rows, n = np.array(c["rows"]), c["n"]
        code = SC(rows, n, n - len(rows))
        group_ = {tuple(np.array(t) @ rows % 2) for t in all_bits(len(rows))}
        want = {tuple(b) for b in all_bits(2 * n)
                if all(symp(b, r) == 0 for r in rows) and tuple(b) not in group_}
        got = [tuple(int(v) for v in x) for x in code.normalizer()]
        need(len(set(got)) == len(got), "duplicates in the normalizer")
        need(set(got) == want, "normalizer: %d elements, expected %d" % (len(got), len(want)))
        und = list(code.undetectable_errors())
        need(sorted(und) == sorted(bits_to_str(b) for b in want), "undetectable errors")
