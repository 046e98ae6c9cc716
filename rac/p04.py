"""Standard normal form."""
from rac.common import *
from PyQCodes.codes import StabilizerCode as SC

GROUPS = []


def code_cases(rng, tier, nmax=7, kmin=0, styles=STYLES):
    # every two-qubit code, then random
    for a in all_bits(4):
        if any(a) and kmin <= 1:
            yield {"rows": [a], "n": 2}
    for a in all_bits(6):
        if any(a):
            yield {"rows": [a], "n": 3}
    while True:
        n = int(rng.integers(2, nmax + 1))
        m = int(rng.integers(1, n + 1 - kmin))
        rows = random_code(rng, n, m, styles[rng.integers(len(styles))])
        yield {"rows": rows.tolist(), "n": n}


def relabel(code, rows):
    """Rows of the generators in the qubit order of the normal form."""
    rows = np.asarray(rows)
    n = rows.shape[1] // 2
    order = list(map(int, code.qubit_order))
    return rows[:, order + [n + q for q in order]]


@group(GROUPS, "normal_form", ["StabilizerCode._standard_normal_form",
                               "StabilizerCode._gaussian_elimination_first_block",
                               "StabilizerCode._gaussian_elimination_second_block"],
       "block form [I A1 A2|B C1 C2; 0 0 0|D I E], same group up to the reported qubit order")
class A:
    def cases(rng, tier):
        return code_cases(rng, tier, 8)

    def check(c):
        rows, n = np.array(c["rows"]), c["n"]
        m = len(rows)
        code = SC(rows.copy(), n, n - m)
        nf, r = np.asarray(code.normal_form), code.rank
        need(nf.shape == rows.shape, "shape of normal form")
        need(np.all((nf == 0) | (nf == 1)), "normal form is not binary")
        need(r == gf2_rank(rows[:, :n]), "rank %s, GF(2) rank of X block is %s"
             % (r, gf2_rank(rows[:, :n])))
        close(nf[:r, :r], np.eye(r), "top-left identity block")
        need(not nf[r:, :n].any(), "lower X block is not zero")
        s = m - r
        close(nf[r:, n + r:n + r + s], np.eye(s), "second identity block")
        order = list(map(int, code.qubit_order))
        need(sorted(order) == list(range(n)), "qubit_order is not a permutation")
        moved = rows[:, order + [n + q for q in order]]
        need(same_span(nf, moved), "normal form generates a different group")
        need(np.array_equal(np.array([x for x in code]), nf), "iteration over the code")
        close(code.stab_bin_rep, rows, "original generators were modified")
