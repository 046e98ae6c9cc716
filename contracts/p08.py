"""Syndrome measurement: a Hadamard test of the Hermitian operator i^(number of Y) M(string)."""
from .lib import *
from .circuits import *
from . import p01

STAB = CODES + ":StabilizerCode"


def verify(V):
    for kind in ("str", "array"):
        def setup(it, kind=kind):
            n, N = dim(it, "n"), ivar(it, "N", 0)
            w = {"n": n, "N": N, "kind": kind, "eng": gates.engine(it, N), "reg": gates.register(it, "data", N)}
            if kind == "str":
                a = Seq("str", (Sub(n, lambda j: app("ch", lift(j))),))
                it.ctx.lemmas["ch"] = lambda j: implies(and_(le(ic(0), j), lt(j, n)), p01.legal(app("ch", j)))
                w["want"] = lambda q: (p01.is_x(app("ch", q)), p01.is_z(app("ch", q)))
                w["both"] = lambda q: eq(app("ch", q), p01.CH["Y"])
            else:
                b = lambda c: app("bit:b", lift(c), sort="bool")
                a = it.nd(bits(it, "b", mul(ic(2), n)))
                w["want"] = lambda q: (b(q), b(add(n, q)))
                w["both"] = lambda q: and_(b(q), b(add(n, q)))
            w["self"] = code(it, sub(n, ivar(it, "k", 0, n)), n, var("k"))
            return [w["eng"], w["reg"], a], {}, w

        def post(P, out, env):
            it, n, N = P.it, env["n"], env["N"]
            fits = or_(eq(N, n), eq(N, add(n, ic(1))))
            if out[0] == "raise":
                P.holds("rejected with TypeError", lift(out[1].name == "TypeError"))
                P.holds("only registers of another size are rejected", not_(fits))
                return
            P.holds("registers of another size are rejected", fits)
            s = it.heap["TRACE"]
            own = it.ctx.valid(eq(N, n))
            anc = ("new0", ic(0)) if own else ("data", n)
            secs = sections(P, s, anc)
            if own:
                if not secs or secs[0][1][0] != "alloc" or secs[0][0] != "one":
                    raise Unsupported("the ancilla is allocated first")
                secs = secs[1:]
            P.holds("the ancilla is read when it has been measured", lift(read_when_done(s)))
            A, parts, read = [[[1, 0], [0, 1]]], [], []
            for k, (what, x) in enumerate(secs):
                if what == "controlled":
                    parts.append(x)
                    A.append([[1, 0], [0, 1]])
                elif x[0] == "gate":
                    if read or x[1] not in ONE_QUBIT:
                        raise Unsupported("gate %s on the ancilla" % x[1])
                    A[-1] = mat2(ONE_QUBIT[x[1]], A[-1])
                else:
                    read.append(x)
            kinds = [x[0] for x in read]
            if kinds[:1] != ["measure"] or "alloc" in kinds or any(x[1][0] != anc[0] or not it.ctx.valid(eq(x[1][1], anc[1])) for x in read):
                raise Unsupported("one measurement of the ancilla at the end")
            # diagonal gates between controlled parts commute with them
            while len(A) > 2:
                if A[1][0][1] != 0 or A[1][1][0] != 0:
                    raise Unsupported("ancilla gates between controlled gates")
                A[0:2] = [mat2(A[1], A[0])]
            if len(A) == 1:
                A.append([[1, 0], [0, 1]])
            U = Seq("trace", tuple(p for x in parts for p in x.parts))
            data_keys(P, U, anc, "data", n)
            q = ivar(it, "q", 0, n)
            x, z = env["want"](q)
            product_is_letter(P, U, "data", q, x, z, "controlled letter on qubit q")
            j, = idx(1)
            P.holds("Y stands for X and Z", iff(env["both"](q), and_(x, z)))
            odd = eq(mod(S((j, n), ite(env["both"](j), ic(1), ic(0))), ic(2)), ic(1))
            v = [A[0][0][0], A[0][1][0]]                                   # ancilla before the controlled gates
            ok = {}
            for o in (0, 1):
                good = True
                for bit in (0, 1):
                    # on the eigenspace (-1)^bit of i^o M: the ancilla's |1> picks up (-i)^o (-1)^bit
                    w = [v[0], v[1] * (-1j) ** o * (-1) ** bit]
                    amp = [A[1][m][0] * w[0] + A[1][m][1] * w[1] for m in (0, 1)]
                    hit = [m for m in (0, 1) if abs(amp[m]) > 1e-12]
                    if len(hit) != 1:
                        good = False
                        continue
                    val = out[1]
                    if isinstance(val, E):
                        name = "outcome:" + anc[0]
                        val = repl_outcome(val, name, hit[0])
                    good = good and same(it, val, ic(bit))
                ok[o] = good
            P.holds("the result is the eigenvalue of an operator with an even number of Y", or_(odd, lift(ok[0])))
            P.holds("the result is the eigenvalue of an operator with an odd number of Y", or_(not_(odd), lift(ok[1])))
        V.function(STAB + ".single_syndrome_measurement", setup, post, kind)

    def lemma(P):
        """g E = (-1)^(commutation) E g letter by letter: M(x,z) M(x',z') = (-1)^(x z' + z x') M(x',z') M(x,z)."""
        X, Z = [[0, 1], [1, 0]], [[1, 0], [0, -1]]
        one = [[1, 0], [0, 1]]
        M = {(a, b): mat2(X if a else one, Z if b else one) for a in (0, 1) for b in (0, 1)}
        ok = all(mat2(M[p], M[r]) == [[(-1) ** (p[0] * r[1] + p[1] * r[0]) * y for y in row] for row in mat2(M[r], M[p])]
                 for p in M for r in M)
        P.holds("letters commute or anticommute", lift(ok))
        # M^2 = (-1)^(number of Y): i^odd M is Hermitian with square one
        P.holds("square of a letter", lift(all(mat2(M[p], M[p]) == [[(-1) ** (p[0] * p[1]), 0], [0, (-1) ** (p[0] * p[1])]] for p in M)))
        P.holds("transpose of a letter", lift(all([[M[p][b][a] for b in (0, 1)] for a in (0, 1)] ==
                                                  [[(-1) ** (p[0] * p[1]) * y for y in row] for row in M[p]] for p in M)))
    V.lemma("Pauli errors move the eigenvalue by the commutation bit", lemma)
    V.assume_text("projectq: gates under Control(eng, a) act where a is one; a new or supplied ancilla is in |0>; measuring a qubit whose amplitude "
                  "is on one value returns it and leaves the rest of the state alone",
                  "an encoded state hit by E: g E psi = (-1)^c E g psi = (-1)^c E psi for g = i^(number of Y odd) M(generator) (P06)")


def repl_outcome(val, name, bit):
    return subst_app(val, name, TRUE if bit else FALSE)


def subst_app(e, name, value):
    from pyded.nf import replace
    xs = [x for x in subterms(e) if x.op == "app" and x.args[0] == name]
    for x in xs:
        e = replace(e, {x: value}, {})
    return e
