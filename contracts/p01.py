"""P01: Pauli strings and binary rows are inverse encodings."""
from .lib import *

ENC = CODES + ":StabilizerCode.pauli_str_to_binary_representation"
DEC = CODES + ":StabilizerCode.binary_rep_to_pauli_str"
CH = {c: ic(ord(c)) for c in "IXYZ"}


def strings(it, m, n, name="ch"):
    """m strings of n arbitrary characters."""
    return Lst(it.new(Seq("list", (Sub(m, lambda i: Seq("str", (Sub(n, lambda j: app(name, lift(i), lift(j))),))),))))


def is_x(c):
    return or_(eq(c, CH["X"]), eq(c, CH["Y"]))


def is_z(c):
    return or_(eq(c, CH["Z"]), eq(c, CH["Y"]))


def letter(x, z):
    """The character of the bits x, z (as booleans)."""
    return ite(x, ite(z, CH["Y"], CH["X"]), ite(z, CH["Z"], CH["I"]))


def legal(c):
    return or_(*[eq(c, v) for v in CH.values()])


def bad(m, n, name="ch"):
    i, j = fresh("i"), fresh("j")
    return exists(i, m, exists(j, n, not_(legal(app(name, i, j)))))


def verify(V):
    def setup(it):
        m, n = dim(it, "m"), ivar(it, "n", 1)
        return [strings(it, m, n)], {}, {"m": m, "n": n}

    def post(P, out, env):
        it, m, n = P.it, env["m"], env["n"]
        if out[0] == "raise":
            P.holds("rejected with ValueError", lift(out[1].name == "ValueError"))
            return P.holds("only strings with other symbols are rejected", bad(m, n))
        if not returns(P, out):
            return
        i, j = fresh("i"), fresh("j")
        c = it.ctx.clone()
        c.assume(and_(le(ic(0), i), lt(i, m), le(ic(0), j), lt(j, n)))
        P.holds("strings with other symbols are not accepted", legal(app("ch", i, j)), c)
        a = it.arr(out[1])
        want = Arr((m, mul(ic(2), n)), lambda i, c: ite(lt(c, n), ite(is_x(app("ch", i, c)), ic(1), ic(0)),
                                                        ite(is_z(app("ch", i, sub(c, n))), ic(1), ic(0))), "int")
        P.equal("row i encodes string i", a, want)
    V.function(ENC, setup, post, "any strings")

    for kind in ("int array", "float array", "list"):
        def setup(it, kind=kind):
            n = ivar(it, "n", 0)
            b = bits(it, "b", mul(ic(2), n))
            if kind == "list":
                row = Lst(it.new(Seq("list", (Sub(mul(ic(2), n), lambda j: b.fn(j)),))))
            elif kind == "float array":
                row = it.nd(Arr(b.shape, lambda j: lift(b.fn(j), "cx"), "cx"))
            else:
                row = it.nd(b)
            return [row], {}, {"n": n}

        def post(P, out, env):
            if not returns(P, out):
                return
            it, n = P.it, env["n"]
            s = it.seq(out[1])
            P.holds("a string", lift(s.kind == "str"))
            P.equal("one letter per qubit", lift(it.seq_len(s)), n)
            j = fresh("j")
            it.ctx.assume(and_(le(ic(0), j), lt(j, n)))
            bit = lambda k: app("bit:b", lift(k), sort="bool")
            P.equal("letter j of the bits j and n + j", lift(it.seq_get(s, j)), letter(bit(j), bit(add(n, j))))
        V.function(DEC, setup, post, kind)

    def inverse(P):
        c = var("c")
        x, z = var("x", "bool"), var("z", "bool")
        cx = P.it.ctx.clone()
        cx.assume(legal(c))
        P.equal("letter of the bits of a letter", letter(is_x(c), is_z(c)), c, cx)
        P.holds("x bit of the letter of two bits", and_(or_(not_(is_x(letter(x, z))), x), or_(not_(x), is_x(letter(x, z)))))
        P.holds("z bit of the letter of two bits", and_(or_(not_(is_z(letter(x, z))), z), or_(not_(z), is_z(letter(x, z)))))
    V.lemma("the encodings are inverse", inverse)
