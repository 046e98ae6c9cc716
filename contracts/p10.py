"""Undetectable errors."""
from .lib import *
from . import p01

STAB = CODES + ":StabilizerCode"


def verify(V):
    def setup(it):
        w = {"r": dim(it, "r"), "n": dim(it, "n")}
        w["two"] = mul(ic(2), w["n"])
        w["bit"] = lambda i, c: app("bit:stab", lift(i), lift(c), sort="bool")
        rows = it.nd(bits(it, "stab", w["r"], w["two"]))
        it.ctx.assume(and_(le(ic(0), var("k")), eq(w["n"], add(w["r"], var("k")))))
        w["self"] = code(it, w["r"], w["n"], var("k"), stab=rows)
        return [], {}, w

    def contribution(it, s, i):
        """What index i of the only loop over all vectors adds to the list: [(condition, element)]."""
        out = []

        def walk(p, cond):
            if isinstance(p, Items):
                out.extend((cond, x) for x in p.vals)
            elif isinstance(p, If):
                for q in p.a.parts:
                    walk(q, and_(cond, p.cond))
                for q in p.b.parts:
                    walk(q, and_(cond, not_(p.cond)))
            else:
                raise Unsupported("%r in the list" % (p,))
        for p in s.parts:
            walk(p, TRUE)
        return out

    def post(P, out, env):
        if not returns(P, out):
            return
        it = P.it
        s = it.iter_seq(out[1])
        parts = [p for p in s.parts if not (isinstance(p, Items) and not p.vals)]
        if len(parts) != 1 or not isinstance(parts[0], Loop):
            raise Unsupported("the list of a single pass over all vectors expected")
        loop = parts[0]
        n, r, two = env["n"], env["r"], env["two"]
        P.equal("every vector is looked at once", lift(loop.n), app("power", ic(2), two))
        i = ivar(it, "i", 0, loop.n)
        v = lambda c: ite(app("prodbit", two, i, lift(c), sort="bool"), ic(1), ic(0))
        g = lambda j, c: ite(env["bit"](j, c), ic(1), ic(0))
        j, k, c, l = idx(4)
        anti = lambda j: mod(S((k, n), add(mul(g(j, k), v(add(n, k))), mul(g(j, add(n, k)), v(k)))), ic(2))
        commutes = not_(exists(j, r, ne(anti(j), ic(0))))
        co = lambda c: ite(app("prodbit", r, c, j, sort="bool"), ic(1), ic(0))
        inside = exists(c, app("power", ic(2), r),
                        forall(l, two, eq(v(l), mod(S((j, r), mul(co(c), g(j, l))), ic(2)))))
        want = and_(commutes, not_(inside))
        es = contribution(it, loop.fn(i), i)
        some = or_(*[c for c, _ in es]) if es else FALSE
        yes = it.ctx.clone()
        yes.assume(want)
        P.holds("an element that commutes and is not in the group is listed", some, ctx=yes)
        for a, (cond, e) in enumerate(es):
            yes = it.ctx.clone()
            yes.assume(cond)
            P.holds("a listed element commutes with every generator", commutes, ctx=yes)
            P.holds("a listed element is not a product of generators", not_(inside), ctx=yes)
            P.equal("the element itself is listed", it.arr(e), Arr((two,), lambda q: v(q), "int"), ctx=yes)
            for cond2, _ in es[:a]:
                P.holds("each is listed once", not_(and_(cond, cond2)))
    V.function(STAB + ".normalizer", setup, post)

    def setup_u(it):
        it.heap["CALLS"] = ()
        w = {"n": dim(it, "n"), "N": ivar(it, "N", 0)}
        w["self"] = code(it, sub(w["n"], ivar(it, "k", 0, w["n"])), w["n"], var("k"))

        def normalizer(it, f, args, kwargs):
            return it.nd(bits(it, "norm", w["N"], mul(ic(2), w["n"])))
        it.contracts[STAB + ".normalizer"] = normalizer
        return [], {}, w

    def post_u(P, out, env):
        if not returns(P, out):
            return
        it = P.it
        s = it.iter_seq(out[1])
        P.equal("one string per element", lift(it.seq_len(s)), env["N"])
        i, j = ivar(it, "i", 0, env["N"]), ivar(it, "j", 0, env["n"])
        e = it.seq(it.seq_get(s, i))
        P.equal("length of the strings", lift(it.seq_len(e)), env["n"])
        b = lambda c: app("bit:norm", i, lift(c), sort="bool")
        P.equal("the string of the element", lift(it.seq_get(e, j)), p01.letter(b(j), b(add(env["n"], j))))
    V.function(STAB + ".undetectable_errors", setup_u, post_u)
    V.assume_text("itertools.product([0, 1], repeat=m) yields every vector of m bits exactly once",
                  "the products of generators are the sums modulo 2 of subsets of their rows (P02: the product of Pauli matrices)")
