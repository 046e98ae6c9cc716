"""Derived logical operators."""
from .lib import *

STAB = CODES + ":StabilizerCode"


def normal_form(it, w):
    """[I A1 A2 | B C1 C2 ; 0 0 0 | D I E] with arbitrary blocks (P04)."""
    r, t, k = w["r"], w["t"], w["k"]
    n = w["n"]
    b = lambda i, c: ite(app("bit:nf", lift(i), lift(c), sort="bool"), ic(1), ic(0))
    d = lambda a, c: ite(eq(a, c), ic(1), ic(0))

    def fn(i, c):
        i, c = lift(i), lift(c)
        top = ite(lt(c, r), d(i, c), b(i, c))
        low = ite(lt(c, n), ic(0), ite(and_(le(add(n, r), c), lt(c, add(n, r, t))), d(sub(i, r), sub(c, add(n, r))), b(i, c)))
        return ite(lt(i, r), top, low)
    return Arr((add(r, t), mul(ic(2), n)), fn, "int")


def blocks(w, f):
    """sum over the n qubits of f(qubit), as the sum over the three blocks of columns"""
    r, t, k = w["r"], w["t"], w["k"]
    a, b, c = idx(3)
    return add(S((a, r), f(a)), S((b, t), f(add(r, b))), S((c, k), f(add(r, t, c))))


def blockwise(it, w, e):
    """The same for a function that is case-split on the block: every block under its own facts."""
    r, t, k = w["r"], w["t"], w["k"]
    tot = ic(0)
    for lo, n in ((ic(0), r), (r, t), (add(r, t), k)):
        v = fresh("q")
        c = it.ctx.clone()
        c.assume(and_(le(ic(0), v), lt(v, n)))
        tot = add(tot, sum_(v, n, c.simp(e(add(lo, v)))))
    return tot


def verify(V):
    def setup(it):
        w = {"r": ivar(it, "r", 0), "t": ivar(it, "t", 0), "k": ivar(it, "k", 0)}
        w["n"] = add(w["r"], w["t"], w["k"])
        it.ctx.assume(le(ic(1), add(w["r"], w["t"])))
        w["nf"] = normal_form(it, w)
        w["self"] = code(it, add(w["r"], w["t"]), w["n"], w["k"], rank=w["r"], normal=it.nd(w["nf"]))
        return [], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        it, n, k, r, t = P.it, env["n"], env["k"], env["r"], env["t"]
        x, z = [it.arr(v) for v in it.concrete_items(out[1])]
        g = env["nf"]
        for name, a in (("X", x), ("Z", z)):
            P.equal("rows of logical " + name, a.shape[0], k)
            P.equal("columns of logical " + name, a.shape[1], mul(ic(2), n))
        i, j, l = ivar(it, "i", 0, k), ivar(it, "j", 0, k), ivar(it, "l", 0, add(r, t))
        q = ivar(it, "q", 0, mul(ic(2), n))
        for name, a in (("X", x), ("Z", z)):
            v = lift(a.fn(i, q))
            P.holds("logical %s is binary" % name, or_(eq(v, ic(0)), eq(v, ic(1))))

        def anti(name, a, u, b, v, want=ic(0), ctx=None):
            old, it.ctx = it.ctx, ctx or it.ctx
            f = lambda q: add(mul(lift(a.fn(u, q)), lift(b.fn(v, add(n, q)))), mul(lift(a.fn(u, add(n, q))), lift(b.fn(v, q))))
            P.congruent(name, blockwise(it, env, f), want, 2)
            it.ctx = old
        for name, a in (("X", x), ("Z", z)):
            for row, cond in (("first", lt(l, r)), ("second", le(r, l))):
                c = it.ctx.clone()
                c.assume(cond)
                anti("logical %s commutes with the rows of the %s block" % (name, row), a, i, g, l, ctx=c)
        anti("logical X commute with each other", x, i, x, j)
        anti("logical Z commute with each other", z, i, z, j)
        anti("logical X i anticommutes with logical Z j exactly when i = j", x, i, z, j, ite(eq(i, j), ic(1), ic(0)))
    V.function(STAB + ".logical_operators", setup, post)
    V.assume_text("the sum over the n qubits is the sum over the three blocks of columns of the normal form",
                  "the normal form has the block shape of P04; commuting with the rows of the normal form is commuting with the group")
