"""Concatenated codes."""
from .lib import *

STAB = CODES + ":StabilizerCode"


def by_blocks(P, e, q, l, m, block, t):
    """A sum over the n = q l qubits of the outer code is the sum over blocks and qubits of a block; only one block adds."""
    it = P.it
    for s in [x for x in subterms(e) if x.op == "sum" and not any(y.startswith("$") for y in x.fv)]:
        v, hi, body = open_binder(s)
        if hi is not mul(l, q) or const_of(l) is not None:
            continue
        a, w = fresh("a"), fresh("w")
        c = it.ctx.clone()
        c.assume(and_(le(ic(0), a), lt(a, q), le(ic(0), w), lt(w, l)))
        f = c.simp(subst(body, {v.args[0]: add(mul(a, l), w)}))
        for lo, hi in ((a, block), (block, a)):
            d = c.clone()
            d.assume(and_(lt(lo, hi), le(mul(add(lo, ic(1)), m), mul(hi, m))))       # m > 0
            P.holds("a block is not touched by the other blocks", eq(d.simp(f), ic(0)), ctx=d)
        c = it.ctx.clone()
        c.assume(and_(le(ic(0), w), lt(w, l)))
        one = sum_(w, l, c.simp(subst(f, {a.args[0]: block})))
        e = nf.replace(e, {s: one}, {})
    return e


def verify(V):
    # ------------------------------------------------------------ logical operators in the order of the generators
    def setup_o(it, given):
        w = {"n": dim(it, "n"), "k": dim(it, "k")}
        two = mul(ic(2), w["n"])
        w["self"] = code(it, sub(w["n"], w["k"]), w["n"], w["k"], given=given,
                         logicals=(it.nd(bits(it, "lx", w["k"], two)), it.nd(bits(it, "lz", w["k"], two))))
        return [], {}, w

    def post_o(P, out, env, given):
        if not returns(P, out):
            return
        it, n = P.it, env["n"]
        x, z = it.concrete_items(out[1])
        i, j = ivar(it, "i", 0, env["k"]), ivar(it, "j", 0, n)
        o = j if given else app("perm:order", j)         # derived operators are those of the relabelled qubits
        for name, a in (("lx", x), ("lz", z)):
            a = it.arr(a)
            P.equal("rows of " + name, a.shape[0], env["k"])
            P.equal("columns of " + name, a.shape[1], mul(ic(2), n))
            b = lambda c: ite(app("bit:" + name, i, c, sort="bool"), ic(1), ic(0))
            P.equal("X part of qubit j of %s" % name, lift(a.fn(i, o)), b(j))
            P.equal("Z part of qubit j of %s" % name, lift(a.fn(i, add(n, o))), b(add(n, j)))
    for given in (False, True):
        V.function(STAB + "._logicals_in_generator_order", lambda it: setup_o(it, given), lambda P, out, env: post_o(P, out, env, given),
                   label="of the user" if given else "derived")

    # ------------------------------------------------------------ concatenation
    for case in ("one logical qubit", "several logical qubits", "sizes do not divide"):
        def setup(it, case=case):
            it.heap["CALLS"] = ()
            w = {"m": dim(it, "m"), "k": ivar(it, "k", 0)}
            l = w["l"] = ic(1) if case == "one logical qubit" else ivar(it, "l", 2)
            if case == "sizes do not divide":
                n = w["n"] = dim(it, "n")
                it.ctx.assume(ne(mod(n, l), ic(0)))
            else:
                w["q"] = dim(it, "q")
                n = w["n"] = mul(l, w["q"])
                it.ctx.assume(le(ic(1), n))
            m = w["m"]
            w["r1"], w["r2"] = sub(n, w["k"]), sub(m, l)
            it.ctx.assume(and_(le(ic(1), w["r1"]), le(ic(1), w["r2"])))
            one = code(it, w["r1"], n, w["k"], "outer:", stab=it.nd(bits(it, "outer", w["r1"], mul(ic(2), n))))
            two = code(it, w["r2"], m, l, "inner:", stab=it.nd(bits(it, "inner", w["r2"], mul(ic(2), m))))

            def logicals(it, f, args, kwargs):
                if not same(it, f.bound, two):
                    raise Unsupported("logical operators of another code")
                return (it.nd(bits(it, "lx", l, mul(ic(2), m))), it.nd(bits(it, "lz", l, mul(ic(2), m))))
            it.contracts[STAB + "._logicals_in_generator_order"] = logicals

            def init(it, f, args, kwargs):
                b = it.bind(f, args, kwargs)
                log(it, "code", f.bound, it.arr(b["stabilizer_group"]), b["n"], b["k"], b["logical_ops"])
                return None
            it.contracts[STAB + ".__init__"] = init
            return [one, two], {}, w

        def post(P, out, env, case=case):
            it = P.it
            if case == "sizes do not divide":
                return raises(P, out, "ValueError", "sizes that do not divide are rejected")
            if not returns(P, out):
                return
            made = calls(it, "code")
            if len(made) != 1 or not same(it, made[0][1], out[1]):
                return P.fail("the concatenated code is returned", "")
            _, _, a, N, k, ops = made[0]
            q, m, l, n = env["q"], env["m"], env["l"], env["n"]
            big = mul(q, m)
            P.equal("number of qubits", lift(N), big)
            P.equal("number of logical qubits", lift(k), env["k"])
            if a.ndim != 2:
                return P.fail("generators are rows", "")
            P.equal("width of the generators", a.shape[1], mul(ic(2), big))
            P.equal("number of generators", a.shape[0], sub(big, env["k"]))
            bit = lambda name, i, c: app("bit:" + name, lift(i), lift(c), sort="bool")
            num = lambda b: ite(b, ic(1), ic(0))
            b, g, t = ivar(it, "b", 0, q), ivar(it, "g", 0, m), ivar(it, "t", 0, m)
            i, j = ivar(it, "i", 0, env["r1"]), ivar(it, "j", 0, env["r2"])
            b2 = ivar(it, "b2", 0, q)
            # products of bounds the solver needs
            it.ctx.assume(and_(le(mul(add(b, ic(1)), m), big), le(mul(add(b2, ic(1)), m), big), le(mul(add(b, ic(1)), env["r2"]), mul(q, env["r2"])),
                               le(ic(0), mul(b, m)), le(ic(0), mul(b2, m)), le(ic(0), mul(b, env["r2"]))))
            row = add(mul(b, env["r2"]), j)
            col = add(mul(b2, m), t)
            for part, off, ioff in (("X", ic(0), ic(0)), ("Z", big, m)):
                P.equal("%s part of the inner generators on their block" % part, lift(a.fn(row, add(off, col))),
                        ite(eq(b, b2), num(bit("inner", j, add(ioff, t))), ic(0)))

                def op(c):
                    x, z = bit("outer", i, c), bit("outer", i, add(n, c))
                    w = sub(c, mul(b2, l))
                    lx, lz = num(bit("lx", w, add(ioff, t))), num(bit("lz", w, add(ioff, t)))
                    return ite(and_(x, not_(z)), lx, ite(and_(z, not_(x)), lz, ite(and_(x, z), mod(add(lx, lz), ic(2)), ic(0))))
                u, = idx(1)
                want = op(b2) if case == "one logical qubit" else mod(S((u, l), op(add(mul(b2, l), u))), ic(2))
                have = it.ctx.simp(lift(a.fn(add(mul(q, env["r2"]), i), add(off, col))))
                have = by_blocks(P, have, q, l, m, b2, t)
                P.equal("%s part of the outer generators in logical operators" % part, have, want)
        V.function(STAB + ".concatenate_codes", setup, post, label=case)
    V.assume_text("numpy.argsort of a permutation is its inverse",
                  "the derived logical operators are those of the relabelled qubits (P04, P05)")

    # ------------------------------------------------------------ the generators of the result commute
    def lemma(P):
        it = P.it
        q, l, m = dim(it, "q"), dim(it, "l"), dim(it, "m")
        t = lambda name: lambda *i: app(name, *[lift(x) for x in i], sort="cx")
        x, z, x2, z2 = t("x"), t("z"), t("x'"), t("z'")
        L = {(o, p): t("%s%d" % (o, p)) for o in ("lx", "lz") for p in (0, 1)}       # part 0: X, part 1: Z
        g = {p: t("inner%d" % p) for p in (0, 1)}
        two = cc(2)

        def row(u, v, p):
            def f(b, c):
                w, = idx(1)
                return S((w, l), add(mul(u(b, w), L["lx", p](w, c)), mul(v(b, w), L["lz", p](w, c))))
            return f

        def pair(A, B):
            def f(w, w2):
                c, = idx(1)
                return S((c, m), add(mul(L[A, 0](w, c), L[B, 1](w2, c)), mul(L[A, 1](w, c), L[B, 0](w2, c))))
            return f
        b, c, w, w2 = idx(4)
        X, Z, X2, Z2 = row(x, z, 0), row(x, z, 1), row(x2, z2, 0), row(x2, z2, 1)
        P.equal("product of two outer generators", S((b, q), (c, m), add(mul(X(b, c), Z2(b, c)), mul(Z(b, c), X2(b, c)))),
                S((b, q), (w, l), (w2, l), add(mul(x(b, w), x2(b, w2), pair("lx", "lx")(w, w2)), mul(x(b, w), z2(b, w2), pair("lx", "lz")(w, w2)),
                                              mul(z(b, w), x2(b, w2), pair("lz", "lx")(w, w2)), mul(z(b, w), z2(b, w2), pair("lz", "lz")(w, w2)))))
        # the algebra of the logical operators (P05): products are even, that of Xi and Zi is odd
        h = {k: t("half " + k) for k in ("xx", "xz", "zx", "zz")}
        d = lambda w, w2: delta(w, w2)
        alg = lambda w, w2: {"xx": mul(two, h["xx"](w, w2)), "zz": mul(two, h["zz"](w, w2)),
                             "xz": add(d(w, w2), mul(two, h["xz"](w, w2))), "zx": add(d(w, w2), mul(two, h["zx"](w, w2)))}
        coef = {"xx": lambda b, w, v: mul(x(b, w), x2(b, v)), "xz": lambda b, w, v: mul(x(b, w), z2(b, v)),
                "zx": lambda b, w, v: mul(z(b, w), x2(b, v)), "zz": lambda b, w, v: mul(z(b, w), z2(b, v))}
        full = S((b, q), (w, l), (w2, l), add(*[mul(coef[k](b, w, w2), alg(w, w2)[k]) for k in h]))
        even = S((b, q), (w, l), (w2, l), add(*[mul(coef[k](b, w, w2), h[k](w, w2)) for k in h]))
        P.equal("is that of the outer code modulo 2", full,
                add(S((b, q), (w, l), add(mul(x(b, w), z2(b, w)), mul(z(b, w), x2(b, w)))), mul(two, even)))
        P.equal("product of an inner and an outer generator",
                S((c, m), add(mul(g[0](c), Z(b, c)), mul(g[1](c), X(b, c)))),
                S((w, l), add(mul(x(b, w), S((c, m), add(mul(g[0](c), L["lx", 1](w, c)), mul(g[1](c), L["lx", 0](w, c))))),
                              mul(z(b, w), S((c, m), add(mul(g[0](c), L["lz", 1](w, c)), mul(g[1](c), L["lz", 0](w, c))))))))
        P.equal("is even", S((w, l), add(mul(x(b, w), two, t("e")(w)), mul(z(b, w), two, t("f")(w)))),
                mul(two, S((w, l), add(mul(x(b, w), t("e")(w)), mul(z(b, w), t("f")(w))))))
        # a letter becomes its logical operator modulo 2
        bx, bz, lx, lz = [ite(var(n, "bool"), ic(1), ic(0)) for n in ("bx", "bz", "lx", "lz")]
        X_, Z_ = var("bx", "bool"), var("bz", "bool")
        op = ite(and_(X_, not_(Z_)), lx, ite(and_(Z_, not_(X_)), lz, ite(and_(X_, Z_), mod(add(lx, lz), ic(2)), ic(0))))
        P.holds("a Pauli letter is x LX + z LZ modulo 2", eq(op, mod(add(mul(bx, lx), mul(bz, lz)), ic(2))))
    V.lemma("the generators of the concatenation commute", lemma)
    V.assume_text("entries may be reduced modulo 2 before a symplectic product modulo 2 (elementary)",
                  "precondition of concatenation: both codes were accepted (P03) and the logical operators satisfy the Pauli algebra (P05)")
