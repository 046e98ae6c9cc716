from .lib import *
from .p13 import log_contracts


def orth_setup(it, k, r):
    """Declared groups: boundaries o(0) <= ... <= o(r-1) <= number of Kraus operators (single copy)."""
    o = lambda j: app("o", lift(j))
    k.kpow = app("pow", k.m, sub(k.n, ic(1)))
    it.ctx.assume(le(ic(1), k.kpow))
    it.ctx.assume(eq(k.M, mul(k.m, k.kpow)))

    def bound(j):
        ok = and_(le(ic(0), j), lt(j, r))
        return implies(ok, and_(le(ic(0), o(j)), le(o(j), k.m), le(ic(0), mul(o(j), k.kpow)), le(mul(o(j), k.kpow), k.M)))

    it.ctx.lemmas = dict(it.ctx.lemmas, o=bound)
    return o


def verify(V):
    for sparse in (False, True):
        c = "SparseKraus" if sparse else "DenseKraus"
        for adj in (False, True):
            def setup(it, sparse=sparse, adj=adj):
                k = K(it, sparse)
                if adj:
                    it.ctx.assume(eq(k.M, app("pow", k.m, k.n)))
                    rho = it.nd(table("rho", k.M, k.M))
                else:
                    rho = it.nd(table("rho", k.Q, k.Q))
                return [rho, k.n] + ([True] if adj else []), {}, {"self": k.obj, "k": k}

            def post(P, out, env, adj=adj):
                if not returns(P, out):
                    return
                k = env["k"]
                if adj:
                    P.equal("adjoint is sum x_ij K_i^H K_j", out[1], k.exchange_adjoint_spec(f2("rho")))
                    return
                blocks(P, out[1], k, [(ic(0), k.M)])
            V.function("%s:%s.entropy_exchange" % (KRAUS, c), setup, post, label="adjoint" if adj else "whole")

    # declared orthogonal groups: any number r of boundaries
    def setup(it):
        k = K(it, False)
        r = ivar(it, "r", 1)
        o = orth_setup(it, k, r)
        bs = it.new(Seq("list", (Sub(r, lambda j: o(j)),)))
        it.heap[k.obj.ref]["_orthogonal_kraus"] = Lst(bs)
        # boundaries increase and stay within the number of operators (needed at the loop index and its neighbours)
        j = fresh("j")
        it.boundaries = (o, r, k)
        return [it.nd(table("rho", k.Q, k.Q)), k.n], {}, {"self": k.obj, "k": k, "o": o, "r": r}

    def post(P, out, env):
        if not returns(P, out):
            return
        k, o, r = env["k"], env["o"], env["r"]
        it = P.it
        s = it.iter_seq(out[1])
        P.equal("number of blocks", it.seq_len(s), add(r, ic(1)))
        g = fresh("g")
        for name, facts, lo, hi in (("first block", [eq(g, ic(0))], ic(0), o(0)),
                                    ("middle block", [le(ic(1), g), lt(g, r)], o(sub(g, ic(1))), o(g)),
                                    ("last block", [eq(g, r)], o(sub(r, ic(1))), k.m)):
            saved, it.ctx = it.ctx, it.ctx.clone()
            for f in facts:
                it.ctx.assume(f)
            for x in (lo, hi):
                it.ctx.assume(and_(le(ic(0), x), le(x, k.m)))
            it.ctx.assume(le(lo, hi))
            gg = {"first block": ic(0), "last block": r}.get(name, g)
            w = it.wrap_item(s, it.seq_get(s, D(gg)))
            a, b = mul(lo, k.kpow), (mul(hi, k.kpow) if name != "last block" else k.M)
            whole = k.exchange_spec(f2("rho"))
            want = Arr((sub(b, a), sub(b, a)), lambda i, j: whole.fn(add(a, lift(i)), add(a, lift(j))), "cx")
            c = it.ctx
            for f in (le(ic(0), a), le(a, b), le(b, k.M)):
                c.assume(f)        # lemma: lo <= hi <= m, kpow >= 1 and M = m * kpow
            P.equal(name + " is the diagonal block of W", w, want, c)
            it.ctx = saved
    V.function(KRAUS + ":DenseKraus.entropy_exchange", setup, post, label="declared groups")

    def lemma_bounds(P):
        lo, hi, m, kp, M = [var(x) for x in ("lo", "hi", "m", "kp", "M")]
        c = P.it.ctx
        for f in (le(ic(0), lo), le(lo, hi), le(hi, m), le(ic(1), kp), eq(M, mul(m, kp))):
            c.assume(f)
        P.holds("0 <= lo*kp", le(ic(0), mul(lo, kp)))
        P.holds("lo*kp <= hi*kp", le(mul(lo, kp), mul(hi, kp)))
        P.holds("hi*kp <= M", le(mul(hi, kp), M))
    V.lemma("block bounds", lemma_bounds)

    # AnalyticQChan.entropy_exchange: the n-fold operators of n are used
    for sparse, adj in ((False, True), (True, True), (False, False), (True, False)):
        def setup(it, sparse=sparse, adj=adj):
            k = K(it, sparse)
            n2 = dim(it, "n_asked")
            ch = analytic(it, k.obj, sparse=sparse)
            rho = it.nd(table("rho", var("dd"), var("dd")))
            env = {"self": ch, "k": k, "n2": n2, "rho": rho}
            log_contracts(it, k, env, "entropy_exchange")
            return [rho, n2] + ([True] if adj else []), {}, env

        def post(P, out, env, adj=adj):
            if not returns(P, out):
                return
            calls = P.it.heap["CALLS"]
            P.holds("the operators in use are the n-fold ones", eq(lift(P.it.heap[env["k"].obj.ref]["current_n"]), env["n2"]))
            P.holds("the Kraus object's complementary channel is applied to rho once",
                    lift(len(calls) == 1 and calls[0][0][0] is env["rho"] and calls[0][0][1] is env["n2"]
                         and calls[0][0][2] is adj and out[1] is calls[0][1]))
        V.function(CHAN + ":AnalyticQChan.entropy_exchange", setup, post, label="%s%s" % ("sparse" if sparse else "dense", " adjoint" if adj else ""))

    def duality(P):
        it = P.it
        k = K(it, False)
        i, j, p, q = idx(4)
        lhs = S((i, k.M), (j, k.M), mul(app("x", j, i, sort="cx"), k.exchange_spec(f2("rho")).fn(i, j)))
        rhs = S((p, k.Q), (q, k.Q), mul(k.exchange_adjoint_spec(f2("x")).fn(p, q), app("rho", q, p, sort="cx")))
        P.equal("tr(x W(rho)) = tr(W*(x) rho)", lhs, rhs)
    V.lemma("duality", duality)

    def nothing_lost(P):
        """K_b^H K_a = 0 across groups (declared) gives W[a,b] = 0 across groups for n copies (leading factor)."""
        it = P.it
        K1 = lambda a, i, j: app("K1", a, i, j, sort="cx")
        Kr = lambda a, i, j: app("Kr", a, i, j, sort="cx")
        a, b, k, l, a1, b1, k1, l1 = [var(x) for x in ("a", "b", "k", "l", "a1", "b1", "k1", "l1")]
        P1, Pr = dim(it, "P1"), dim(it, "Pr")
        p, p1, p2 = idx(3)
        # the first factor of the n-fold operators: entry (p1*Pr + p2)
        whole = S((p, mul(P1, Pr)), mul(conj(K1(b1, div(p, Pr), k1)), conj(Kr(b, mod(p, Pr), k)),
                                        K1(a1, div(p, Pr), l1), Kr(a, mod(p, Pr), l)))
        factored = mul(S((p1, P1), mul(conj(K1(b1, p1, k1)), K1(a1, p1, l1))), S((p2, Pr), mul(conj(Kr(b, p2, k)), Kr(a, p2, l))))
        P.equal("K_b^H K_a of a tensor product is the tensor product of K_b^H K_a", whole, factored)
    V.lemma("orthogonal leading factors stay orthogonal", nothing_lost)
    V.assume_text("numpy/sparse operations act as their exact mathematical definitions (no rounding)",
                  "class invariant of Kraus objects between calls (established by the constructor and kept by update_kraus_operators: P15)",
                  "declared group boundaries increase and do not exceed the number of Kraus operators")


def blocks(P, got, k, ranges):
    it = P.it
    s = it.iter_seq(got)
    P.equal("number of blocks", it.seq_len(s), ic(len(ranges)))
    whole = k.exchange_spec(f2("rho"))
    P.equal("entries are tr(K_i rho K_j^H)", it.wrap_item(s, it.seq_get(s, 0)), whole)
