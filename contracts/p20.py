from .lib import *
from .p18 import Choi

A = CHAN + ":AnalyticQChan"


def noise_rule(nf, t):
    """[w <= c] w = 0 for an eigenvalue w of a positive semidefinite matrix and a tiny c >= 0: numerical noise; |w| = w."""
    from pyded.nf import Term
    isw = lambda a: a.op == "app" and a.args[0].startswith("real:eigval<")
    if not any(isw(a) for a in t.atoms):
        return None
    for j, g in enumerate(t.guards):
        if g.op != "rle":
            continue
        p = pdict(g.args[0])
        ms = [m for m in p if m != ()]
        if len(ms) != 1 or len(ms[0]) != 1:
            continue
        a = ms[0][0]
        w = a.args[1] if a.op == "app" and a.args[0] in ("real:abs", "real:pos") else a
        if not isw(w) or w not in t.atoms:
            continue
        c, k = p[(a,)][0], p.get((), (0, 0))[0]
        if c > 0 and 0 <= -k / c <= Fraction(1, 10 ** 6):
            return []
        if a.args[0] == "real:abs" or k == 0 and c < 0:
            continue
    return None


def wlogw(W, n, fvs):
    k, = idx(1)
    w = app(W, k, *fvs, sort="cx")
    return S((k, n), mul(w, app("real:log2", w, sort="cx")))


def verify(V):
    # ---------------------------------------------------------------- entropy of one matrix, of a list of blocks
    def setup(it):
        d = dim(it, "d")
        rho = Arr((d, d), hermitian("R"), "cx")
        it.declare_psd(rho)
        it.extra_rules.append(noise_rule)
        return [it.nd(rho)], {}, {"self": analytic(it, None), "rho": rho, "d": d}

    def post(P, out, env):
        if not returns(P, out):
            return
        it = P.it
        if len(it.eigs) != 1:
            return P.fail("~one spectrum", "%d" % len(it.eigs))
        W, _, a, n, fvs = it.eigs[0]
        P.equal("the spectrum is that of the matrix", it.nd(a), env["rho"])
        P.equal("-tr rho log2 rho", out[1], neg(wlogw(W, n, fvs)))
    V.function(A + ".entropy", setup, post, label="matrix")

    for kind in ("1", "2", "3", "any number", "tuple"):
        def setup(it, kind=kind):
            H = lambda b: (lambda i, j: add(app("R", lift(b), lift(i), lift(j), sort="cx"), conj(app("R", lift(b), lift(j), lift(i), sort="cx"))))
            it.extra_rules.append(noise_rule)
            if kind == "any number":
                B = ivar(it, "B", 1)
                it.ctx.lemmas["bdim"] = lambda b: le(ic(0), app("bdim", b))
                blk = lambda b: Arr((app("bdim", lift(b)), app("bdim", lift(b))), H(b), "cx")
                v = Lst(it.new(Seq("list", (Sub(B, lambda b: it.nd(blk(b))),))))
            else:
                B = 2 if kind == "tuple" else int(kind)
                ds = [dim(it, "d%d" % b) for b in range(B)]
                blk = lambda b: Arr((ds[b], ds[b]), H(b), "cx")
                v = [it.nd(blk(b)) for b in range(B)]
                v = tuple(v) if kind == "tuple" else it.lst(v)
            it.declare_psd(blk(fresh("b")) if kind == "any number" else blk(0))
            if kind != "any number":
                for b in range(B):
                    it.declare_psd(blk(b))
            return [v], {}, {"self": analytic(it, None), "B": B, "blk": blk}

        def post(P, out, env, kind=kind):
            if not returns(P, out):
                return
            it = P.it
            if kind == "any number":
                if len(it.eigs) != 1:
                    return P.fail("~one spectrum per block", "%d" % len(it.eigs))
                W, _, a, n, fvs = it.eigs[0]
                b = [v for v in fvs if v.args[0] not in ("B",)]
                if len(b) != 1:
                    return P.fail("~the spectra are those of the blocks", "%r" % (fvs,))
                P.equal("the spectra are those of the blocks", it.nd(a), env["blk"](b[0]))
                z = fresh("b")
                P.equal("sum of the entropies of the blocks", out[1],
                        neg(S((z, env["B"]), subst(wlogw(W, n, fvs), {b[0].args[0]: z}))))
                return
            tot = cc(0)
            for b in range(env["B"]):
                from pyded.models import canonical_array_key
                key, fvs = canonical_array_key(it, env["blk"](b))
                tot = add(tot, wlogw("real:eigval<%s>" % key, env["blk"](b).shape[0], fvs))
            P.equal("sum of the entropies of the blocks", out[1], neg(tot))
        V.function(A + ".entropy", setup, post, label="%s block(s)" % kind)

    # ---------------------------------------------------------------- coherent information
    for rep in ("dense", "sparse", "choi"):
        for reg in (False, True):
            def setup(it, rep=rep, reg=reg):
                n = ic(1) if rep == "choi" else dim(it, "n_asked")
                d = dim(it, "d")
                rho = it.nd(table("rho", d, d))
                if rep == "choi":
                    o = Choi(it).obj
                else:
                    o = K(it, rep == "sparse").obj
                ch = analytic(it, o, "choi" if rep == "choi" else "kraus", rep == "sparse")
                it.heap["CALLS"] = ()

                def logged(what):
                    def h(it, f, args, kwargs):
                        b = it.bind(f, args, kwargs)
                        vals = tuple(b[x.arg] for x in f.node.args.args[1:])
                        r = app("real:S%d" % len(it.heap["CALLS"]), sort="cx") if what == "entropy" else Opaque("result of " + what)
                        it.heap["CALLS"] = it.heap["CALLS"] + ((what, f.bound, vals, r),)
                        return r
                    return h
                it.contracts[A + ".channel"] = logged("channel")
                it.contracts[A + ".entropy_exchange"] = logged("exchange")
                it.contracts[CHOI + ":ChoiQutip.complementary_channel"] = logged("complementary")
                it.contracts[A + ".entropy"] = logged("entropy")
                return [rho, D(n)] + ([True] if reg else []), {}, {"self": ch, "rho": rho, "n": n, "obj": o}

            def post(P, out, env, rep=rep, reg=reg):
                if not returns(P, out):
                    return
                it = P.it
                calls = it.heap["CALLS"]
                ent = [c for c in calls if c[0] == "entropy"]

                def src(c):
                    x = [k for k in calls if k[3] is c[2][0]]
                    return x[0] if x else None
                val = {}
                for c in ent:
                    s = src(c)
                    if s is None or s[2][0] is not env["rho"]:
                        return P.fail("entropies are of the output and the complementary output of rho", "%r" % (c,))
                    if s[0] in ("channel", "exchange"):
                        P.equal("for n copies", s[2][1], env["n"])
                        P.holds("not the adjoint", lift(s[2][2] is False))
                    P.holds("default cut off", lift(len(c[2]) == 1 or (isinstance(c[2][1], (int, float, Fraction)) and 0 <= c[2][1] <= 1e-9)))
                    val.setdefault(s[0], c[3])
                other = "complementary" if rep == "choi" else "exchange"
                if set(val) != {"channel", other}:
                    return P.fail("both outputs are used", "%r" % (sorted(val),))
                want = sub(val["channel"], val[other])
                if reg:
                    # result * n = S(out) - S(complementary)
                    nn = env["n"]
                    P.equal("regularized", mul(lift(out[1], "cx"), tocx(lift(nn))), want)
                else:
                    P.equal("output minus complementary entropy", out[1], want)
            V.function(A + ".coherent_information", setup, post, label="%s%s" % (rep, " regularized" if reg else ""))

    # ---------------------------------------------------------------- fidelity of a state, singular states included
    def setup(it):
        d = dim(it, "d")
        rho = Arr((d, d), hermitian("R"), "cx")
        out_ = Arr((d, d), hermitian("N"), "cx")
        it.declare_psd(rho)
        k = K(it, False)
        r = it.nd(rho)
        n = dim(it, "n_asked")

        def channel(it, f, args, kwargs):
            b = it.bind(f, args, kwargs)
            it.heap["CALLS"] = it.heap["CALLS"] + ((b["rho"], b["n"], b["adjoint"]),)
            return it.nd(out_)
        it.heap["CALLS"] = ()
        it.contracts[A + ".channel"] = channel
        return [r, n], {}, {"self": analytic(it, k.obj), "rho": rho, "r": r, "n": n, "out": out_, "d": d}

    def post(P, out, env):
        if not returns(P, out):
            return
        it = P.it
        calls = it.heap["CALLS"]
        if len(calls) != 1:
            return P.fail("~the output is computed once", "%d" % len(calls))
        P.holds("the output is that of rho", lift(calls[0][0] is env["r"] and calls[0][2] is False))
        P.equal("for n copies", calls[0][1], env["n"])
        from pyded.models import canonical_array_key
        key, fvs = canonical_array_key(it, env["rho"])
        W, Vn = "real:eigval<%s>" % key, "eigvec<%s>" % key
        if not any(e[0] == W for e in it.eigs) or len(it.eigs) != 2:
            return P.fail("~square root of rho", "%d decompositions" % len(it.eigs))

        def root(a, b):
            k, = idx(1)
            return S((k, env["d"]), mul(app(Vn, lift(a), k, *fvs, sort="cx"),
                                        app("real:sqrt", app("real:pos", app(W, k, *fvs, sort="cx"), sort="cx"), sort="cx"),
                                        conj(app(Vn, lift(b), k, *fvs, sort="cx"))))

        def square(a, b):
            c, = idx(1)
            return S((c, env["d"]), mul(root(a, c), root(c, b)))
        P.equal("the root squares to rho", it.nd(Arr((env["d"],) * 2, square, "cx")), env["rho"])
        e = [e for e in it.eigs if e[0] != W][0]

        def inner(a, b):
            c1, c2 = idx(2)
            return S((c1, env["d"]), (c2, env["d"]), mul(root(a, c1), env["out"].fn(c1, c2), root(c2, b)))
        P.equal("spectrum of sqrt(rho) N(rho) sqrt(rho)", it.nd(e[2]), Arr((env["d"],) * 2, inner, "cx"))
        k, = idx(1)
        it.psd.add(e[0][len("real:eigval<"):-1])
        P.equal("sum of the roots of its eigenvalues", out[1], S((k, env["d"]), app("real:sqrt", app(e[0], k, *e[4], sort="cx"), sort="cx")))
    V.function(A + ".fidelity_two_states", setup, post)

    def lemma_hermitian(P):
        it = P.it
        k = K(it, False)
        i, j = var("i"), var("j")
        for v in (i, j):
            it.ctx.assume(and_(le(ic(0), v), lt(v, k.P)))
        y = k.channel_spec(hermitian("R"))
        P.equal("the output of a Hermitian matrix is Hermitian", y.fn(i, j), conj(y.fn(j, i)))
    V.lemma("hermitian output", lemma_hermitian)
    V.assume_text("numpy.linalg.eigh/eigvalsh return the exact spectral decomposition",
                  "eigenvalues of a positive semidefinite matrix are nonnegative, those up to the cut-off are numerical noise of exact zeros",
                  "the spectrum of a block-diagonal matrix is the union of the spectra of its blocks (with P14: declaring orthogonal groups does not change the entropy)")
