from .lib import *

CH = CHOI + ":ChoiQutip"


class Choi:
    """A ChoiQutip object for the Choi matrix of the Kraus operators K (m operators, do x di)."""

    def __init__(self, it, kraus=True):
        self.it = it
        self.m, self.di, self.do = dim(it, "m"), dim(it, "di"), dim(it, "do")
        self.q0, self.q1 = ivar(it, "q0", 1), ivar(it, "q1", 1)
        self.din, self.dout = it.power(self.di, self.q0), it.power(self.do, self.q1)
        it.ctx.assume(le(ic(1), self.din))
        it.ctx.assume(le(ic(1), self.dout))
        self.N = mul(self.din, self.dout)
        fn = self.entry if kraus else hermitian("C")
        self.fn = fn
        self.choi = Arr((self.N, self.N), lambda x, y: fn(lift(x), lift(y)), "cx")
        f = {"choi": it.nd(self.choi), "_num_in": self.q0, "_num_out": self.q1, "_dim_in": self.di, "_dim_out": self.do,
             "input_dim": self.din, "output_dim": self.dout}
        self.obj = it.obj(cls(CHOI, "ChoiQutip"))
        it.externals.setdefault("qutip.Qobj", lambda it, name, args, kwargs: Opaque("Qobj", {"istp": True, "iscp": True}))
        if not construct(it, self.obj, [f["choi"], it.lst([self.q0, self.q1]), self.di, self.do], {}):
            it.heap[self.obj.ref] = f

    def K(self, k, i, a):
        return app("K", lift(k), lift(i), lift(a), sort="cx")

    def entry(self, x, y):
        """C[(a, i), (b, j)] = sum_k K_k[i, a] conj(K_k[j, b])"""
        k, = idx(1)
        d = self.dout
        return S((k, self.m), mul(self.K(k, mod(x, d), div(x, d)), conj(self.K(k, mod(y, d), div(y, d)))))

    def action(self, rho):
        return kraus_action(self.m, self.dout, self.din, self.K, rho)

    def adjoint(self, x):
        def fn(i, j):
            a, k, l = idx(3)
            return S((a, self.m), (k, self.dout), (l, self.dout), mul(conj(self.K(a, k, i)), x(k, l), self.K(a, l, j)))
        return Arr((self.din, self.din), fn, "cx")


def verify(V):
    # ---- construction: size, positivity and trace preservation
    for good, front in ((True, False), (False, False), (True, True), (False, True)):
        def setup(it, good=good, front=front):
            d = {}
            for x in ("di", "do", "q0", "q1"):
                d[x] = dim(it, x)
            din, dout = it.power(d["di"], d["q0"]), it.power(d["do"], d["q1"])
            N = dim(it, "N")
            it.ctx.assume((eq if good else ne)(N, mul(din, dout)))
            d.update(N=N, din=din, dout=dout)
            d["choi"] = it.nd(table("C", N, N))

            def qobj(it2, name, args, kwargs):
                it2.heap["QOBJ"] = (args, kwargs)
                return Opaque("Qobj", {"istp": app("bit:istp", sort="bool"), "iscp": app("bit:iscp", sort="bool")})
            it.externals["qutip.Qobj"] = qobj
            d["fn"] = cls(CHAN, "AnalyticQChan") if front else cls(CHOI, "ChoiQutip")
            return [d["choi"], it.lst([d["q0"], d["q1"]]), d["di"], d["do"]], {}, d

        def post(P, out, env, good=good, front=front):
            it = P.it
            if not good:
                return raises(P, out, "ValueError", "a matrix of another size is rejected")
            ok = and_(app("bit:istp", sort="bool"), app("bit:iscp", sort="bool"))
            if out[0] == "raise":
                P.holds("rejects only what is not trace preserving or not positive", not_(ok))
                if out[1].name != "AssertionError":
                    P.fail("rejection", "%s" % out[1].name)
                return
            if not returns(P, out):
                return
            P.holds("accepts only trace preserving positive matrices", ok)
            o = out[1]
            if front:
                for n, v in (("input_dimension", env["din"]), ("output_dimension", env["dout"]), ("dim_in", env["di"]), ("dim_out", env["do"])):
                    P.equal("channel reports " + n, it.get_attr(o, n), v)
                nq = it.iter_seq(it.get_attr(o, "numb_qubits"))
                for j, q in enumerate(("q0", "q1")):
                    P.equal("channel reports numb_qubits[%d]" % j, it.seq_get(nq, j), env[q])
                o = it.get_attr(o, "choi")
            for n, v in (("input_dim", env["din"]), ("output_dim", env["dout"]), ("dim_in", env["di"]), ("dim_out", env["do"]),
                         ("num_in", env["q0"]), ("num_out", env["q1"])):
                P.equal(n, it.get_attr(o, n), v)
            P.equal("choi", it.get_attr(o, "choi"), it.arr(env["choi"]))
            # what the external checks are asked about
            args, kw = it.heap["QOBJ"]
            P.equal("checked matrix", args[0], it.arr(env["choi"]))
            P.holds("checked as a Choi matrix", lift(kw.get("type") == "super" and kw.get("superrep") == "choi"))
            dims = it.iter_seq(kw["dims"])
            for r in (0, 1):
                row = it.iter_seq(it.seq_get(dims, r))
                for c, (q, x) in enumerate((("q0", "di"), ("q1", "do"))):
                    part = it.iter_seq(it.seq_get(row, c))
                    P.equal("dims[%d][%d] length" % (r, c), it.seq_len(part), env[q])
                    k = fresh("k")
                    P.equal("dims[%d][%d]" % (r, c), it.seq_get(part, k), env[x])
        V.function((CHAN + ":AnalyticQChan" if front else CH) + ".__init__", setup, post, label="size %s" % ("fits" if good else "mismatch"))

    # ---- action, adjoint (also through the channel front end)
    for front in (False, True):
        for adj in (False, True):
            def setup(it, front=front, adj=adj):
                c = Choi(it)
                x = it.nd(table("rho", *([c.dout] * 2 if adj else [c.din] * 2)))
                if front:
                    a = analytic(it, c.obj, "choi")
                    return [x, 1], {"adjoint": True} if adj else {}, {"self": a, "c": c}
                return [x], {"adjoint": True} if adj else {}, {"self": c.obj, "c": c}

            def post(P, out, env, adj=adj):
                if returns(P, out):
                    c = env["c"]
                    P.equal("is the action of the Kraus operators", out[1], (c.adjoint if adj else c.action)(f2("rho")))
            V.function((CHAN + ":AnalyticQChan.channel") if front else CH + ".channel", setup, post, label="adjoint" if adj else "")

    # ---- complementary channel: T C T = A A^H with A^H A the (transposed) entropy exchange matrix
    def setup(it):
        c = Choi(it)
        rho = Arr((c.din, c.din), hermitian("R"), "cx")
        it.declare_psd(rho)
        return [it.nd(rho)], {}, {"self": c.obj, "c": c, "rho": rho}

    def post(P, out, env):
        if not returns(P, out):
            return
        it, c = P.it, env["c"]
        if len(it.eigs) != 1:
            return P.fail("~one square root", "%d" % len(it.eigs))
        W, Vn, A, n, fvs = it.eigs[0]

        def root(a, b):
            k, = idx(1)
            return S((k, n), mul(app(Vn, lift(a), k, *fvs, sort="cx"), app("real:sqrt", app("real:pos", app(W, k, *fvs, sort="cx"), sort="cx"), sort="cx"),
                                 conj(app(Vn, lift(b), k, *fvs, sort="cx"))))

        def amp(x, k):
            """A[(a, i), k] = (K_k sqrt(rho))[i, a]"""
            b, = idx(1)
            return S((b, c.din), mul(c.K(k, mod(lift(x), c.dout), b), root(b, div(lift(x), c.dout))))

        def gram(x, y):
            k, = idx(1)
            return S((k, c.m), mul(amp(x, k), conj(amp(y, k))))
        P.equal("is A A^H", out[1], Arr((c.N, c.N), gram, "cx"))

        def back(k, l):
            x, = idx(1)
            return S((x, c.N), mul(conj(amp(x, k)), amp(x, l)))

        def exchange(k, l):
            """tr(K_l rho K_k^H)"""
            p, a, b = idx(3)
            return S((p, c.dout), (a, c.din), (b, c.din), mul(c.K(l, p, a), env["rho"].fn(a, b), conj(c.K(k, p, b))))
        P.equal("A^H A is the transposed entropy exchange matrix", it.nd(Arr((c.m, c.m), back, "cx")), Arr((c.m, c.m), exchange, "cx"))
    V.function(CH + ".complementary_channel", setup, post)

    # ---- extracted Kraus operators reproduce the matrix
    def setup(it):
        c = Choi(it, kraus=False)
        it.declare_psd(c.choi)
        return [], {}, {"self": c.obj, "c": c}

    def post(P, out, env):
        if not returns(P, out):
            return
        it, c = P.it, env["c"]
        if len(it.eigs) != 1:
            return P.fail("~one decomposition", "%d" % len(it.eigs))
        W, Vn, A, n, fvs = it.eigs[0]
        seq = it.iter_seq(out[1])
        x, y = fresh("x"), fresh("y")
        it.ctx.assume(and_(le(ic(0), x), lt(x, c.N), le(ic(0), y), lt(y, c.N)))

        def term(o):
            a = it.arr(o)
            d = c.dout
            return mul(lift(a.fn(mod(x, d), div(x, d)), "cx"), conj(lift(a.fn(mod(y, d), div(y, d)), "cx")))

        def shape(o):
            a = it.arr(o)
            return ite(and_(eq(lift(a.shape[0]), c.dout), eq(lift(a.shape[1]), c.din)), cc(0), cc(1)) if a.ndim == 2 else cc(1)
        P.equal("every operator maps input to output", seq_sum(it, seq, shape), cc(0))
        k, = idx(1)
        # the contract: eigenvalues up to the stated threshold are numerical noise (taken as exactly zero)
        w = lambda k: app(W, lift(k), *fvs, sort="cx")
        P.it.extra_rules.append(threshold_rule(W))
        P.equal("operators reproduce the Choi matrix", seq_sum(it, seq, term), lift(c.fn(x, y)))
    V.function(CH + ".kraus_operators", setup, post)

    # ---- reported dimensions of a Choi channel
    def setup(it):
        c = Choi(it)
        return [], {}, {"self": analytic(it, c.obj, "choi"), "c": c}
    for attr, want in (("input_dimension", "din"), ("output_dimension", "dout"), ("dim_in", "di"), ("dim_out", "do"), ("_current_n", None)):
        def post(P, out, env, want=want):
            if returns(P, out):
                P.equal("value", out[1], getattr(env["c"], want) if want else ic(1))
        V.function(CHAN + ":AnalyticQChan." + attr, setup, post)
    V.assume_text("qutip.Qobj.istp / iscp decide trace preservation and complete positivity of a Choi matrix of the given dims",
                  "numpy.linalg.eigh returns a unitary V and real w with A = V diag(w) V^H",
                  "eigenvalues of a positive semidefinite matrix are nonnegative",
                  "eigenvalues up to 1e-8 of a Choi matrix are numerical noise of exact zeros",
                  "A A^H and A^H A have the same nonzero spectrum")


def threshold_rule(W):
    """[w_k <= c] w_k = 0 for a tiny c >= 0: eigenvalues below are noise."""
    def rule(nf, t):
        for a in t.atoms:
            if a.op == "app" and a.args[0] == W:
                for g in t.guards:
                    if g.op == "rle":
                        p = pdict(g.args[0])
                        c = p.get((a,), (0, 0))[0]
                        rest = {m: k for m, k in p.items() if m != (a,)}
                        if c > 0 and all(m == () and 0 <= -k[0] / c <= Fraction(1, 10 ** 6) for m, k in rest.items()):
                            return []
        return None
    return rule
