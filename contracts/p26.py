from .lib import *
from .p24 import world

OPTF = AVG + ":_optimize_average_entang_fid"


def picos(it):
    """The modelling layer picos and the matrices of cvxopt: the program is recorded."""
    it.heap["CALLS"] = ()

    def problem(it, name, args, kwargs):
        if "PROBLEM" in it.heap:
            raise Unsupported("several programs")
        rec = {"vars": (), "cons": (), "obj": (), "opts": (), "solve": ()}
        it.heap["PROBLEM"] = rec

        def add(kind, make):
            def call(it, args, kwargs):
                x = make(it, args, kwargs)
                r = dict(it.heap["PROBLEM"])
                r[kind] = r[kind] + (x[0],)
                it.heap["PROBLEM"] = r
                return x[1]
            return Opaque(kind, attrs={"call": call})

        def variable(it, args, kwargs):
            name, size, kind = (list(args) + [kwargs.get("size"), kwargs.get("vtype", "continuous")][len(args) - 1:])[:3]
            x = Opaque("variable %s" % name, attrs={"#binop": rel, "#variable": True})
            return (x, size, kind), x

        def rel(it, op, a, b):
            if op in ("RShift", "LShift"):
                return Opaque("semidefinite", attrs={"#con": ("psd", a, b) if op == "RShift" else ("psd", b, a)})
            if op == "BitOr":
                return Opaque("inner product", attrs={"#inner": (a, b)})
            raise Unsupported("%s of a variable" % op)
        return Opaque("problem", attrs={
            "add_variable": add("vars", variable),
            "add_constraint": add("cons", lambda it, a, k: (a[0], None)),
            "set_objective": add("obj", lambda it, a, k: ((a[0], a[1]), None)),
            "set_option": add("opts", lambda it, a, k: ((a[0], a[1]), None)),
            "solve": add("solve", lambda it, a, k: (dict(k), it.new_dict({"status": Opaque("status"), "time": Opaque("time")}))),
            "obj_value": Opaque("obj_value", attrs={"call": lambda it, a, k: Opaque("value" if it.heap["PROBLEM"]["solve"] else "value before solving")})})
    it.externals["picos.Problem"] = problem

    def ptrace(it, name, args, kwargs):
        names = ["X", "k", "dim"]
        b = dict(zip(names, args))
        b.update(kwargs)

        def cmp(it, t, a, c):
            if t != "Eq":
                raise Unsupported("comparison %s of a partial trace" % t)
            other = c if isinstance(a, Opaque) and "#pt" in a.attrs else a
            return Opaque("trace condition", attrs={"#con": ("pt", b, other)})
        return Opaque("partial trace", attrs={"#pt": b, "#cmp": cmp})
    it.externals["picos.partial_trace"] = ptrace

    def spmatrix(it, name, args, kwargs):
        b = dict(zip(["x", "I", "J", "size"], args))
        b.update(kwargs)
        parts = [b[x].attrs.get("#coo") if isinstance(b[x], Opaque) else None for x in "xIJ"]
        if any(p is None for p in parts) or len({p[1].ref for p in parts}) != 1 or parts[0][0] != "data" or \
                {parts[1][0], parts[2][0]} != {"row", "col"}:
            raise Unsupported("sparse matrix from %r" % (parts,))
        a = it.arr(parts[0][1])
        if parts[1][0] == "col":
            a = Arr(a.shape[::-1], lambda i, j, a=a: a.fn(j, i), a.sort)
        if "size" in b:
            sh = it.concrete_items(b["size"])
            for x, y in zip(sh, a.shape):
                if not it.ctx.valid(eq(lift(x), lift(y))):
                    raise Unsupported("size of a sparse matrix")
        else:                   # cvxopt: up to the last row and column that are stored
            up = [fresh("size") for _ in a.shape]
            for x, y in zip(up, a.shape):
                it.ctx.assume(and_(le(ic(0), x), le(x, lift(y))))
            a = Arr(tuple(up), a.fn, a.sort)
        return it.nd(a, sparse="cvx")
    it.externals["cvxopt.spmatrix"] = spmatrix


def check_program(P, env, K, m, din, dout, d, options=None):
    """The recorded program maximises sum |tr(R K_j)|^2 / d^2 over Choi matrices din -> dout."""
    it = P.it
    rec = it.heap.get("PROBLEM")
    if rec is None or len(rec["solve"]) != 1 or len(rec["vars"]) != 1 or len(rec["obj"]) != 1:
        return P.fail("one program is solved", "%r" % (rec and {k: len(v) for k, v in rec.items()},))
    (x, size, kind), = rec["vars"]
    P.holds("Hermitian variable", lift(kind == "hermitian"))
    for s in it.concrete_items(size):
        P.equal("size of the Choi matrix", lift(s), mul(lift(din), lift(dout)))
    cons = [c.attrs.get("#con") if isinstance(c, Opaque) else None for c in rec["cons"]]
    psd = [c for c in cons if c and c[0] == "psd"]
    pts = [c for c in cons if c and c[0] == "pt"]
    if len(cons) != 2 or len(psd) != 1 or len(pts) != 1:
        return P.fail("positivity and trace preservation, nothing else", "%r" % (cons,))
    P.holds("positive semidefinite", lift(psd[0][1] is x and same(it, psd[0][2], 0)))
    b, rhs = pts[0][1], pts[0][2]
    P.holds("the trace condition is on the variable", lift(b.get("X") is x))
    P.holds("... is the identity", lift(rhs == "I"))
    P.holds("... over the output", lift(same(it, b.get("k"), 1)))
    dims = [tuple(it.concrete_items(t)) for t in it.concrete_items(b["dim"])]
    if len(dims) != 2:
        return P.fail("two factors", "%d" % len(dims))
    for t, want in zip(dims, (din, dout)):
        for s in t:
            P.equal("factors input, output", lift(s), lift(want))
    (direction, e), = rec["obj"]
    P.holds("maximised", lift(direction == "max"))
    ab = e.attrs.get("#inner") if isinstance(e, Opaque) else None
    if ab is None or x not in ab:
        return P.fail("inner product with the variable", "%r" % (e,))
    M = [y for y in ab if y is not x][0]
    A = it.arr(M)

    i1, o1, i2, o2 = [fresh(z) for z in ("i", "o", "i", "o")]
    for s in A.shape:
        P.equal("size of the objective", lift(s), mul(lift(din), lift(dout)))
    c = it.ctx
    c.assume(and_(*[and_(le(ic(0), z), lt(z, lift(h))) for z, h in ((i1, din), (o1, dout), (i2, din), (o2, dout))]))
    at = lambda i, o: add(mul(i, lift(dout)), o)
    j, = idx(1)
    for f in (at(i1, o1), at(i2, o2)):       # row-major positions stay in range
        c.assume(and_(le(ic(0), f), lt(f, mul(lift(din), lift(dout)))))
    got = lift(A.fn(at(i1, o1), at(i2, o2)), "cx")
    want = S((j, m), mul(conj(K(j, i1, o1)), K(j, i2, o2)))
    P.equal("average entanglement fidelity", mul(got, tocx(mul(lift(d), lift(d)))), want)
    for k, v in (options or {}).items():
        vals = [b for a, b in rec["opts"] if a == k]
        P.holds("option %s of the user" % k, lift(bool(vals) and same(it, vals[-1], v)))


def check_result(P, out):
    it = P.it
    d = it.heap[out[1].ref]
    nm = lambda x: getattr(x, "name", None)
    (x, _, _), = it.heap["PROBLEM"]["vars"]
    P.holds("reported map, value and status are those of the program",
            lift(d.get("optimal_recov") is x and nm(d.get("optimal_val")) == "value" and nm(d.get("status")) == "status"
                 and nm(d.get("time")) == "time"))


def verify(V):
    for given in ("dense", "sparse"):
        for enc in (False, True):
            for opts in (None, (), ("maxit", "feastol", "abstol", "reltol"), ("feastol",)):
                if opts in ((), ("feastol",)) and (enc or given == "sparse"):
                    continue

                def setup(it, given=given, enc=enc, opts=opts):
                    picos(it)
                    m = dim(it, "m")
                    di, do, q0, q1 = dim(it, "di"), dim(it, "do"), dim(it, "q0"), dim(it, "q1")
                    din, dout = app("pow", di, q0), app("pow", do, q1)
                    it.ctx.assume(and_(le(ic(1), din), le(ic(1), dout)))
                    sp = "csr" if given == "sparse" else False
                    ks = Lst(it.new(Seq("list", (Sub(m, lambda j: it.nd(Arr((din, dout), lambda a, b: app("K", lift(j), lift(a), lift(b), sort="cx"), "cx"), sparse=sp)),))))
                    w = {"m": m, "din": din, "dout": dout, "o": None if opts is None else {k: app("real:opt_" + k, sort="cx") for k in opts}}
                    kw = {"encoder": enc, "verbose": False}
                    if opts is not None:
                        kw["options"] = it.new_dict(dict(w["o"]))
                    return [ks, (q0, q1), di, do], kw, w

                def post(P, out, env, enc=enc):
                    if not returns(P, out):
                        return
                    K_ = lambda j, a, b: app("K", lift(j), lift(a), lift(b), sort="cx")
                    check_program(P, env, K_, env["m"], env["din"], env["dout"], env["din"] if enc else env["dout"], env["o"])
                    check_result(P, out)
                V.function(OPTF, setup, post, label="%s%s%s" % (given, " encoder" if enc else " decoder", "" if opts is None else " options " + "+".join(opts)))

    # ---- the decoder of a stabilizer code
    for sparse in (False, True):
        for opts in (False, True):
            def setup(it, sparse=sparse, opts=opts):
                w = world(it, sparse)
                it.heap["CALLS"] = ()
                N, n = w["N"], w["n"]

                def solve(it, f, args, kwargs):
                    r = Opaque("result")
                    log(it, "program", it.bind(f, args, kwargs), r)
                    return r
                it.contracts[OPTF] = solve

                def encoder(it, f, args, kwargs):
                    b = it.bind(f, args, kwargs)
                    log(it, "encoder", f.bound)
                    return it.nd(table("enc", N, 2), sparse="csr" if b["sparse"] is True else False)
                it.contracts[CODES + ":StabilizerCode.encode_krauss_operators"] = encoder
                w["stab"], w["o"] = Opaque("stabilizer"), Opaque("options")
                kw = {"sparse": True} if sparse else {}
                if opts:
                    kw["options"] = w["o"]
                return [w["stab"], (w["n"], 1), w["errs"]], kw, w

            def post(P, out, env, opts=opts):
                if not returns(P, out):
                    return
                it, n, N = P.it, env["n"], env["N"]
                pr, code, up, chans, enc = (calls(it, x) for x in ("program", "code", "update", "chan", "encoder"))
                if [len(x) for x in (pr, code, up)] != [1, 1, 1]:
                    return P.fail("one program for one code and one n-fold channel", "%r" % ([len(x) for x in (pr, code, up)],))
                b = pr[0][1]
                P.holds("the result is that of the program", lift(out[1] is pr[0][2]))
                P.holds("options of the user", lift(b["options"] is (env["o"] if opts else None)))
                P.holds("a decoder is sought", lift(b["encoder"] is False))
                q = it.concrete_items(b["numb_qubits"])
                P.equal("from n qubits", lift(q[0]), n)
                P.equal("to one qubit", lift(q[1]), ic(1))
                P.holds("qubits", lift(same(it, b["dim_in"], 2) and same(it, b["dim_out"], 2)))
                sb = code[0][2]
                P.holds("the code asked for", lift(sb["stabilizer_group"] is env["stab"] and all(same(it, c[1], code[0][1]) for c in enc)))
                P.equal("n of the code", sb["n"], n)
                P.equal("k of the code", sb["k"], ic(1))
                P.equal("the n-fold channel", up[0][2], n)
                src = [c for c in chans if same(it, c[3], up[0][1])]
                P.holds("of the operators given", lift(len(src) == 1 and same(it, src[0][2]["operator"], env["errs"])))
                M, sz = app("pow", env["m"], n), app("pow", ic(2), n)
                s = it.iter_seq(b["krauss"])
                P.equal("every n-fold operator", it.seq_len(s), M)
                j = fresh("j")
                it.ctx.assume(and_(le(ic(0), j), lt(j, M)))

                def want(a, c):
                    x, = idx(1)
                    return S((x, N), mul(app("nth", j, lift(a), x, sort="cx"), app("enc", x, lift(c), sort="cx")))
                P.equal("error after encoder", it.seq_get(s, j), Arr((N, 2), want, "cx"))
            V.function(AVG + ":optimize_decoder_stabilizers", setup, post, label="%s%s" % ("sparse" if sparse else "dense", " options" if opts else ""))

    # ---- what the objective means
    def lemma(P):
        it = P.it
        m, B, r, c = dim(it, "m"), dim(it, "B"), dim(it, "r"), dim(it, "c")
        K_ = lambda j, a, b: app("K", lift(j), lift(a), lift(b), sort="cx")
        R_ = lambda j, a, b: app("R", lift(j), lift(a), lift(b), sort="cx")
        # tr(C^H X) with X[(i,o),(i',o')] = sum_b R_b[o,i] R_b[o',i']^*
        j, b, i, o, i2, o2 = idx(6)
        lhs = S((j, m), (b, B), (i, r), (o, c), (i2, r), (o2, c),
                mul(conj(mul(conj(K_(j, i, o)), K_(j, i2, o2))), R_(b, o, i), conj(R_(b, o2, i2))))
        x, y, z, w, j2, b2 = idx(6)
        t = lambda j, b, x, y: S((x, r), (y, c), mul(R_(b, y, x), K_(j, x, y)))
        rhs = S((j2, m), (b2, B), mul(t(j2, b2, x, y), conj(t(j2, b2, z, w))))
        P.equal("<C, X> = sum |tr(R K)|^2", lhs, rhs)

        # feasibility: the Choi matrix of a channel meets the constraints
        a, e = var("a"), var("e")
        it.ctx.assume(and_(le(ic(0), a), lt(a, r), le(ic(0), e), lt(e, r)))
        s, u = idx(2)
        P.it.extra_rules.append(gram_rule("R", {0: B, 1: c}, [2]))
        P.equal("a channel meets the trace condition", S((u, B), (s, c), mul(conj(R_(u, s, e)), R_(u, s, a))), delta(a, e))
    V.lemma("objective", lemma)
    V.assume_text("picos states and cvxopt solves the program as written (positive semidefinite, partial trace equal to I, maximise the inner product)",
                  "contracts of StabilizerCode (P06) and of the Kraus operators (P13) are used in place of their bodies",
                  "'never worse than syndrome recovery' follows from optimality over all channels, as recovery by syndrome is a channel")
