from .lib import *


def tp_spec(m, p, q, name="K"):
    """every entry of sum K^H K is within 1e-5 of the identity"""
    k, l = idx(2)
    a, i = idx(2)
    s = S((a, m), (i, p), mul(conj(app(name, a, i, k, sort="cx")), app(name, a, i, l, sort="cx")))
    d = sub(s, ite(eq(k, l), cc(1), cc(0)))
    return not_(exists(k, q, exists(l, q, not_(lt(app("real:abs", d, sort="cx"), cc(Fraction(1, 100000)))))))


def verify(V):
    for sparse in (False, True):
        c = "SparseKraus" if sparse else "DenseKraus"

        def setup(it, sparse=sparse):
            k = K(it, sparse)
            return [], {}, {"self": k.obj, "k": k}

        def post(P, out, env):
            if not returns(P, out):
                return
            k = env["k"]
            P.holds("accepts exactly when sum K^H K is the identity", iff(lift(out[1], "bool"), tp_spec(k.m, k.dout, k.din)))
        V.function("%s:%s.is_trace_perserving" % (KRAUS, c), setup, post)

    # constructors: accepted exactly when every operator has the stated dimensions
    for cname, given in (("DenseKraus", "list"), ("DenseKraus", "array"), ("SparseKraus", "list"), ("SparseKraus", "array"),
                         ("SparseKraus", "sparse")):
        def setup(it, cname=cname, given=given):
            m, di, do, q0, q1, p, q = [dim(it, x) for x in ("m", "di", "do", "q0", "q1", "p", "q")]
            ops = operators(it, "K", m, p, q, given)
            return [ops, it.lst([q0, q1]), di, do], {}, {"fn": cls(KRAUS, cname), "p": p, "q": q, "din": it.power(di, q0), "dout": it.power(do, q1)}

        def post(P, out, env):
            fits = and_(eq(env["p"], env["dout"]), eq(env["q"], env["din"]))
            if out[0] == "normal":
                P.holds("accepted operators have the stated dimensions", fits)
            elif out[0] == "raise":
                P.holds("only operators of other dimensions are rejected (%s)" % out[1].name, not_(fits))
        V.function("%s:%s.__init__" % (KRAUS, cname), setup, post, label="dimensions, " + given)

    # types
    for cname in ("DenseKraus", "SparseKraus"):
        for what in ("tuple", "string", "none", "number"):
            def setup(it, what=what, cname=cname):
                ops = {"tuple": (it.nd(table("K", var("p"), var("q"))),), "string": "XX", "none": None, "number": 3}[what]
                return [ops, it.lst([1, 1]), 2, 2], {}, {"fn": cls(KRAUS, cname)}

            def post(P, out, env):
                raises(P, out, "TypeError", "is rejected with TypeError")
            V.function("%s:%s.__init__" % (KRAUS, cname), setup, post, label=what)

    # AnalyticQChan: operators become a channel exactly when they are trace preserving
    for sparse in (False, True):
        for given in ("list", "array") + (("sparse",) if sparse else ()):
            def setup(it, sparse=sparse, given=given):
                m, di, do, q0, q1 = [dim(it, x) for x in ("m", "di", "do", "q0", "q1")]
                p, q = it.power(do, q1), it.power(di, q0)
                ops = operators(it, "K", m, p, q, given)
                return [ops, it.lst([q0, q1]), di, do], {"sparse": True} if sparse else {}, {"fn": cls(CHAN, "AnalyticQChan"), "m": m, "p": p, "q": q, "q0": q0, "q1": q1, "di": di, "do": do}

            def post(P, out, env, sparse=sparse):
                tp = tp_spec(env["m"], env["p"], env["q"])
                if out[0] == "normal":
                    it = P.it
                    P.holds("an accepted channel is trace preserving", tp)
                    ch = out[1]
                    P.equal("reports the input dimension", it.get_attr(ch, "input_dimension"), env["q"])
                    P.equal("reports the output dimension", it.get_attr(ch, "output_dimension"), env["p"])
                    P.equal("number of operators", it.get_attr(ch, "numb_krauss"), env["m"])
                    P.equal("operators are the given ones", it.get_attr(ch, "kraus"), table("K", env["m"], env["p"], env["q"]))
                elif out[0] == "raise":
                    P.holds("only operators that are not trace preserving are rejected (%s)" % out[1].name, not_(tp))
            V.function(CHAN + ":AnalyticQChan.__init__", setup, post, label="%s, %s" % ("sparse" if sparse else "dense", given))
    for what in ("tuple", "string", "none", "number"):
        for sparse in (False, True):
            def setup(it, what=what, sparse=sparse):
                ops = {"tuple": (it.nd(table("K", var("p"), var("q"))),), "string": "XX", "none": None, "number": 3}[what]
                return [ops, it.lst([1, 1]), 2, 2], {"sparse": True} if sparse else {}, {"fn": cls(CHAN, "AnalyticQChan")}

            def post(P, out, env):
                raises(P, out, "TypeError", "is rejected with TypeError")
            V.function(CHAN + ":AnalyticQChan.__init__", setup, post, label="%s %s" % (what, "sparse" if sparse else "dense"))
    V.assume_text("numpy/sparse operations act as their exact mathematical definitions (no rounding)")
