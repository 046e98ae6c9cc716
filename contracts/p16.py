from .lib import *


def pair(it, kind1, kind2):
    """Two arrays of operators, A: m1 x (a x b), B: m2 x (c x d)."""
    A = dict(m=dim(it, "m1"), p=dim(it, "pa"), q=dim(it, "qa"))
    B = dict(m=dim(it, "m2"), p=dim(it, "pb"), q=dim(it, "qb"))
    A["v"], B["v"] = operators(it, "A", A["m"], A["p"], A["q"], kind1), operators(it, "B", B["m"], B["p"], B["q"], kind2)
    return A, B


def ent(name):
    return lambda a, i, j: app(name, lift(a), lift(i), lift(j), sort="cx")


def serial_action(A, B, rho):
    """A(B(rho))"""
    inner = kraus_action(B["m"], B["p"], B["q"], ent("B"), rho)
    return kraus_action(A["m"], A["p"], A["q"], ent("A"), lambda i, j: inner.fn(i, j))


def parallel_action(A, B, rho):
    """sum_ij (A_i (x) B_j) rho (A_i (x) B_j)^H"""
    pb, qb = lift(B["p"]), lift(B["q"])

    def fn(i, j):
        a, b, k1, k2, l1, l2 = idx(6)
        i, j = lift(i), lift(j)
        body = mul(ent("A")(a, div(i, pb), k1), ent("B")(b, mod(i, pb), k2), rho(add(mul(k1, qb), k2), add(mul(l1, qb), l2)),
                   conj(ent("A")(a, div(j, pb), l1)), conj(ent("B")(b, mod(j, pb), l2)))
        return S((a, A["m"]), (b, B["m"]), (k1, A["q"]), (k2, qb), (l1, A["q"]), (l2, qb), body)
    n = mul(lift(A["p"]), pb)
    return Arr((n, n), fn, "cx")


def acts_as(P, name, ops, want):
    """The channel of the operator array is the given map."""
    it = P.it
    a = it.arr(ops)
    if a.ndim != 3:
        return P.fail(name, "the operators are not a three-dimensional array")
    m, p, q = a.shape
    P.equal(name, kraus_action(m, p, q, lambda x, i, j: a.fn(lift(x), lift(i), lift(j)), f2("rho")), want)
    return m, p, q


def kraus_obj(it, name, tag, sparse, m, di, do, q0, q1):
    """A Kraus object for the operators `name` in its state after construction (only what other objects may read)."""
    din, dout = it.power(di, q0), it.power(do, q1)
    sp = "COO" if sparse else False
    ops = it.nd(table(name, m, dout, din), sparse=sp)
    # any number of copies may be in place
    f = {"_kraus_ops": ops, "numb_kraus": m, "_numb_qubits": it.lst([q0, q1]), "input_dim": din, "output_dim": dout,
         "_dim_in": di, "_dim_out": do, "_shape": (din, dout), "current_n": dim(it, "cur" + tag),
         "_nth_kraus_ops": it.nd(table("Kn" + tag, dim(it, "Mn" + tag), dim(it, "Pn" + tag), dim(it, "Qn" + tag)), sparse=sp)}
    if not sparse:
        f["_orthogonal_kraus"] = ()
    return kraus_state(it, sparse, f), din, dout


def two(it, sparse1, sparse2, match):
    d = {}
    for t, name, sp in (("1", "A", sparse1), ("2", "B", sparse2)):
        d["m" + t], d["di" + t], d["do" + t], d["q0" + t], d["q1" + t] = [dim(it, x + t) for x in ("m", "di", "do", "q0_", "q1_")]
    for t, name, sp in (("1", "A", sparse1), ("2", "B", sparse2)):
        d["k" + t], d["din" + t], d["dout" + t] = kraus_obj(it, name, t, sp, d["m" + t], d["di" + t], d["do" + t], d["q0" + t], d["q1" + t])
    if match is True:
        it.ctx.assume(eq(d["din1"], d["dout2"]))
    elif match is False:
        it.ctx.assume(ne(d["din1"], d["dout2"]))
    A = dict(m=d["m1"], p=d["dout1"], q=d["din1"])
    B = dict(m=d["m2"], p=d["dout2"], q=d["din2"])
    for name, X in (("A", A), ("B", B)):
        # precondition of a channel: sum K^H K = 1
        it.axioms.append(gram_rule(name, {0: X["m"], 1: X["p"]}, [2]))
        if match is True and name == "A":
            # its columns are counted by the output dimension of B
            pass
    d["A"], d["B"] = A, B
    return d


def verify(V):
    for cname in ("DenseKraus", "SparseKraus"):
        kinds = [("array", "array"), ("list", "array"), ("array", "list"), ("list", "list")] + \
                ([("sparse", "sparse"), ("sparse", "array")] if cname == "SparseKraus" else [])
        for k1, k2 in kinds:
            for op in ("serial", "parallel"):
                def setup(it, k1=k1, k2=k2, op=op):
                    A, B = pair(it, k1, k2)
                    if op == "serial":
                        it.ctx.assume(eq(A["q"], B["p"]))
                    return [A["v"], B["v"]], {}, {"A": A, "B": B}

                def post(P, out, env, op=op):
                    if not returns(P, out):
                        return
                    A, B = env["A"], env["B"]
                    if op == "serial":
                        acts_as(P, "the operators act as first B then A", out[1], serial_action(A, B, f2("rho")))
                    else:
                        acts_as(P, "the operators act as A on the first and B on the second subsystem", out[1], parallel_action(A, B, f2("rho")))
                V.function("%s:%s.%s_concatenate" % (KRAUS, cname, op), setup, post, label="%s, %s" % (k1, k2))

            def setup(it, k1=k1, k2=k2):
                A, B = pair(it, k1, k2)
                it.ctx.assume(ne(A["q"], B["p"]))
                return [A["v"], B["v"]], {}, {}
            V.function("%s:%s.serial_concatenate" % (KRAUS, cname), setup,
                       lambda P, out, env: raises(P, out, "TypeError", "operators that do not fit are rejected"),
                       label="mismatch %s, %s" % (k1, k2))

    # Kraus objects and channels
    for level in ("DenseKraus", "SparseKraus", "dense+dense", "dense+sparse", "sparse+dense", "sparse+sparse"):
        chan = "+" in level
        sp1 = level.startswith("sparse") or level == "SparseKraus"
        sp2 = level.endswith("sparse") or level == "SparseKraus"
        qual = (CHAN + ":AnalyticQChan") if chan else "%s:%s" % (KRAUS, level)
        for op in ("__add__", "__mul__"):
            for match in ((True, False) if op == "__add__" else (None,)):
                def setup(it, chan=chan, sp1=sp1, sp2=sp2, match=match):
                    d = two(it, sp1, sp2, match)
                    a, b = d["k1"], d["k2"]
                    if chan:
                        a, b = analytic(it, a, sparse=sp1), analytic(it, b, sparse=sp2)
                    return [b], {}, dict(d, self=a)

                def post(P, out, env, op=op, match=match, chan=chan):
                    it = P.it
                    if match is False:
                        raises(P, out, "TypeError", "operators that do not fit are rejected")
                        return
                    if not returns(P, out):
                        return
                    A, B = env["A"], env["B"]
                    r = out[1]
                    get = lambda n: it.get_attr(r, n)
                    ops = get("kraus" if chan else "kraus_ops")
                    if op == "__add__":
                        acts_as(P, "acts as first B then A", ops, serial_action(A, B, f2("rho")))
                        din, dout = env["din2"], env["dout1"]
                        q0, q1 = env["q02"], env["q11"]
                        di, do = env["di2"], env["do1"]
                        P.equal("input particles", it.wrap_item(it.iter_seq(get("numb_qubits")), it.seq_get(it.iter_seq(get("numb_qubits")), 0)), q0)
                        P.equal("output particles", it.wrap_item(it.iter_seq(get("numb_qubits")), it.seq_get(it.iter_seq(get("numb_qubits")), 1)), q1)
                        P.equal("dimension of an input particle", get("dim_in"), di)
                        P.equal("dimension of an output particle", get("dim_out"), do)
                    else:
                        acts_as(P, "acts as A on the first and B on the second subsystem", ops, parallel_action(A, B, f2("rho")))
                        din, dout = mul(env["din1"], env["din2"]), mul(env["dout1"], env["dout2"])
                        nq = it.iter_seq(get("numb_qubits"))
                        P.equal("input dimension and particles agree", it.power(lift(get("dim_in")), lift(it.seq_get(nq, 0))), din)
                        P.equal("output dimension and particles agree", it.power(lift(get("dim_out")), lift(it.seq_get(nq, 1))), dout)
                    P.equal("input dimension", get("input_dimension" if chan else "input_dim"), din)
                    P.equal("output dimension", get("output_dimension" if chan else "output_dim"), dout)
                V.function("%s.%s" % (qual, op), setup, post, label="%s%s" % (level, "" if match is not False else ", mismatch"))
    V.assume_text("numpy/sparse operations act as their exact mathematical definitions (no rounding)",
                  "the composed channels are exactly trace preserving (sum K^H K = 1)")
