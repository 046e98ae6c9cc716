from .lib import *

EFF = FIND + ":effective_channel_with_stabilizers"
OPTIONS = ("param", "lipschitz", "use_pool", "maxiter", "samples", "disp")


def world(it, sparse):
    """Contracts of the parts: the stabilizer code (P06-P08), the Kraus operators (P13-P17), the optimizers (P22)."""
    n, m, J = dim(it, "n"), dim(it, "m"), dim(it, "J")
    N = app("pow", ic(2), n)
    it.ctx.assume(le(ic(1), N))
    errs = it.nd(table("err", m, 2, 2))
    w = {"n": n, "m": m, "J": J, "N": N, "errs": errs}
    it.heap["CALLS"] = ()

    def code(it, c, args, kwargs):
        o = it.obj(c)
        b = bind_init(it, c, o, args, kwargs)
        log(it, "code", o, b)
        return o
    it.contracts[CODES + ":StabilizerCode"] = code

    def chan(it, c, args, kwargs):
        o = it.obj(c)
        b = bind_init(it, c, o, args, kwargs)
        k = it.obj(cls(KRAUS, "SparseKraus" if b["sparse"] is True else "DenseKraus"), _kraus_ops=b["operator"], _nth_kraus_ops=b["operator"])
        d = dict(it.heap[o.ref])
        d.update(sparse=b["sparse"], _type="kraus", krauss=k)
        it.heap[o.ref] = d
        log(it, "chan", o, b, k)
        return o
    it.contracts[CHAN + ":AnalyticQChan"] = chan

    def update(it, f, args, kwargs):
        b = it.bind(f, args, kwargs)
        # P13: the operators become the n-fold tensor power
        M, sz = app("pow", m, lift(b["n"])), app("pow", ic(2), lift(b["n"]))
        nth = it.nd(table("nth", M, sz, sz), sparse="COO" if f.bound.cls.name == "SparseKraus" else False)
        d = dict(it.heap[f.bound.ref])
        d["_nth_kraus_ops"] = nth
        it.heap[f.bound.ref] = d
        log(it, "update", f.bound, b["n"], nth)
        return None
    for c in ("Kraus", "SparseKraus", "DenseKraus"):
        it.contracts[KRAUS + ":%s.update_kraus_operators" % c] = update

    def encoder(it, f, args, kwargs):
        b = it.bind(f, args, kwargs)
        e = it.nd(table("enc", N, 2), sparse="COO" if b["sparse"] is True else False)
        log(it, "encoder", f.bound, e)
        return e
    it.contracts[CODES + ":StabilizerCode.encode_krauss_operators"] = encoder

    def recover(it, f, args, kwargs):
        b = it.bind(f, args, kwargs)
        sp = "COO" if it.branch(it.truth(b["sparse"])) else False
        r = Lst(it.new(Seq("list", (Sub(J, lambda j: it.nd(Arr((N, N), lambda a, c: app("rec", lift(j), lift(a), lift(c), sort="cx"), "cx"), sparse=sp)),))))
        log(it, "recover", f.bound, b["pauli_errors"], r)
        return r
    it.contracts[CODES + ":StabilizerCode.kraus_operators_correcting_errors"] = recover

    def optimize(what):
        def h(it, f, args, kwargs):
            b = it.bind(f, args, kwargs)
            r = Opaque("result")
            log(it, "optimize", what, f.bound, b, r)
            return r
        return h
    for what in ("coherent", "fidelity"):
        it.contracts[CHAN + ":AnalyticQChan.optimize_" + what] = optimize(what)
    return w


def option_values(it, keys):
    return {k: {"param": "cholesky", "lipschitz": ivar(it, "opt_lipschitz", 0), "use_pool": ivar(it, "opt_pool", 0),
                "maxiter": ivar(it, "opt_maxiter", 1), "samples": Opaque("samples"), "disp": True}[k] for k in keys}


def verify(V):
    for objective in ("coherent", "fidelity", None):
        for sparse in (False, True):
            for keys in [None, (), OPTIONS] + [(k,) for k in OPTIONS]:
                if keys not in (None, OPTIONS) and (objective is None or sparse):
                    continue

                def setup(it, objective=objective, sparse=sparse, keys=keys):
                    w = world(it, sparse)
                    w["opts"] = None if keys is None else option_values(it, keys)
                    w["given"] = None if keys is None else it.new_dict(w["opts"])
                    w["stab"] = Opaque("stabilizer")
                    kw = {"sparse": True} if sparse else {}
                    if objective is not None:
                        kw["optimize"] = objective
                    if keys is not None:
                        kw["options"] = w["given"]
                    return [w["stab"], (w["n"], 1), w["errs"]], kw, w

                def post(P, out, env, objective=objective, sparse=sparse):
                    if not returns(P, out):
                        return
                    it, n = P.it, env["n"]
                    opt, code, chans = calls(it, "optimize"), calls(it, "code"), calls(it, "chan")
                    if len(opt) != 1:
                        return P.fail("one optimization", "%d" % len(opt))
                    _, what, ch, b, res = opt[0]
                    P.holds("the result is that of the optimizer", lift(out[1] is res))
                    P.holds("the objective asked for", lift(what == (objective or "coherent")))
                    P.holds("one use of the effective channel", lift(same(it, b["n"], 1)))
                    if what == "coherent":
                        P.holds("full rank states", lift(same(it, b["rank"], 2)))
                        P.holds("not rescaled", lift(b["regularized"] is False))
                    for k, v in (env["opts"] or {}).items():
                        P.holds("option %s of the user" % k, lift(same(it, b[k], v)))
                    # the channel
                    mine = [c for c in chans if same(it, c[1], ch)]
                    if len(mine) != 1 or len(code) != 1:
                        return P.fail("the channel optimized", "%d channels, %d codes" % (len(mine), len(code)))
                    cb = mine[0][2]
                    sb = code[0][2]
                    P.holds("the code asked for", lift(sb["stabilizer_group"] is env["stab"] and sb["logical_ops"] is None))
                    P.equal("n of the code", sb["n"], n)
                    P.equal("k of the code", sb["k"], ic(1))
                    P.holds("qubits", lift(same(it, cb["dim_in"], 2) and same(it, cb["dim_out"], 2)))
                    q = it.concrete_items(cb["numb_qubits"])
                    P.equal("input of one logical qubit", lift(q[0]), ic(1))
                    P.equal("output of n qubits", lift(q[1]), n)
                    s = it.iter_seq(cb["operator"])
                    P.equal("one operator per recovered error", it.seq_len(s), env["J"])
                    j = fresh("j")
                    it.ctx.assume(and_(le(ic(0), j), lt(j, env["J"])))
                    N = env["N"]

                    def want(a, c):
                        x, = idx(1)
                        return S((x, N), mul(app("rec", j, lift(a), x, sort="cx"), app("enc", x, lift(c), sort="cx")))
                    P.equal("recovery after error after encoder", it.seq_get(s, j), Arr((N, 2), want, "cx"))
                    rec, up = calls(it, "recover"), calls(it, "update")
                    enc = calls(it, "encoder")
                    P.holds("recovery and encoder of that code", lift(len(rec) == 1 and len(enc) == 1 and same(it, rec[0][1], code[0][1])
                                                                      and same(it, enc[0][1], code[0][1])))
                    if len(up) != 1 or len(rec) != 1:
                        return P.fail("the n-fold error", "%d updates" % len(up))
                    P.equal("the n-fold error", up[0][2], n)
                    src = [c for c in chans if same(it, c[3], up[0][1])]
                    P.holds("the error channel is that of the errors given", lift(len(src) == 1 and same(it, src[0][2]["operator"], env["errs"])))
                    if len(src) == 1:
                        eb = src[0][2]
                        P.holds("of one qubit", lift(same(it, eb["dim_in"], 2) and same(it, eb["dim_out"], 2)
                                                     and [same(it, x, 1) for x in it.concrete_items(eb["numb_qubits"])] == [True, True]))
                    M, sz = app("pow", env["m"], n), app("pow", ic(2), n)
                    P.equal("all n-fold errors are recovered", rec[0][2], table("nth", M, sz, sz))
                V.function(EFF, setup, post, label="%s%s %s" % (objective or "default", " sparse" if sparse else "",
                                                                "no options" if keys is None else "options " + "+".join(keys)))

    # ---- rejections
    for small in (True, False):
        def setup_k(it, small=small):
            w = world(it, False)
            k = 0 if small else ivar(it, "k", 1)
            d = dim(it, "d")
            it.ctx.assume(ne(ic(1) if small else app("pow", ic(2), k), d))
            return [Opaque("stabilizer"), (w["n"], k), it.nd(table("err", w["m"], d, d))], {}, w
        V.function(EFF, setup_k, lambda P, out, env: raises(P, out, "TypeError", "errors of another dimension are rejected"),
                   label="wrong dimension" + (", k = 0" if small else ""))
    for bad in ("entropy", "", "Coherent", 3, None):
        def setup_o(it, bad=bad):
            w = world(it, False)
            return [Opaque("stabilizer"), (w["n"], 1), w["errs"]], {"optimize": bad}, w
        V.function(EFF, setup_o, lambda P, out, env: raises(P, out, "TypeError", "another objective is rejected"), label="objective %r" % (bad,))
    V.assume_text("contracts of StabilizerCode (P06-P08, P12), of the Kraus operators (P13-P17) and of the optimizers (P22) are used in place of their bodies")
