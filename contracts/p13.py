from .lib import *


def verify(V):
    for sparse in (False, True):
        c = "SparseKraus" if sparse else "DenseKraus"
        for adj in (False, True):
            for batch in (False, True):
                def setup(it, sparse=sparse, adj=adj, batch=batch):
                    k = K(it, sparse)
                    d = k.P if adj else k.Q
                    if batch:
                        L = ivar(it, "L", 0)
                        rho = it.nd(table("rho", L, d, d))
                    else:
                        L = None
                        rho = it.nd(table("rho", d, d))
                    return [rho] + ([True] if adj else []), {}, {"self": k.obj, "k": k, "L": L}

                def post(P, out, env, adj=adj, batch=batch):
                    if not returns(P, out):
                        return
                    k = env["k"]
                    spec = k.adjoint_spec if adj else k.channel_spec
                    if batch:
                        d = k.Q if adj else k.P
                        want = Arr((env["L"], d, d), lambda l, i, j: spec(lambda p, q: app("rho", l, p, q, sort="cx")).fn(i, j), "cx")
                    else:
                        want = spec(f2("rho"))
                    P.equal("result is %s" % ("sum K^H rho K" if adj else "sum K rho K^H"), out[1], want)
                    P.equal("n-fold operators unchanged", P.it.get_attr(env["k"].obj, "nth_kraus_ops"), k.nth)
                V.function("%s:%s.channel" % (KRAUS, c), setup, post, label="%s%s" % ("adjoint" if adj else "forward", " batch" if batch else ""))

    # AnalyticQChan.channel: the n-fold operators of n are used, whatever n was used before
    for sparse in (False, True):
        for adj in (False, True):
            def setup(it, sparse=sparse, adj=adj):
                k = K(it, sparse)
                n2 = dim(it, "n_asked")
                ch = analytic(it, k.obj, sparse=sparse)
                rho = it.nd(table("rho", var("dd"), var("dd")))
                env = {"self": ch, "k": k, "n2": n2, "rho": rho}
                log_contracts(it, k, env)
                return [rho, n2] + ([True] if adj else []), {}, env

            def post(P, out, env, adj=adj):
                if not returns(P, out):
                    return
                calls = P.it.heap["CALLS"]
                P.holds("the operators in use are the n-fold ones", eq(lift(P.it.heap[env["k"].obj.ref]["current_n"]), env["n2"]))
                P.holds("the Kraus object's channel is applied to rho once",
                        lift(len(calls) == 1 and calls[0][0][0] is env["rho"] and calls[0][0][1] is adj and out[1] is calls[0][1]))
            V.function(CHAN + ":AnalyticQChan.channel", setup, post, label="%s %s" % ("sparse" if sparse else "dense", "adjoint" if adj else "forward"))

    def duality(P):
        it = P.it
        k = K(it, False)
        i, j, p, q = idx(4)
        lhs = S((i, k.P), (j, k.P), mul(app("X", j, i, sort="cx"), k.channel_spec(f2("rho")).fn(i, j)))
        rhs = S((p, k.Q), (q, k.Q), mul(k.adjoint_spec(f2("X")).fn(q, p), app("rho", p, q, sort="cx")))
        P.equal("tr(X N(rho)) = tr(N*(X) rho)", lhs, rhs)
    V.lemma("duality", duality)
    V.assume_text("numpy/sparse operations act as their exact mathematical definitions (no rounding)",
                  "class invariant of Kraus objects between calls (established by the constructor and kept by update_kraus_operators: P15)")


def log_contracts(it, k, env, method="channel"):
    """update_kraus_operators(n) by its contract (P15: afterwards the n-fold operators are in place), channel recorded."""
    it.heap["CALLS"] = ()

    def update(it, f, args, kwargs):
        d = dict(it.heap[f.bound.ref])
        d["current_n"] = args[0]
        d["_nth_kraus_ops"] = it.nd(Arr(k.nth.shape, lambda *i: app("Kn_for_n", lift(args[0]), *[lift(x) for x in i], sort="cx"), "cx"))
        it.heap[f.bound.ref] = d
        return None

    def channel(it, f, args, kwargs):
        r = Opaque("result")
        b = it.bind(f, args, kwargs)
        it.heap["CALLS"] = it.heap["CALLS"] + ((tuple(b[x.arg] for x in f.node.args.args[1:]), r),)
        return r
    name = "SparseKraus" if k.sparse else "DenseKraus"
    it.contracts[KRAUS + ":Kraus.update_kraus_operators"] = update
    it.contracts[KRAUS + ":%s.%s" % (name, method)] = channel
