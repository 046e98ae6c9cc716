from .lib import *
from .p18 import Choi


def states(it, n, N):
    """n Hermitian matrices of size N (every density matrix is one)"""
    return Lst(it.new(Seq("list", (Sub(n, lambda k: it.nd(Arr((N, N), lambda i, j: rho(k, i, j), "cx"))),))))


def rho(k, i, j):
    return add(app("R", lift(k), lift(i), lift(j), sort="cx"), conj(app("R", lift(k), lift(j), lift(i), sort="cx")))


def definition(n, c):
    """sum_i p_i sum_k |tr(K_k rho_i)|^2"""
    i, k = idx(2)

    def tr():
        a, b = idx(2)
        return S((a, c.din), (b, c.din), mul(c.K(k, a, b), rho(i, b, a)))
    return S((i, n), (k, c.m), mul(app("real:p", i, sort="cx"), tr(), conj(tr())))


def verify(V):
    for front in (False, True):
        for match in (True, False):
            for container in ("list", "array"):
                def setup(it, front=front, match=match, container=container):
                    c = Choi(it)
                    if match:
                        it.ctx.assume(eq(c.din, c.dout))
                    else:
                        it.ctx.assume(ne(c.din, c.dout))
                    n = ivar(it, "n", 0)
                    if container == "list":
                        probs = Lst(it.new(Seq("list", (Sub(n, lambda k: app("real:p", lift(k), sort="cx")),))))
                        st = states(it, n, c.din)
                    else:
                        probs = it.nd(Arr((n,), lambda k: app("real:p", lift(k), sort="cx"), "cx"))
                        st = it.nd(Arr((n, c.din, c.din), rho, "cx"))
                    o = analytic(it, c.obj, "choi") if front else c.obj
                    return [probs, st], {}, {"self": o, "c": c, "n": n}

                def post(P, out, env, match=match):
                    if not match:
                        return raises(P, out, "ValueError", "a channel between different dimensions is rejected")
                    if returns(P, out):
                        P.equal("equals the definition", out[1], definition(env["n"], env["c"]))
                V.function((CHAN + ":AnalyticQChan" if front else CHOI + ":ChoiQutip") + ".average_entanglement_fidelity", setup, post,
                           label="%s, dimensions %s" % (container, "agree" if match else "differ"))
    # Kraus representations: the definition, or exactly the recorded finding (known_findings.txt: P19-dense, P19-sparse)
    for sparse in (False, True):
        for container in ("list", "array"):
            def setup(it, sparse=sparse, container=container):
                k = K(it, sparse)
                it.ctx.assume(eq(k.din, k.dout))
                n = ivar(it, "n", 0)
                if container == "list":
                    probs = Lst(it.new(Seq("list", (Sub(n, lambda j: app("real:p", lift(j), sort="cx")),))))
                    st = states(it, n, k.din)
                else:
                    probs = it.nd(Arr((n,), lambda j: app("real:p", lift(j), sort="cx"), "cx"))
                    st = it.nd(Arr((n, k.din, k.din), rho, "cx"))
                return [probs, st], {}, {"self": k.obj, "k": k, "n": n}

            def post(P, out, env, sparse=sparse):
                if not returns(P, out):
                    return
                k, n = env["k"], env["n"]
                i, m = idx(2)
                K1 = lambda a, x, y: app(k.k1, lift(a), lift(x), lift(y), sort="cx")

                def over(tr, v, size):
                    return S((i, n), (v, size), mul(app("real:p", i, sort="cx"), tr(v), conj(tr(v))))

                def trace(v):
                    a, b = idx(2)
                    return S((a, k.din), (b, k.din), mul(K1(v, a, b), rho(i, b, a)))

                def all_entries(v):
                    a, b, c = idx(3)
                    return S((a, k.dout), (b, k.din), (c, k.din), mul(K1(v, a, b), rho(i, b, c)))

                def wrong_axes(v):
                    a, b = idx(2)
                    return S((a, ite(le(k.m, k.dout), k.m, k.dout)), (b, k.din), mul(K1(a, a, b), rho(i, b, v)))
                want = over(trace, m, k.m)
                known = over(wrong_axes, m, k.din) if sparse else over(all_entries, m, k.m)
                if P.decide_eq(lift(out[1], "cx"), want, P.it.ctx)[0] == "discharged":
                    return P.equal("equals the definition", out[1], want)
                P.equal("is the definition, or the recorded finding", out[1], known)
            V.function("%s:%s.average_entanglement_fidelity" % (KRAUS, "SparseKraus" if sparse else "DenseKraus"), setup, post, label=container)

    # the channel hands the question to its representation
    for kind in ("kraus", "choi"):
        def setup(it, kind=kind):
            if kind == "kraus":
                o = K(it, False).obj
            else:
                o = Choi(it).obj
            it.heap["CALLS"] = ()

            def aef(it, f, args, kwargs):
                b = it.bind(f, args, kwargs)
                it.heap["CALLS"] = it.heap["CALLS"] + ((f.bound, b["probs"], b["states"]),)
                return Opaque("fidelity")
            it.contracts[(KRAUS + ":DenseKraus" if kind == "kraus" else CHOI + ":ChoiQutip") + ".average_entanglement_fidelity"] = aef
            p, s = Opaque("probs"), Opaque("states")
            return [p, s], {}, {"self": analytic(it, o, kind), "o": o, "p": p, "s": s}

        def post(P, out, env):
            if returns(P, out):
                cs = P.it.heap["CALLS"]
                P.holds("asked once, for these states", lift(len(cs) == 1 and cs[0][0].ref == env["o"].ref and cs[0][1] is env["p"]
                                                             and cs[0][2] is env["s"] and getattr(out[1], "name", "") == "fidelity"))
        V.function(CHAN + ":AnalyticQChan.average_entanglement_fidelity", setup, post, label="delegates, " + kind)
    V.assume_text("the states are Hermitian matrices of the input dimension",
                  "the Choi matrix is that of Kraus operators (P18)")
