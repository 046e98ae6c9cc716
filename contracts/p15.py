from .lib import *
from .p18 import Choi


def tensor_power(it, name, m, p, q):
    """T(e): the e-fold tensor product of the operators `name` (m of them, p x q), T(0) = 1, T(e+1) = K (x) T(e)."""
    def size(x, e):
        return it.power(lift(x), lift(e))

    def T(e):
        e = lift(e)
        d = pdict(e)
        c = d.pop((), 0)
        if c <= 0 or (c == 0):
            if c == 0 and not d:
                return Arr((1, 1, 1), lambda a, i, j: cc(1), "cx")
            return Arr((size(m, e), size(p, e), size(q, e)),
                       lambda a, i, j: app("T:" + name, e, lift(a), lift(i), lift(j), sort="cx"), "cx")
        r = T(sub(e, ic(1)))
        rm, rp, rq = [lift(x) for x in r.shape]

        def fn(a, i, j):
            a, i, j = lift(a), lift(i), lift(j)
            return mul(app(name, div(a, rm), div(i, rp), div(j, rq), sort="cx"), r.fn(mod(a, rm), mod(i, rp), mod(j, rq)))
        return Arr((mul(lift(m), rm), mul(lift(p), rp), mul(lift(q), rq)), fn, "cx")
    return T


def sizes_positive(it):
    """pow(x, e) >= 1 for x >= 1 and e >= 0 (lemma: induction on e)."""
    it.ctx.lemmas = dict(it.ctx.lemmas, pow=lambda x, e: implies(and_(le(ic(1), x), le(ic(0), e)), le(ic(1), app("pow", x, e))))


def state(it, sparse, cur):
    """A Kraus object satisfying the class invariant for `cur` copies."""
    k = K(it, sparse)
    T = tensor_power(it, "K", k.m, k.dout, k.din)
    sizes_positive(it)
    nth = T(cur)
    sp = "COO" if sparse else False
    d = dict(it.heap[k.obj.ref])
    d.update(current_n=D(lift(cur)), _nth_kraus_ops=it.nd(nth, sparse=sp), _nth_kraus_exch=it.nd(exch(nth), sparse=sp),
             _nth_kraus_ops_conj=it.nd(adj(nth), sparse=sp) if sparse else None)
    it.heap[k.obj.ref] = d
    real_caches(it, k.obj)
    k.T = T
    return k


def adj(nth):
    m, p, q = nth.shape
    return Arr((m, q, p), lambda a, i, j: conj(nth.fn(a, j, i)), "cx")


def exch(nth):
    m, p, q = nth.shape

    def fn(a, b, k, l):
        s, = idx(1)
        return S((s, p), mul(conj(nth.fn(a, s, k)), nth.fn(b, s, l)))
    return Arr((m, m, q, q), fn, "cx")


def invariant(P, k, n, nth, sparse):
    it = P.it
    get = lambda a: it.get_attr(k, a)
    P.equal("the operators are the n-fold tensor products", get("nth_kraus_ops"), nth)
    # the caches are those the real code makes of the n-fold operators (what it makes of them: P13, P14)
    heap = dict(it.heap)
    d = dict(it.heap[k.ref])
    d.update(current_n=lift(n), _nth_kraus_ops=it.nd(nth, sparse="COO" if sparse else False))
    ref = it.obj(k.cls, **d)
    tag = "" if real_caches(it, ref) else "~"
    P.equal(tag + "exchange tensor matches the operators", get("nth_kraus_exch"), it.get_attr(ref, "nth_kraus_exch") if not tag else exch(nth))
    if sparse:
        P.equal(tag + "adjoints match the operators", get("nth_kraus_ops_conj"), it.get_attr(ref, "nth_kraus_ops_conj") if not tag else adj(nth))
    it.heap = heap
    P.equal("the recorded number of copies is n", get("current_n"), lift(n))


def power_candidates(T, exps):
    """Loop invariant: the array is T(e + i) for one of the exponents e."""
    def cand(it, s, loc, v0):
        if loc[0] == "heap":
            return None
        if not isinstance(v0, Nd):
            return None
        a = it.arr(v0)
        if a.ndim != 3:
            return None
        for e in exps:
            g = T(e)
            if it.same_value(a, g, it.ctx):
                return lambda k, e=e: T(add(lift(e), lift(k)))
        return None
    return cand


def verify(V):
    for sparse in (False, True):
        c = "SparseKraus" if sparse else "DenseKraus"
        for case in ("n == current", "n > current", "1 = n < current", "2 <= n < current"):
            def setup(it, sparse=sparse, case=case):
                cur = ivar(it, "cur", 1)
                if case == "n == current":
                    n = cur
                elif case == "n > current":
                    n = ivar(it, "n")
                    it.ctx.assume(lt(cur, n))
                elif case == "1 = n < current":
                    n = 1
                    it.ctx.assume(lt(ic(1), cur))
                else:
                    n = ivar(it, "n", 2)
                    it.ctx.assume(lt(n, cur))
                k = state(it, sparse, cur)
                it.candidates.append(power_candidates(k.T, [ic(1), ic(2), cur, ic(0), ic(3)]))
                return [n], {}, {"self": k.obj, "k": k, "n": n}

            def post(P, out, env, sparse=sparse):
                if not returns(P, out):
                    return
                k = env["k"]
                invariant(P, k.obj, env["n"], k.T(env["n"]), sparse)
                P.equal("the given operators are unchanged", P.it.get_attr(k.obj, "kraus_ops"), k.ops)
            V.function("%s:Kraus.update_kraus_operators" % KRAUS, setup, post, label="%s, %s" % (c, case))

    # constructors establish the invariant for one copy
    for cname, given in (("DenseKraus", "list"), ("DenseKraus", "array"), ("SparseKraus", "list"), ("SparseKraus", "array"),
                         ("SparseKraus", "sparse")):
        sparse = cname == "SparseKraus"

        def setup(it, cname=cname, given=given):
            m, di, do, q0, q1 = [dim(it, x) for x in ("m", "di", "do", "q0", "q1")]
            sizes_positive(it)
            din, dout = it.power(di, q0), it.power(do, q1)
            ops = operators(it, "K", m, dout, din, given)
            return [ops, it.lst([q0, q1]), di, do], {}, {"fn": cls(KRAUS, cname), "m": m, "din": din, "dout": dout}

        def post(P, out, env, sparse=sparse):
            if not returns(P, out):
                return
            K1 = table("K", env["m"], env["dout"], env["din"])
            invariant(P, out[1], 1, K1, sparse)
            P.equal("the operators of one copy are the given ones", P.it.get_attr(out[1], "kraus_ops"), K1)
        V.function("%s:%s.__init__" % (KRAUS, cname), setup, post, label=given)

    # the channel object brings the operators of the requested n in place before using them
    for sparse in (False, True):
        def setup(it, sparse=sparse):
            k = K(it, sparse)
            n2 = dim(it, "n_asked")
            ch = analytic(it, k.obj, sparse=sparse)
            env = {"self": ch, "k": k, "n2": n2}
            update_contract(it)
            return [n2], {}, env

        def post(P, out, env):
            if not returns(P, out):
                return
            P.holds("the operators of n copies are in place", eq(lift(P.it.heap[env["k"].obj.ref]["current_n"]), env["n2"]))
        V.function(CHAN + ":AnalyticQChan._update_channel_tensored", setup, post, label="sparse" if sparse else "dense")
    # ... and reports the dimensions of those operators
    for sparse in (False, True):
        for what in ("input_dimension", "output_dimension"):
            def setup(it, sparse=sparse):
                k = K(it, sparse)
                return [], {}, {"self": analytic(it, k.obj, sparse=sparse), "k": k}

            def post(P, out, env, what=what):
                if returns(P, out):
                    k = env["k"]
                    P.equal("is that of n copies", out[1], P.it.power(k.din if what == "input_dimension" else k.dout, k.n))
            V.function(CHAN + ":AnalyticQChan." + what, setup, post, label="sparse" if sparse else "dense")

    # a Choi matrix stands for one copy only
    for one in (True, False):
        def setup(it, one=one):
            c = Choi(it)
            n = dim(it, "n_asked")
            it.ctx.assume((eq if one else ne)(n, ic(1)))
            return [1 if one else n], {}, {"self": analytic(it, c.obj, "choi")}

        def post(P, out, env, one=one):
            if one:
                returns(P, out)
            else:
                raises(P, out, None, "several copies of a Choi matrix are rejected")
        V.function(CHAN + ":AnalyticQChan._update_channel_tensored", setup, post, label="Choi, one copy" if one else "Choi, several copies")
    V.assume_text("numpy/sparse operations act as their exact mathematical definitions (no rounding)",
                  "pow(x, e) >= 1 for x >= 1, e >= 0 (elementary)")


def update_contract(it):
    """update_kraus_operators(n): afterwards the operators of n copies are in place (proved above)."""
    def update(it, f, args, kwargs):
        d = dict(it.heap[f.bound.ref])
        d["current_n"] = args[0] if args else kwargs["n"]
        it.heap[f.bound.ref] = d
        return None
    it.contracts[KRAUS + ":Kraus.update_kraus_operators"] = update

