"""P02: binary rows denote the right matrices, and the product bit is commutation."""
from .lib import *

MAT = CODES + ":StabilizerCode.binary_rep_to_pauli_mat"
ONE = CODES + ":StabilizerCode.index_to_qubit_pauli"
PROD = CODES + ":StabilizerCode.inner_prod"


def pauli(x, z, r, c):
    """Entry (r, c) of the single-qubit matrix of the bits x, z (booleans): I, X, Z, XZ."""
    r, c = lift(r), lift(c)
    dia, off = eq(r, c), not_(eq(r, c))
    sign = ite(eq(c, ic(0)), cc(1), cc(-1))         # Z on the column
    return mul(ite(ite(x, off, dia), cc(1), cc(0)), ite(z, sign, cc(1)))


def truth(it, v):
    """A bit of the program as a boolean (which it must be)."""
    v = lift(v)
    if v.sort == "bool":
        return v
    if v.op == "ite" and const_of(v.args[1]) in (1, (1, 0)) and const_of(v.args[2]) in (0, (0, 0)):
        return v.args[0]
    if not it.ctx.valid(or_(eq(v, lift(0, v.sort)), eq(v, lift(1, v.sort)))):
        raise Unsupported("index_to_qubit_pauli of something that is not a bit")
    return eq(v, lift(1, v.sort))


def one_contract(it):
    """index_to_qubit_pauli by its contract (verified below): the shared constant of the bits."""
    def h(it, f, args, kwargs):
        b = it.bind(f, args, kwargs)
        x, z = truth(it, b["x1"]), truth(it, b["x2"])
        r = it.nd(Arr((2, 2), lambda r, c: pauli(x, z, r, c), "cx"), sparse="CSR" if it.branch(it.truth(b["sparse"])) else False)
        it.readonly.add(r.ref)
        return r
    it.contracts[ONE] = h


def tensor(bit):
    """T(i, e): tensor product of the matrices of the qubits 0 .. e-1 of row i, qubit 0 leftmost:
    T(i, 0) = 1, T(i, e + 1) = T(i, e) (x) P(x_e, z_e)."""
    def T(i, e):
        e = lift(e)
        c = pdict(e).get((), 0)
        if c <= 0:
            if const_of(e) == 0:
                return Arr((1, 1), lambda r, c: cc(1), "cx")
            s = app("pow", ic(2), e)
            return Arr((s, s), lambda r, c: app("T", lift(i), e, lift(r), lift(c), sort="cx"), "cx")
        p = T(i, sub(e, ic(1)))
        q = sub(e, ic(1))
        return Arr(tuple(mul(ic(2), lift(s)) for s in p.shape),
                   lambda r, c: mul(p.fn(div(lift(r), ic(2)), div(lift(c), ic(2))),
                                    pauli(*bit(i, q), mod(lift(r), ic(2)), mod(lift(c), ic(2)))), "cx")
    return T


def tensor_candidates(T, i):
    """Invariant: before iteration k the matrix is that of the first e + k qubits (e = 1, 0, 2)."""
    def cand(it, s, loc, v0):
        if loc[0] != "env" or not isinstance(v0, Nd):
            return None
        a = it.arr(v0)
        if a.ndim != 2:
            return None
        rows = {x.args[1] for x in subterms(lift(a.fn(fresh("r"), fresh("c")))) if x.op == "app" and x.args[0] == "bit:b"}
        for row in sorted(rows | {i}, key=lambda x: x.key):
            for e in (1, 0, 2):
                if it.same_value(a, T(row, ic(e)), it.ctx):
                    return lambda k, e=e, row=row: T(row, add(ic(e), lift(k)))
        return None
    return cand


def verify(V):
    for sparse in (False, True):
        def setup(it, sparse=sparse):
            n, m = dim(it, "n"), ivar(it, "m", 0)
            it.ctx.lemmas = dict(it.ctx.lemmas, pow=lambda x, e: implies(and_(le(ic(1), x), le(ic(0), e)), le(ic(1), app("pow", x, e))))
            one_contract(it)
            T = tensor(lambda i, q: (app("bit:b", i, q, sort="bool"), app("bit:b", i, add(q, n), sort="bool")))
            it.candidates.append(tensor_candidates(T, ic(0)))
            b = it.nd(bits(it, "b", m, mul(ic(2), n)))
            return [b], {"sparse": True} if sparse else {}, {"n": n, "m": m, "T": T, "b": b}

        def post(P, out, env, sparse=sparse):
            if not returns(P, out):
                return
            it, n, m = P.it, env["n"], env["m"]
            s = it.iter_seq(out[1])
            P.equal("one matrix per row", lift(it.seq_len(s)), m)
            i = fresh("i")
            c = it.ctx.clone()
            it.ctx.assume(and_(le(ic(0), i), lt(i, m)))
            x = it.seq_get(s, i)
            P.equal("matrix i is the tensor product, first qubit leftmost", x, env["T"](i, n))
            P.holds("dense or sparse as asked", lift(is_sparse(x) == sparse))
            P.equal("the rows are unchanged", env["b"], bits(it, "b", m, mul(ic(2), n)))
        V.function(MAT, setup, post, "sparse" if sparse else "dense")

    for nd in (1, 3):
        def setup(it, nd=nd):
            return [it.nd(table("v", *[ivar(it, "s%d" % j, 0) for j in range(nd)], sort="int"))], {}, {}
        V.function(MAT, setup, lambda P, out, env: raises(P, out, "TypeError"), "%d-dimensional" % nd)

    for sparse in (False, True):
        for sort in ("int", "cx"):
            def setup(it, sparse=sparse, sort=sort):
                x, z = var("x", sort), var("z", sort)
                return [x, z], {"sparse": True} if sparse else {}, {"x": x, "z": z}

            def post(P, out, env, sparse=sparse):
                x, z = env["x"], env["z"]
                bit = lambda v: or_(eq(v, lift(0, v.sort)), eq(v, lift(1, v.sort)))
                if out[0] == "raise":
                    P.holds("only other values are rejected", not_(and_(bit(x), bit(z))))
                    return P.holds("with ValueError", lift(out[1].name == "ValueError"))
                P.holds("other values are rejected", and_(bit(x), bit(z)))
                one = lambda v: eq(v, lift(1, v.sort))
                P.equal("the matrix of the bits", out[1], Arr((2, 2), lambda r, c: pauli(one(x), one(z), r, c), "cx"))
                P.holds("dense or sparse as asked", lift(is_sparse(out[1]) == sparse))
            V.function(ONE, setup, post, "%s %s" % ("sparse" if sparse else "dense", "integers" if sort == "int" else "floats"))

    def setup(it):
        n = ivar(it, "n", 0)
        a, b = bits(it, "a", mul(ic(2), n)), bits(it, "b", mul(ic(2), n))
        return [it.nd(a), it.nd(b)], {}, {"n": n}

    def post(P, out, env):
        if not returns(P, out):
            return
        n = env["n"]
        k, = idx(1)
        x = lambda w, j: ite(app("bit:" + w, j, sort="bool"), ic(1), ic(0))
        P.equal("parity of the positions that anticommute", lift(out[1]),
                mod(S((k, n), add(mul(x("a", k), x("b", add(n, k))), mul(x("a", add(n, k)), x("b", k)))), ic(2)))
    V.function(PROD, setup, post)

    def product(P):
        """(A' B')[r, c] = (A B)[r / d, c / d] (a b)[r % d, c % d] for A' = A (x) a, B' = B (x) b"""
        it = P.it
        N, d = dim(it, "N"), dim(it, "d")
        mat = lambda u: lambda r, c: app(u, lift(r), lift(c), sort="cx")
        kron = lambda u: lambda r, c: mul(mat(u.upper())(div(r, d), div(c, d)), mat(u)(mod(r, d), mod(c, d)))

        def mm(A, B, n, r, c):
            k, = idx(1)
            return S((k, n), mul(A(r, k), B(k, c)))
        r1, c1, r2, c2 = ivar(it, "r1", 0, N), ivar(it, "c1", 0, N), ivar(it, "r2", 0, d), ivar(it, "c2", 0, d)
        r, c = add(mul(d, r1), r2), add(mul(d, c1), c2)
        P.equal("product of tensor products", mm(kron("a"), kron("b"), mul(d, N), r, c),
                mul(mm(mat("A"), mat("B"), N, r1, c1), mm(mat("a"), mat("b"), d, r2, c2)))
    V.lemma("products of tensor products", product)

    def sign(P):
        """One qubit: ab = (-1)^(x z' + z x') ba, aa = (-1)^(x z) 1; the signs multiply along the qubits."""
        it = P.it
        mm = lambda p, q, r, c: add(*[mul(pauli(*p, r, ic(k)), pauli(*q, ic(k), c)) for k in (0, 1)])
        s = lambda b: ite(eq(lift(b), ic(0)), cc(1), cc(-1))
        parity, f = ivar(it, "parity", 0), var("entry", "cx")
        sb = lambda v: lift(bool(v))
        for x, z, y, w in __import__("itertools").product((0, 1), repeat=4):
            p, q = (sb(x), sb(z)), (sb(y), sb(w))
            bit = (x * w + z * y) % 2
            one = Arr((2, 2), lambda r, c: mm(p, q, lift(r), lift(c)), "cx")
            P.equal("one qubit %d%d %d%d" % (x, z, y, w), one, Arr((2, 2), lambda r, c: mul(s(bit), mm(q, p, lift(r), lift(c))), "cx"))
            # AB = s BA on e qubits gives A'B' = s s' B'A' on e + 1 (entry: of BA)
            P.equal("step %d%d %d%d" % (x, z, y, w),
                    Arr((2, 2), lambda r, c: mul(s(mod(parity, ic(2))), f, mm(p, q, lift(r), lift(c))), "cx"),
                    Arr((2, 2), lambda r, c: mul(s(mod(add(parity, ic(x * w + z * y)), ic(2))), f, mm(q, p, lift(r), lift(c))), "cx"))
            if (x, z) == (y, w):
                P.equal("square %d%d" % (x, z), one, Arr((2, 2), lambda r, c: mul(s(x * z), delta(r, c)), "cx"))
    V.lemma("commutation", sign)
    V.assume_text("induction over the number of qubits: the base case is the empty product 1, the step the lemmas on products and signs; "
                  "squares are +-1, so matrices that commute never anticommute")
