"""The encoding isometry.

S_j is the Hermitian operator of generator j: its matrix M_j (P02), times i if it has an odd number of Y.  The S_j of a
code commute and square to one (lemma below, P02, P03).  Pi(i) = prod_{j < i} (1 + S_j) / 2.  Invariant of the loop over the
generators: after e generators the columns are orthonormal and E E^H = Pi(e)."""
from .lib import *
from . import p01, p02

STAB = CODES + ":StabilizerCode"
T_ = lambda name: lambda j, p, q: app(name, lift(j), lift(p), lift(q), sort="cx")
Smat, Pmat, Emat = T_("S"), T_("Pi"), T_("E")


def parity(w, j):
    """The number of Y of generator j is odd."""
    q, = idx(1)
    x, z = w["bit"](j, q), w["bit"](j, add(q, w["n"]))
    return eq(mod(S((q, w["n"]), ite(and_(x, z), ic(1), ic(0))), ic(2)), ic(1))


def Pi(i, D_):
    """Pi(i) in terms of Pi(i - 1); Pi(0) = 1."""
    i = lift(i)
    if const_of(i) == 0:
        return lambda p, q: delta(p, q)
    j = sub(i, ic(1))
    old = Pi(j, D_) if const_of(j) == 0 else lambda p, q: Pmat(j, p, q)

    def new(p, q):
        r, = idx(1)
        return mul(Fraction(1, 2), add(old(p, q), S((r, D_), mul(old(p, r), Smat(j, r, q)))))
    return new


def factor(a):
    """(kind, index, row, column) of an atom read as a matrix entry; EH is the adjoint of E."""
    h = a.op == "conj"
    b = a.args[0] if h else a
    if b.op != "app" or b.args[0] not in ("S", "Pi", "E"):
        return None
    k, j, p, q = b.args
    if k == "E":
        return ("EH", j, q, p) if h else ("E", j, p, q)
    return (k, j, q, p) if h else (k, j, p, q)


def entry(f):
    k, j, p, q = f
    return conj(Emat(j, q, p)) if k == "EH" else T_(k)(j, p, q)


def algebra(projector=True):
    """S_j Hermitian, S_j S_j = 1, S_j commutes with Pi(i) and, for j < i, is absorbed by it; Pi(i) is a projector;
    E(i)^H E(i) = 1, E(i) E(i)^H = Pi(i)."""
    from pyded.nf import Term

    def rule(nf, t):
        for j, a in enumerate(t.atoms):
            if a.op == "conj" and a.args[0].op == "app" and a.args[0].args[0] in ("S", "Pi"):
                return [Term(t.c, t.binders, t.guards, t.atoms[:j] + (entry(factor(a)),) + t.atoms[j + 1:])]
        for b, h in t.binders:
            v = b.args[0]
            if any(v in g.fv for g in t.guards) or any(v in x.fv for _, x in t.binders):
                continue
            use = [(l, a) for l, a in enumerate(t.atoms) if v in a.fv]
            if len(use) != 2 or any(factor(a) is None for _, a in use):
                continue
            (l1, L), (l2, R) = [(l, factor(a)) for l, a in use]
            if L[3] is not b:
                l1, L, l2, R = l2, R, l1, L
            if L[3] is not b or R[2] is not b or v in L[2].fv | R[3].fv | L[1].fv | R[1].fv:
                continue
            rest = [x for l, x in enumerate(t.atoms) if l not in (l1, l2)]
            gone = [x for x in t.binders if x[0] is not b]
            same = L[1] is R[1] or nf.ctx.valid(eq(L[1], R[1]))
            put = lambda x: [Term(t.c, gone, t.guards, rest + [entry(x)])]
            k = (L[0], R[0])
            if k == ("S", "S") and not same and L[1].key > R[1].key:
                # distinct generators commute
                return [Term(t.c, t.binders, t.guards, rest + [entry(("S", R[1], L[2], b)), entry(("S", L[1], b, R[3]))])]
            if k in (("EH", "E"), ("S", "S")) and same:
                return [Term(t.c, gone, list(t.guards) + [eq(L[2], R[3])], rest)]
            if k == ("E", "EH") and same:
                return put(("Pi", L[1], L[2], R[3]))
            if k == ("Pi", "E") and same:
                return put(("E", L[1], L[2], R[3]))
            if k == ("EH", "Pi") and same:
                return put(("EH", L[1], L[2], R[3]))
            if projector and k == ("Pi", "Pi") and same:
                return put(("Pi", L[1], L[2], R[3]))
            if projector and k == ("S", "Pi"):
                return [Term(t.c, t.binders, t.guards, rest + [entry(("Pi", R[1], L[2], b)), entry(("S", L[1], b, R[3]))])]
        return None
    return rule


class Spec:
    """The loop over the generators: one matrix is carried."""

    def __init__(self, w):
        self.w, self.var, self.off = w, None, None

    def orthonormal(self, it, a, j, l):
        p, = idx(1)
        return S((p, lift(a.shape[0])), mul(conj(lift(a.fn(p, j), "cx")), lift(a.fn(p, l), "cx")))

    def projector(self, it, a):
        def f(p, q):
            c, = idx(1)
            return S((c, lift(a.shape[1])), mul(lift(a.fn(p, c), "cx"), conj(lift(a.fn(q, c), "cx"))))
        return Arr((a.shape[0],) * 2, f, "cx")

    def wanted(self, e):
        return Arr((self.w["D"],) * 2, Pi(e, self.w["D"]), "cx")

    def offered(self, s):
        it, some = s.it, []
        for x in s.names:
            v = s.frame.env.get(x)
            if isinstance(v, Nd) and it.arr(v).ndim == 2 and it.shape_eq(it.arr(v).shape[:1], (self.w["D"],)):
                some.append(x)
                for off in (1, 0):
                    if it.same_value(self.projector(it, it.arr(v)), self.wanted(ic(off)), it.ctx):
                        self.var, self.off = x, off
                        return self
        if len(some) == 1:
            self.var, self.off = some[0], 1
            return self
        return None

    def start(self, s):
        s.it.heap["SPEC"] = True

    def check(self, s, i, what):
        it = s.it
        v = s.frame.env.get(self.var)
        a = it.arr(v) if isinstance(v, Nd) else None
        if a is None or a.ndim != 2:
            raise Unsupported("the matrix of the columns")
        oblige(it, "the columns live in the whole space: " + what, eq(lift(a.shape[0]), self.w["D"]))
        j, l = fresh("j"), fresh("l")
        c = it.ctx.clone()
        c.assume(and_(*[and_(le(ic(0), x), lt(x, lift(a.shape[1]))) for x in (j, l)]))
        equal(it, "the columns are orthonormal: " + what, self.orthonormal(it, a, j, l), delta(j, l), c)
        equal(it, "they span the eigenspace of the generators so far: " + what, self.projector(it, a), self.wanted(add(i, ic(self.off))), it.ctx)

    def enter(self, s, i):
        it = s.it
        e = add(i, ic(self.off))
        it.ctx.assume(le(ic(0), app("R", e)))
        s.frame.env[self.var] = it.nd(Arr((self.w["D"], app("R", e)), lambda p, c: Emat(e, p, c), "cx"))

    def covers(self, s, r, p):
        return False

    def exit_ok(self, s, p):
        return False


def equal(it, name, a, b, ctx):
    ok = it.same_value(a, b, ctx)
    it.obligations.append((name, "discharged" if ok else "unproved", ""))


def oblige(it, name, f):
    ok = it.ctx.valid(f)
    it.obligations.append((name, "discharged" if ok else "unproved", ""))


def verify(V):
    for sparse in (False, True):
        def setup(it, sparse=sparse):
            n, m = dim(it, "n"), dim(it, "m")
            two = mul(ic(2), n)
            w = {"n": n, "m": m, "D": app("pow", ic(2), n)}
            it.ctx.lemmas = dict(it.ctx.lemmas, pow=lambda x, e: implies(and_(le(ic(1), x), le(ic(0), e)), le(ic(1), app("pow", x, e))))
            w["bit"] = lambda j, q: app("bit:g", lift(j), lift(q), sort="bool")
            w["rows"] = it.nd(bits(it, "g", m, two))
            rows = bits(it, "g", m, two)

            def paulis(it, f, args, kwargs):
                b = it.bind(f, args, kwargs)
                a = it.arr(b["binary_rep"])
                if not it.same_value(a, rows, it.ctx):
                    raise Unsupported("matrices of other rows")
                sp = "csr" if it.branch(it.truth(b["sparse"])) else False

                def M(j):
                    return it.nd(Arr((w["D"],) * 2, lambda p, q: ite(parity(w, j), mul(cc((Fraction(0), Fraction(-1))), Smat(j, p, q)), Smat(j, p, q)), "cx"), sparse=sp)
                return Lst(it.new(Seq("list", (Sub(m, M),))))
            it.contracts[STAB + ".binary_rep_to_pauli_mat"] = paulis
            w["self"] = code(it, m, n, sub(n, m), stab=w["rows"])
            it.find_involutions = True
            it.axioms.append(algebra())
            it.loop_specs = [lambda s: Spec(w).offered(s)]
            return [], {"sparse": True} if sparse else {}, w

        def post(P, out, env, sparse=sparse):
            if not returns(P, out):
                return
            it = P.it
            v = out[1]
            if not isinstance(v, Nd) or it.arr(v).ndim != 2:
                return P.fail("a matrix is returned", repr(v))
            a, D_ = it.arr(v), env["D"]
            P.holds("dense or sparse as asked", lift(is_sparse(v) == sparse))
            P.equal("one row per basis state", a.shape[0], D_)
            sp = Spec(env)
            j, l = [ivar(it, x, 0, a.shape[1]) for x in "jl"]
            P.equal("the columns are orthonormal", sp.orthonormal(it, a, j, l), delta(j, l))
            P.equal("they span the joint eigenspace", sp.projector(it, a), Arr((D_, D_), lambda p, q: Pmat(env["m"], p, q), "cx"))
        V.function(STAB + ".encode_krauss_operators", setup, post, "sparse" if sparse else "dense")

    # ------------------------------------------------------------ the operators S_j
    def adjoint(P):
        """P(x, z)^H = (-1)^(x z) P(x, z); the signs multiply along the qubits."""
        it = P.it
        s = lambda b: ite(eq(lift(b), ic(0)), cc(1), cc(-1))
        c, f = ivar(it, "c", 0), var("entry", "cx")
        for x in (0, 1):
            for z in (0, 1):
                a = lambda r, q: p02.pauli(lift(bool(x)), lift(bool(z)), lift(r), lift(q))
                P.equal("one qubit %d%d" % (x, z), Arr((2, 2), lambda r, q: conj(a(q, r)), "cx"),
                        Arr((2, 2), lambda r, q: mul(s(x * z), a(r, q)), "cx"))
                # M^H = (-1)^c M on e qubits (entry f) gives (M (x) P)^H = (-1)^(c + x z) M (x) P
                P.equal("step %d%d" % (x, z), Arr((2, 2), lambda r, q: mul(s(mod(c, ic(2))), f, conj(a(q, r))), "cx"),
                        Arr((2, 2), lambda r, q: mul(s(mod(add(c, ic(x * z)), ic(2))), f, a(r, q)), "cx"))
        m, p = var("M", "cx"), cc((Fraction(0), Fraction(1)))
        P.equal("i M is Hermitian if M^H = -M", conj(mul(p, m)), mul(p, cc(-1), conj(m)))
        P.equal("(i M)^2 = -M^2", mul(p, m, p, m), mul(cc(-1), m, m))
    V.lemma("the operators are Hermitian and square to one", adjoint)

    # ------------------------------------------------------------ the projectors Pi(i)
    def algebra_of(P, name="j"):
        it = P.it
        D_, i, j = dim(it, "D"), ivar(it, "i", 0), ivar(it, name, 0)
        it.extra_rules.append(algebra())
        p, q = ivar(it, "p", 0, D_), ivar(it, "q", 0, D_)
        return it, D_, i, j, p, q

    def mm(D_, *fs):
        def g(p, q):
            if len(fs) == 1:
                return fs[0](p, q)
            r, = idx(1)
            return S((r, D_), mul(fs[0](p, r), mm(D_, *fs[1:])(r, q)))
        return g

    def step(P):
        """From the facts about Pi(i) those about Pi(i + 1) = Pi(i) (1 + S_i) / 2."""
        it, D_, i, j, p, q = algebra_of(P)
        new, s = Pi(add(i, ic(1)), D_), lambda x: (lambda a, b: Smat(x, a, b))
        P.equal("commutes with the operators", mm(D_, new, s(j))(p, q), mm(D_, s(j), new)(p, q))
        P.equal("idempotent", mm(D_, new, new)(p, q), new(p, q))
        P.equal("Hermitian", conj(new(q, p)), new(p, q))
        P.equal("absorbs the new operator", mm(D_, s(i), new)(p, q), new(p, q))
        one = lambda a, b: delta(a, b)
        first = Pi(ic(1), D_)
        s0 = s(ic(0))
        P.equal("base: Hermitian", conj(first(q, p)), first(p, q))
        P.equal("base: idempotent", mm(D_, first, first)(p, q), first(p, q))
        P.equal("base: commutes", mm(D_, first, s(j))(p, q), mm(D_, s(j), first)(p, q))
        P.equal("base: absorbs", mm(D_, s0, first)(p, q), first(p, q))
        P.equal("Pi(0) = 1", mm(D_, one, one)(p, q), delta(p, q))
    V.lemma("the projectors", step)

    def earlier(P):
        """S_j Pi(i) = Pi(i) for j < i gives S_j Pi(i + 1) = Pi(i + 1)."""
        it, D_, i, j, p, q = algebra_of(P, "earlier")
        it.extra_rules.append(absorb(j))
        P.equal("absorbs the earlier operators", mm(D_, lambda a, b: Smat(j, a, b), Pi(add(i, ic(1)), D_))(p, q), Pi(add(i, ic(1)), D_)(p, q))

    def absorb(j):
        from pyded.nf import Term

        def rule(nf, t):
            # Pi(i) S_j = Pi(i) for the j of the lemma
            for b, h in t.binders:
                use = [(l, a) for l, a in enumerate(t.atoms) if b.args[0] in a.fv]
                if len(use) == 2 and not any(b.args[0] in g.fv for g in t.guards):
                    fs = [(l, factor(a)) for l, a in use]
                    for (l1, L), (l2, R) in (fs, fs[::-1]):
                        if L and R and L[0] == "Pi" and L[3] is b and R[0] == "S" and R[2] is b and R[1] is j:
                            rest = [x for l, x in enumerate(t.atoms) if l not in (l1, l2)]
                            return [Term(t.c, [x for x in t.binders if x[0] is not b], t.guards, rest + [entry(("Pi", L[1], L[2], R[3]))])]
            return None
        return rule
    V.lemma("earlier operators", earlier)

    def complete(P):
        """A vector that every S_j fixes is fixed by every Pi(i): the columns miss nothing of the joint eigenspace."""
        it = P.it
        D_, i, p = dim(it, "D"), ivar(it, "i", 0), ivar(it, "p", 0, dim(it, "D"))
        v = lambda a: app("v", a, sort="cx")
        from pyded.nf import Term

        def rule(nf, t):
            for b, h in t.binders:
                use = [(l, a) for l, a in enumerate(t.atoms) if b.args[0] in a.fv]
                if len(use) == 2 and not any(b.args[0] in g.fv for g in t.guards):
                    for (l1, L), (l2, R) in (use, use[::-1]):
                        if L.op == "app" and L.args[0] in ("S", "Pi") and L.args[3] is b and R is v(b):
                            rest = [x for l, x in enumerate(t.atoms) if l not in (l1, l2)]
                            return [Term(t.c, [x for x in t.binders if x[0] is not b], t.guards, rest + [v(L.args[2])])]
            return None
        it.extra_rules.append(rule)
        a, = idx(1)
        P.equal("step", S((a, D_), mul(Pi(add(i, ic(1)), D_)(p, a), v(a))), v(p))
        P.equal("base", S((a, D_), mul(Pi(ic(1), D_)(p, a), v(a))), v(p))
    V.lemma("the whole eigenspace", complete)

    # ------------------------------------------------------------ the number of columns
    def halves(order):
        def f(P):
            """G anticommutes with S_i and commutes with Pi(i), G^H G = G G^H = 1: tr(Pi(i) S_i) = -tr(Pi(i) S_i)."""
            it = P.it
            D_, i = dim(it, "D"), ivar(it, "i", 0)
            G = lambda a, b: app("G", a, b, sort="cx")
            a, b, c, d = idx(4)
            whole = S((a, D_), (b, D_), (c, D_), (d, D_), mul(conj(G(b, a)), G(b, c), Pmat(i, c, d), Smat(i, d, a)))
            from pyded.nf import Term

            def fac(x):
                if x.op == "app" and x.args[0] == "G":
                    return ("G", None, x.args[1], x.args[2])
                if x.op == "conj" and x.args[0].op == "app" and x.args[0].args[0] == "G":
                    return ("GH", None, x.args[0].args[2], x.args[0].args[1])
                return factor(x)

            def rule(nf, t):
                for e, h in t.binders:
                    use = [(l, fac(x)) for l, x in enumerate(t.atoms) if e.args[0] in x.fv]
                    if len(use) != 2 or any(x is None for _, x in use) or any(e.args[0] in g.fv for g in t.guards):
                        continue
                    for (l1, L), (l2, R) in (use, use[::-1]):
                        if L[3] is not e or R[2] is not e:
                            continue
                        rest = [x for l, x in enumerate(t.atoms) if l not in (l1, l2)]
                        gone = [x for x in t.binders if x[0] is not e]
                        if (L[0], R[0]) == (("GH", "G") if order == "cancel" else ("G", "GH")):
                            return [Term(t.c, gone, list(t.guards) + [eq(L[2], R[3])], rest)]
                        if order == "move" and L[0] == "G" and R[0] in ("S", "Pi"):
                            s = -1 if R[0] == "S" else 1
                            return [Term((s * t.c[0], s * t.c[1]), t.binders, t.guards, rest + [entry((R[0], R[1], L[2], e)), G(e, R[3])])]
                return None
            it.extra_rules.append(rule)
            tr = S((a, D_), (b, D_), mul(Pmat(i, a, b), Smat(i, b, a)))
            P.equal("tr(G^H G Pi S) " + ("= tr(Pi S)" if order == "cancel" else "= -tr(Pi S)"), whole, tr if order == "cancel" else neg(tr))
            if order == "cancel":
                new = Pi(add(i, ic(1)), D_)
                P.equal("the trace is halved if tr(Pi S) = 0", S((a, D_), new(a, a)), mul(Fraction(1, 2), add(S((b, D_), Pmat(i, b, b)), tr)))
                R, N = dim(it, "R"), dim(it, "N")
                j, p = idx(2)
                P.equal("tr(E E^H) = tr(E^H E)", S((p, N), (j, R), mul(Emat(i, p, j), conj(Emat(i, p, j)))),
                        S((j, R), (p, N), mul(conj(Emat(i, p, j)), Emat(i, p, j))))
                P.equal("one for each column", S((j, R), delta(j, j)), lift(R, "cx"))
                P.equal("tr Pi(0)", S((a, D_), delta(a, a)), lift(D_, "cx"))
        return f
    V.lemma("number of columns", halves("cancel"))
    V.lemma("number of columns, moving G", halves("move"))
    V.assume_text("the contract of binary_rep_to_pauli_mat (P02) is used in place of its body; the rows commute (P03) and are independent",
                  "independent rows: some Pauli operator G anticommutes with generator i and commutes with the generators before it",
                  "numpy.linalg.eigh returns a unitary V and real w with A = V diag(w) V^H; eigenvalues of A with A^2 = 1 are 1 and -1",
                  "induction over the generators: base and step are the lemmas on the projectors; the trace of Pi(m) is 2^n / 2^m, the number of columns")
