from .lib import *

OV, CHO = PARAM + ":OverParam", PARAM + ":CholeskyParam"
IM = cc((Fraction(0), Fraction(1)))


def reals(it, name, n):
    return it.nd(Arr((n,), lambda k: app("real:" + name, lift(k), sort="cx"), "cx"))


def over_amp(v, n, r):
    """A[i, a] = v[2 (i r + a)] + i v[2 (i r + a) + 1]"""
    def fn(i, a):
        k = add(mul(lift(i), lift(r)), lift(a))
        return add(v(mul(ic(2), k)), mul(IM, v(add(mul(ic(2), k), ic(1)))))
    return Arr((n, r), fn, "cx")


def chol_amp(v, n, r):
    """L: the first r entries on the diagonal, then pairs (re, im) below it in the order of tril_indices"""
    def fn(i, a):
        i, a = lift(i), lift(a)
        p = add(lift(r), mul(ic(2), app("trilpos", lift(n), lift(r), i, a)))
        return ite(eq(i, a), v(i), ite(lt(a, i), add(v(p), mul(IM, v(add(p, ic(1))))), cc(0)))
    return Arr((n, r), fn, "cx")


def gram(A):
    n, r = A.shape

    def fn(i, j):
        a, = idx(1)
        return S((a, r), mul(A.fn(i, a), conj(A.fn(j, a))))
    return Arr((n, n), fn, "cx")


def trace_of(B):
    i, = idx(1)
    return S((i, B.shape[0]), B.fn(i, i))


def size(P, n, r, kind):
    if kind == "over":
        return mul(ic(2), r, n)
    return add(mul(r, r), mul(ic(2), sub(n, r), r))


def density(P, out, A, name="the density matrix of the documented layout"):
    """out = A A^H / tr(A A^H): positive semidefinite of rank at most the columns of A, of trace one."""
    it = P.it
    B = gram(A)
    P.equal(name, out, Arr(B.shape, lambda i, j: mul(B.fn(i, j), app("inv", trace_of(B), sort="cx")), "cx"))


def rank_rule(it, r):
    """Precondition: rho has rank at most r, and eigh lists eigenvalues in ascending order, so only the last r count:
    sum over the last r of V w V^H is rho."""
    from pyded.nf import Term

    def rule(nf, t):
        for W, V, A, n, fvs in it.eigs:
            ws = [(j, a) for j, a in enumerate(t.atoms) if a.op == "app" and a.args[0] == W]
            for jw, w in ws:
                k = w.args[1]
                for j, a in enumerate(t.atoms):
                    if not (a.op == "app" and a.args[0] == V and a.args[2] is k):
                        continue
                    for l, b in enumerate(t.atoms):
                        if not (b.op == "conj" and b.args[0].op == "app" and b.args[0].args[0] == V and b.args[0].args[2] is k):
                            continue
                        rest = [x for q, x in enumerate(t.atoms) if q not in (jw, j, l)]
                        p, q_ = a.args[1], b.args[0].args[1]
                        for v, h in t.binders:
                            off = sub(k, v)
                            nm = v.args[0]
                            if nm in off.fv | p.fv | q_.fv or any(nm in x.fv for x in rest) or any(nm in g.fv for g in t.guards):
                                continue
                            c = nf.tctx(Term(t.c, [x for x in t.binders if x[0] is not v], t.guards, t.atoms))
                            if c.valid(and_(eq(off, sub(lift(n), lift(r))), eq(h, lift(r)))):
                                return [Term(t.c, [x for x in t.binders if x[0] is not v], t.guards, rest).times(y)
                                        for y in nf.expand(lift(A.fn(p, q_), "cx"))]
        return None
    return rule


def phase_rule(nf, t):
    """exp(x) exp(x)* = 1 for imaginary x;  z exp(-i angle z) = |z|;  |z| |z| = z z*."""
    from pyded.nf import Term
    for j, a in enumerate(t.atoms):
        if a.op == "app" and a.args[0] == "real:abs" and any(
                b.op == "app" and b.args[0] == "real:abs" and b.args[1] in (a.args[1], conj(a.args[1])) for b in t.atoms[:j]):
            l = [i for i, b in enumerate(t.atoms[:j]) if b.op == "app" and b.args[0] == "real:abs"
                 and b.args[1] in (a.args[1], conj(a.args[1]))][0]
            z = a.args[1]
            return [Term(t.c, t.binders, t.guards, [y for q, y in enumerate(t.atoms) if q not in (j, l)]).times(y)
                    for y in nf.expand(mul(z, conj(z)))]
    def drop(*js):
        return Term(t.c, t.binders, t.guards, [y for q, y in enumerate(t.atoms) if q not in js])

    for j, a in enumerate(t.atoms):
        e = a.args[0] if a.op == "conj" else a
        if not (e.op == "app" and e.args[0] == "exp"):
            continue
        x = e.args[1]
        if const_of(add(x, conj(x))) != (0, 0):
            continue
        if a.op == "conj":
            x = neg(x)
        # a = exp(x) with x imaginary
        for l, b in enumerate(t.atoms):
            f = b.args[0] if b.op == "conj" else b
            if l != j and f.op == "app" and f.args[0] == "exp":
                y = f.args[1]
                y = neg(y) if b.op == "conj" and const_of(add(y, conj(y))) == (0, 0) else None if b.op == "conj" else y
                if y is not None and const_of(add(x, y)) == (0, 0):
                    return [drop(j, l)]
        us = set()
        for w in (w for w in subterms(x) if w.op == "app" and w.args[0] == "real:angle"):
            ang = mul(IM, w)
            if const_of(sub(x, ang)) == (0, 0):
                us.add(w.args[1])           # u = exp(i angle u) |u|
            if const_of(add(x, ang)) == (0, 0):
                us.add(conj(w.args[1]))
        for u in us:
            for l, b in enumerate(t.atoms):
                if b is conj(u):
                    return [Term(t.c, t.binders, t.guards, list(drop(j, l).atoms) + [app("real:abs", u, sort="cx")])]
                if b.op == "app" and b.args[0] == "real:abs" and b.args[1] in (u, conj(u)):
                    return [drop(j, l).times(y) for y in nf.expand(u)]
    return None


def small_rule(nf, t):
    """[|w| < c] w = 0: eigenvalues below the documented threshold are noise; also inside square roots."""
    from pyded.nf import Term
    isw = lambda a: a.op == "app" and a.args[0].startswith("real:eigval<")
    ws = set()
    for a in t.atoms:
        for x in subterms(a):
            if isw(x) and (x is a or a.op == "app" and a.args[0] in ("real:sqrt", "real:pos", "real:abs")):
                ws.add(x)
    for g in t.guards:
        g0, flip = (g.args[0], True) if g.op == "not" else (g, False)
        if g0.op != "rle":
            continue
        p = pdict(g0.args[0])
        ms = [m for m in p if m != ()]
        if len(ms) != 1 or len(ms[0]) != 1:
            continue
        a = ms[0][0]
        w = a.args[1] if a.op == "app" and a.args[0] in ("real:abs", "real:pos") else a
        if w not in ws:
            continue
        c, k = p[(a,)][0], p.get((), (0, 0))[0]
        # c a + k <= 0 (or its negation c a + k > 0)
        if not flip and c > 0 and 0 <= -k / c <= Fraction(1, 10 ** 4):
            return []
        if flip and c < 0 and 0 <= -k / c <= Fraction(1, 10 ** 4):
            return []
        # the complementary case carries all of w
        if (flip and c > 0 or not flip and c < 0) and 0 <= -k / c <= Fraction(1, 10 ** 4):
            return [Term(t.c, t.binders, [h for h in t.guards if h is not g], t.atoms)]
    return None


def verify(V):
    for kind, C in (("over", OV), ("chol", CHO)):
        amp = over_amp if kind == "over" else chol_amp
        # ---- numb_variables, bounds
        def setup(it):
            n = dim(it, "n")
            r = ivar(it, "r", 1)
            it.ctx.assume(le(r, n))
            return [n, r], {}, {"n": n, "r": r}

        def post(P, out, env, kind=kind):
            if returns(P, out):
                P.equal("number of variables", out[1], size(P, env["n"], env["r"], kind))
        V.function(C + ".numb_variables", setup, post)

        def setup_b(it, kind=kind):
            a, k, env = setup(it)
            if kind == "chol":
                env["l"], env["u"] = app("real:l", sort="cx"), app("real:u", sort="cx")
                a = a + [env["l"], env["u"]]
            else:
                env["l"], env["u"] = cc(-1), cc(1)
            return a, k, env

        def post(P, out, env, kind=kind):
            if not returns(P, out):
                return
            it, n, r = P.it, env["n"], env["r"]
            s = it.iter_seq(out[1])
            N = size(P, n, r, kind)
            P.equal("one pair of bounds per variable", it.seq_len(s), N)
            k = fresh("k")
            it.ctx.assume(and_(le(ic(0), k), lt(k, N)))
            b = it.seq_get(s, k)
            if not (isinstance(b, tuple) and len(b) == 2):
                return P.fail("bounds are pairs", "%r" % (b,))
            lo = ite(lt(k, r), cc(0), env["l"]) if kind == "chol" else env["l"]
            P.equal("lower bound", lift(b[0], "cx"), lo)
            P.equal("upper bound", lift(b[1], "cx"), env["u"])
        V.function(C + ".bounds", setup_b, post)

        # ---- vector -> density matrix
        for given in (True, False):
            def setup_r(it, kind=kind, given=given):
                a, k, env = setup(it)
                n, r = env["n"], env["r"]
                if not given and kind == "chol":
                    env["r"] = r = n
                env["v"] = reals(it, "v", size(None, n, r, kind))
                return [env["v"], n] + ([r] if given else []), {}, env

            def post(P, out, env, kind=kind, amp=amp):
                if returns(P, out):
                    v = lambda k: app("real:v", lift(k), sort="cx")
                    density(P, out[1], amp(v, env["n"], env["r"]))
            V.function(C + ".rho_from_vec", setup_r, post, label="rank given" if given else "rank left out")

        def setup_bad(it, kind=kind):
            n, r, m = dim(it, "n"), ivar(it, "r", 1), ivar(it, "m", 0)
            it.ctx.assume(or_(lt(n, r), ne(m, size(None, n, r, kind))))
            return [reals(it, "v", m), n, r], {}, {}
        V.function(C + ".rho_from_vec", setup_bad, lambda P, out, env: raises(P, out, "AssertionError", "another length or rank is rejected"),
                   label="wrong length or rank")

        # ---- density matrix -> vector -> density matrix
        def setup_v(it, kind=kind):
            a, k, env = setup(it)
            n, r = env["n"], env["r"]
            rho = Arr((n, n), hermitian("R"), "cx")
            it.declare_psd(rho)
            it.extra_rules += [small_rule, phase_rule, qr_rule(it)]
            it.axioms.append(rank_rule(it, r))
            env["rho"] = rho
            return [it.nd(rho), n, r], {}, env

        def post(P, out, env, kind=kind, amp=amp):
            if not returns(P, out):
                return
            it, n, r = P.it, env["n"], env["r"]
            v = it.arr(out[1])
            if v.ndim != 1:
                return P.fail("a vector", "rank %d" % v.ndim)
            P.equal("declared length", v.shape[0], size(P, n, r, kind))
            k = fresh("k")
            it.ctx.assume(and_(le(ic(0), k), lt(k, lift(v.shape[0]))))
            P.equal("the vector is real", lift(v.fn(k), "cx"), conj(lift(v.fn(k), "cx")))
            A = amp(lambda k: lift(v.fn(k), "cx"), n, r)
            P.equal("A A^H of the vector is rho", it.nd(gram(A)), env["rho"])
        V.function(C + ".vec_from_rho", setup_v, post)

        # ---- random vectors
        for dist in ("normal", "uniform", "other"):
            def setup_x(it, kind=kind, dist=dist):
                a, k, env = setup(it)
                n, r = env["n"], env["r"]
                if kind == "chol":
                    env["l"], env["u"] = app("real:l", sort="cx"), app("real:u", sort="cx")
                    it.ctx.assume(le(cc(0), env["u"]))
                    it.ctx.assume(le(env["l"], env["u"]))
                    return [n, r, dist, env["l"], env["u"]], {}, env
                env["l"], env["u"] = cc(-1), cc(1)
                return [n, r, dist], {}, env

            def post(P, out, env, kind=kind, dist=dist):
                if dist == "other":
                    return raises(P, out, "TypeError", "an unknown distribution is rejected")
                if not returns(P, out):
                    return
                it, n, r = P.it, env["n"], env["r"]
                v = it.arr(out[1])
                if v.ndim != 1:
                    return P.fail("a vector", "rank %d" % v.ndim)
                N = size(P, n, r, kind)
                P.equal("declared length", v.shape[0], N)
                if dist == "uniform":
                    for first in ((True, False) if kind == "chol" else (None,)):
                        c = it.ctx.clone()
                        k = fresh("k")
                        c.assume(and_(le(ic(0), k), lt(k, N)))
                        lo = env["l"]
                        if first is not None:
                            c.assume(lt(k, r) if first else le(r, k))
                            lo = cc(0) if first else lo
                        x = c.simp(lift(v.fn(k), "cx"))
                        P.holds("inside the bounds", and_(le(lo, x), le(x, env["u"])), c)
            V.function(C + ".random_vectors", setup_x, post, label=dist)

    standard(V)

    # ---- consequences
    def lemma(P):
        it = P.it
        n, r = dim(it, "n"), dim(it, "r")
        A = table("A", n, r)
        B = gram(A)
        i, j = var("i"), var("j")
        P.equal("A A^H is Hermitian", B.fn(i, j), conj(B.fn(j, i)))
        x, y, a = idx(3)
        quad = S((x, n), (y, n), mul(conj(app("x", x, sort="cx")), B.fn(x, y), app("x", y, sort="cx")))
        z, w = idx(2)
        amp = S((z, n), mul(conj(app("x", z, sort="cx")), A.fn(z, a)))
        P.equal("x^H A A^H x is a sum of squares", quad, S((a, r), mul(amp, conj(amp))))
    V.lemma("A A^H", lemma)
    V.assume_text("numpy.linalg.eigh lists eigenvalues in ascending order with orthonormal eigenvectors",
                  "numpy.linalg.qr(mode='r') returns upper triangular R with R^H R = X^H X",
                  "numpy.tril_indices enumerates the positions below the diagonal, each once",
                  "numpy.random.uniform returns numbers in its interval",
                  "eigenvalues below 1e-5 are numerical noise of exact zeros",
                  "A A^H of a nonzero real vector has positive trace; A A^H has rank at most the number of columns of A")


def qr_rule(it):
    """sum_k conj(R[k, i]) R[k, j] = (X^H X)[i, j]"""
    from pyded.nf import Term

    def rule(nf, t):
        bound = {v.args[0]: h for v, h in t.binders}
        for R, X, fvs in it.eigs_qr:
            for j, a in enumerate(t.atoms):
                if not (a.op == "app" and a.args[0] == R):
                    continue
                for l, b in enumerate(t.atoms):
                    if not (b.op == "conj" and b.args[0].op == "app" and b.args[0].args[0] == R and b.args[0].args[1] is a.args[1]):
                        continue
                    k = a.args[1]
                    rest = [x for q, x in enumerate(t.atoms) if q not in (j, l)]
                    p, q_ = b.args[0].args[2], a.args[2]
                    if k.op != "var" or k.args[0] not in bound or k.args[0] in p.fv | q_.fv or any(k.args[0] in x.fv for x in rest):
                        continue
                    # R is upper triangular: the guards k <= p, k <= q may be present or not
                    gs = [g for g in t.guards if k.args[0] in g.fv]
                    if any(g not in (le(k, p), le(k, q_)) for g in gs):
                        continue
                    h = bound[k.args[0]]
                    x, = idx(1)
                    e = S((x, X.shape[0]), mul(conj(X.fn(x, p)), X.fn(x, q_)))
                    c = nf.tctx(Term(t.c, [v for v in t.binders if v[0] is not k], [g for g in t.guards if g not in gs], ()))
                    if c.valid(or_(eq(h, lift(X.shape[0])), eq(h, add(q_, ic(1))), eq(h, add(p, ic(1))))):
                        pass            # R[k, q] = 0 for k > q
                    elif c.valid(or_(eq(h, q_), eq(h, p))):
                        e = sub(e, mul(subst(a, {k.args[0]: h}), subst(b, {k.args[0]: h})))
                    else:
                        continue
                    return [Term(t.c, [v for v in t.binders if v[0] is not k], [g for g in t.guards if g not in gs], rest).times(y)
                            for y in nf.expand(e)]
        return None
    return rule


# ---------------------------------------------------------------- Hermitian matrices in the standard basis
STD = PARAM + ":StandardBasis"


def start_of_row(n, a):
    """The rows before a have 2 (n - a') - 1 numbers each."""
    return sub(mul(ic(2), n, a), mul(a, a))


def position(n, a, b):
    """Of the real part of entry (a, b), a <= b; the imaginary part comes next."""
    return add(start_of_row(n, a), ite(eq(a, b), ic(0), sub(mul(ic(2), sub(b, a)), ic(1))))


def square(it, x):
    """A fact of arithmetic the solvers do not find by themselves."""
    it.ctx.assume(le(ic(0), mul(x, x)))


class Triangle:
    """Two nested loops over the entries on and above the diagonal, row by row, with a running counter."""

    def __init__(self, w, fill):
        self.w, self.fill = w, fill

    def outer(self, s):
        it, w = s.it, self.w
        if "TR" in it.heap or not it.ctx.valid(eq(s.nn, w["n"])):
            return None
        zero = [x for x in s.names if is_scalar(s.frame.env.get(x)) and not isinstance(s.frame.env[x], bool) and lift(s.frame.env[x]) is ic(0)]
        new = {v.ref for v in s.frame.env.values() if isinstance(v, Nd) and v.imap is None and v.ref not in w["given"]}
        if len(zero) != 1 or len(new) != 1:
            return None
        (w["counter"],), (w["ref"],) = zero, new
        return Rows(self)

    def inner(self, s):
        it, w = s.it, self.w
        g = it.heap.get("TR")
        if not g or "in" in g or not it.ctx.valid(eq(s.nn, sub(w["n"], g["i"]))):
            return None
        return Row(self)


class Level:
    def __init__(self, t):
        self.t, self.w = t, t.w

    def check(self, s, i, what):
        it, w = s.it, self.w
        row, count = self.at(it, i)
        name = "entries row by row (%s): %s: " % (type(self).__name__.lower(), what)
        with given(it, le(ic(0), mul(sub(w["n"], add(row, ic(1))), sub(w["n"], add(row, ic(1)))))):
            self.oblige(it, name + "counter", eq(lift(s.frame.env[w["counter"]]), count))
        self.t.fill.check(self, it, name, row, i)

    def oblige(self, it, name, f):
        ok = it.ctx.check(lift(f), 10, cvc5=True) == "valid"
        it.obligations.append((name, "discharged" if ok else "unproved", "" if ok else lift(f).key[:300]))

    def enter(self, s, i):
        it, w = s.it, self.w
        row, count = self.at(it, i)
        square(it, sub(w["n"], add(row, ic(1))))
        s.frame.env[w["counter"]] = count
        it.heap[w["ref"]] = self.t.fill.array(self, it, row, i)
        self.ghost(s, i)

    def covers(self, s, r, p):
        return r in (self.w["ref"], "TR", "TRV")

    def exit_ok(self, s, p):
        return False


class Rows(Level):
    def start(self, s):
        s.it.heap["TR"] = None

    def at(self, it, i):
        return i, start_of_row(self.w["n"], i)

    def ghost(self, s, i):
        if i is s.nn:
            s.it.heap.pop("TR", None)
        else:
            s.it.heap["TR"] = {"i": i}

    def done(self, row, i, a, b):
        """Of the entry (a, b), a <= b, before iteration i."""
        return lt(a, i)


class Row(Level):
    def start(self, s):
        self.g = s.it.heap["TR"]

    def at(self, it, i):
        row = self.g["i"]
        return row, add(start_of_row(self.w["n"], row), ite(eq(i, ic(0)), ic(0), sub(mul(ic(2), i), ic(1))))

    def ghost(self, s, i):
        s.it.heap["TR"] = dict(self.g) if i is s.nn else dict(self.g, **{"in": True})

    def done(self, row, i, a, b):
        return or_(lt(a, row), and_(eq(a, row), lt(b, add(row, i))))


class Matrix:
    """The matrix of a vector: entries done so far, zeros elsewhere."""

    def __init__(self, w):
        self.w = w

    def entry(self, a, b):
        n, v = self.w["n"], self.w["v"]
        up = lambda a, b: add(v(position(n, a, b)), mul(IM, v(add(position(n, a, b), ic(1)))))
        return ite(eq(a, b), v(start_of_row(n, a)), ite(lt(a, b), up(a, b), conj(up(b, a))))

    def array(self, level, it, row, i):
        n = self.w["n"]

        def fn(a, b):
            a, b = lift(a), lift(b)
            return ite(ite(le(a, b), level.done(row, i, a, b), level.done(row, i, b, a)), self.entry(a, b), cc(0))
        return Arr((n, n), fn, "cx")

    def check(self, level, it, name, row, i):
        want = self.array(level, it, row, i)
        a, b = fresh("a"), fresh("b")
        old, it.ctx = it.ctx, it.ctx.clone()
        it.ctx.assume(and_(between(0, a, self.w["n"]), between(0, b, self.w["n"])))
        got = lift(it.heap[self.w["ref"]].fn(a, b), "cx")
        st = self.w["P"].decide_eq(got, lift(want.fn(a, b), "cx"), it.ctx)
        it.obligations.append((name + "matrix", st[0], st[2][:300]))
        it.ctx = old


class Vector:
    """The vector of a matrix: the numbers of the entries done so far."""

    def __init__(self, w):
        self.w = w

    def parts(self, vec, a, b):
        n, rho = self.w["n"], self.w["entry"]
        x = rho(a, b)
        re, im = models.re_part(x), models.im_part(x)
        p = position(n, a, b)
        return eq(vec(p), re), implies(lt(a, b), eq(vec(add(p, ic(1))), im))

    def array(self, level, it, row, i):
        u = "real:" + fresh("vec").args[0]
        it.heap["TRV"] = self.w["last"] = (lambda q: app(u, lift(q), sort="cx")), (lambda a, b: level.done(row, i, a, b))
        return Arr((mul(self.w["n"], self.w["n"]),), lambda q: app(u, lift(q), sort="cx"), "cx")

    def check(self, level, it, name, row, i):
        """For an arbitrary entry done by now: its numbers are there, and the ones written before are not touched."""
        w, n = self.w, self.w["n"]
        a, b = fresh("a"), fresh("b")
        new = it.heap[w["ref"]]
        vec = lambda q: lift(new.fn(lift(q)), "cx")
        old, it.ctx = it.ctx, it.ctx.clone()
        it.ctx.assume(and_(between(0, a, n), between(a, b, n), level.done(row, i, a, b)))
        # rows before: start_of_row(a + 1) <= start_of_row(row), as (row - a - 1) (2 n - row - a - 1) >= 0
        d, e = sub(row, add(a, ic(1))), sub(mul(ic(2), n), add(row, a, ic(1)))
        it.ctx.assume(implies(and_(le(ic(0), d), le(ic(0), e)), le(ic(0), mul(d, e))))
        if "TRV" in it.heap:
            pre, was = it.heap["TRV"]
            it.ctx.assume(implies(was(a, b), and_(*self.parts(pre, a, b))))
        for nm, f in zip(("real part", "imaginary part"), self.parts(vec, a, b)):
            st = w["P"].decide(f, it.ctx)
            it.obligations.append((name + nm, st[0], st[2][:300]))
        it.ctx = old


def standard(V):
    from pyded.run import Proof

    def setup_n(it):
        n = dim(it, "n")
        return [n], {}, {"n": n}

    def post(P, out, env):
        if returns(P, out):
            P.equal("number of variables", out[1], mul(env["n"], env["n"]))
    V.function(STD + ".numb_variables", setup_n, post)

    def post(P, out, env):
        if not returns(P, out):
            return
        it, n = P.it, env["n"]
        s = it.iter_seq(out[1])
        P.equal("one pair of bounds per variable", it.seq_len(s), mul(n, n))
        k = fresh("k")
        it.ctx.assume(and_(le(ic(0), k), lt(k, mul(n, n))))
        b = it.seq_get(s, k)
        if not (isinstance(b, tuple) and len(b) == 2):
            return P.fail("bounds are pairs", "%r" % (b,))
        P.equal("lower bound", lift(b[0], "cx"), cc(-1))
        P.equal("upper bound", lift(b[1], "cx"), cc(1))
    V.function(STD + ".bounds", setup_n, post)

    def setup_r(it):
        n = dim(it, "n")
        w = {"n": n, "v": lambda q: app("real:v", lift(q), sort="cx"), "P": Proof(V, STD, it)}
        v = reals(it, "v", mul(n, n))
        w["given"] = {v.ref}
        t = Triangle(w, Matrix(w))
        it.loop_specs = [t.outer, t.inner]
        return [v, n], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        it, n = P.it, env["n"]
        a, b = ivar(it, "a", 0, n), ivar(it, "b", 0, n)
        m = it.arr(out[1])
        P.equal("rows", m.shape[0], n)
        P.equal("columns", m.shape[1], n)
        P.equal("real diagonal and conjugate entries in the documented order", lift(m.fn(a, b), "cx"), Matrix(env).entry(a, b))
    V.function(STD + ".rho_from_vec", setup_r, post)

    def setup_bad(it):
        n, m = dim(it, "n"), ivar(it, "m", 0)
        it.ctx.assume(ne(m, mul(n, n)))
        return [reals(it, "v", m), n], {}, {}
    V.function(STD + ".rho_from_vec", setup_bad, lambda P, out, env: raises(P, out, "AssertionError", "another length is rejected"), label="wrong length")

    def setup_v(it):
        n = dim(it, "n")
        h = hermitian("R")
        w = {"n": n, "entry": lambda a, b: h(a, b), "P": Proof(V, STD, it)}
        rho = it.nd(Arr((n, n), h, "cx"))
        w["given"] = {rho.ref}
        t = Triangle(w, Vector(w))
        it.loop_specs = [t.outer, t.inner]
        return [rho, n], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        it, n = P.it, env["n"]
        v = it.arr(out[1])
        P.equal("length", v.shape[0], mul(n, n))
        a, b = ivar(it, "a", 0, n), ivar(it, "b", 0, n)
        it.ctx.assume(le(a, b))
        vec = lambda q: lift(v.fn(lift(q)), "cx")
        pre, was = env["last"]
        it.ctx.assume(implies(was(a, b), and_(*Vector(env).parts(pre, a, b))))
        for nm, f in zip(("real part", "imaginary part"), Vector(env).parts(vec, a, b)):
            P.holds("the numbers of every entry on and above the diagonal: " + nm, f)
    V.function(STD + ".vec_from_rho", setup_v, post)

    def setup_bad(it):
        n, m, p = dim(it, "n"), ivar(it, "m", 1), ivar(it, "p", 1)
        it.ctx.assume(or_(ne(m, n), ne(p, n)))
        return [it.nd(table("R", m, p)), n], {}, {}
    V.function(STD + ".vec_from_rho", setup_bad, lambda P, out, env: raises(P, out, "AssertionError", "another shape is rejected"), label="wrong shape")

    def round_trip(P):
        """rho -> vector -> rho: entry by entry; vector -> rho -> vector: number by number of every entry."""
        it = P.it
        n = dim(it, "n")
        w = {"n": n, "v": lambda q: app("real:v", lift(q), sort="cx")}
        a, b = ivar(it, "a", 0, n), ivar(it, "b", 0, n)
        h = hermitian("R")
        it.ctx.assume(lt(a, b))
        x = h(a, b)
        P.equal("an entry is its real and imaginary part", add(models.re_part(x), mul(IM, models.im_part(x))), x)
        e = Matrix(w).entry(a, b)
        p = position(n, a, b)
        P.equal("real part of an entry", models.re_part(e), w["v"](p))
        P.equal("imaginary part of an entry", models.im_part(e), w["v"](add(p, ic(1))))
        P.equal("the diagonal", Matrix(w).entry(a, a), w["v"](start_of_row(n, a)))
        P.equal("the number of variables of all rows", start_of_row(n, n), mul(n, n))
        P.equal("the next row begins after the last entry of a row", start_of_row(n, add(a, ic(1))),
                add(start_of_row(n, a), ic(1), mul(ic(2), sub(n, add(a, ic(1))))))
    V.lemma("standard basis, both ways", round_trip)
