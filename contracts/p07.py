"""Encoding and decoding circuits.

M(row) is the real matrix of a row, g = i^(odd number of Y) M(row) the operator it stands for.  With w(c) = |0^r, E c, c>
the encoding circuit makes prod_i (1 + g_i) / sqrt(2)^r w(c) over the rows of the first block (below), which the g_i fix
since they commute and square to one (P02, P04); Z-type elements commute through the product and read off w(c)."""
from .lib import *
from .circuits import *
from .p05 import normal_form, blockwise

STAB = CODES + ":StabilizerCode"


def with_form(it):
    """A code with its normal form (P04) and the logical operators derived from it."""
    w = {"r": ivar(it, "r", 0), "t": ivar(it, "t", 0), "k": ivar(it, "k", 0)}
    w["n"] = add(w["r"], w["t"], w["k"])
    it.ctx.assume(le(ic(1), add(w["r"], w["t"])))
    w["nf"] = normal_form(it, w)
    return w


def logicals(w):
    """[0 E^T I | (E^T C1^T + C2^T) 0 0] and [0 0 0 | A2^T 0 I]"""
    n, r, t, k, nf = w["n"], w["r"], w["t"], w["k"], w["nf"]
    d = lambda a, c: ite(eq(a, c), ic(1), ic(0))

    def lx(i, q):
        i, q = lift(i), lift(q)
        a, = idx(1)
        c1 = S((a, t), mul(lift(nf.fn(add(r, a), add(n, r, t, i))), lift(nf.fn(sub(q, n), add(n, r, a)))))
        c = mod(add(c1, lift(nf.fn(sub(q, n), add(n, r, t, i)))), ic(2))
        return ite(lt(q, r), ic(0), ite(lt(q, add(r, t)), lift(nf.fn(q, add(n, r, t, i))), ite(lt(q, n), d(sub(q, add(r, t)), i),
                                                                                             ite(lt(q, add(n, r)), c, ic(0)))))

    def lz(i, q):
        i, q = lift(i), lift(q)
        return ite(lt(q, n), ic(0), ite(lt(q, add(n, r)), lift(nf.fn(sub(q, n), add(r, t, i))),
                                        ite(lt(q, add(n, r, t)), ic(0), d(sub(q, add(n, r, t)), i))))
    two = mul(ic(2), n)
    return Arr((k, two), lx, "int"), Arr((k, two), lz, "int")


def with_logicals(it, w):
    x, z = logicals(w)
    w["x"], w["z"] = x, z
    w["self"] = code(it, add(w["r"], w["t"]), w["n"], w["k"], rank=w["r"], normal=it.nd(w["nf"]), logicals=(it.nd(x), it.nd(z)))
    return w


def one(e):
    return eq(lift(e), ic(1))


def only_gates(s):
    return [p for q in s.parts for p in ([Items([x]) for x in q.vals] if isinstance(q, Items) else [q]) if has_gate(p)]


def classical(p):
    """All events are X gates with the same number (0 or 1) of controls."""
    ks = {len(e[4]) if e[0] == "gate" and e[1] == "X" else None for e in has_gate(p)}
    return ks.pop() if len(ks) == 1 else None


def verify(V):
    # ------------------------------------------------------------ the logical operators
    def setup_l(it):
        w = with_logicals(it, with_form(it))
        return [], {}, w

    def post_l(P, out, env):
        if not returns(P, out):
            return
        x, z = [P.it.arr(v) for v in P.it.concrete_items(out[1])]
        n, r, t = env["n"], env["r"], env["t"]
        i = ivar(P.it, "i", 0, env["k"])
        for lo, hi in ((ic(0), r), (r, add(r, t)), (add(r, t), n), (n, add(n, r)), (add(n, r), add(n, r, t)), (add(n, r, t), mul(ic(2), n))):
            q = fresh("q")
            c = P.it.ctx.clone()
            c.assume(and_(le(lo, q), lt(q, hi)))
            for name, a, b in (("X", x, env["x"]), ("Z", z, env["z"])):
                P.equal("~logical %s of the normal form" % name, c.simp(lift(a.fn(i, q))), c.simp(lift(b.fn(i, q))), ctx=c)
    V.function(STAB + ".logical_operators", setup_l, post_l)

    # ------------------------------------------------------------ encoding
    def setup(it):
        w = with_logicals(it, with_form(it))
        n, k = w["n"], w["k"]
        w["reg"] = gates.register(it, "data", n)
        w["eng"] = gates.engine(it, n)
        w["bit"] = lambda i: ite(app("bit:c", lift(i), sort="bool"), ic(1), ic(0))
        st = Lst(it.new(Seq("list", (Sub(k, w["bit"]),))))
        return [w["eng"], w["reg"], st], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        it, n, r, t, k, nf, bit = P.it, env["n"], env["r"], env["t"], env["k"], env["nf"], env["bit"]
        stages = [[], [], []]
        P.holds("the engine is flushed at the end", lift(flushed(it.heap["TRACE"])))
        for p in only_gates(it.heap["TRACE"]):
            c = classical(p)
            j = 2 if c is None else c
            if any(stages[j + 1:]) or j == 2 and stages[2]:
                raise Unsupported("order of the stages")
            stages[j].append(p)
        flips, copies = [Seq("trace", tuple(s)) for s in stages[:2]]
        inside(P, flips)
        q = ivar(it, "q", 0, n)
        last = add(r, t)
        # the basis state |0^r, E c, c>
        P.equal("input state on qubit q", mod(parity(flips, "data", q, 0, it.ctx), ic(2)), ite(le(last, q), bit(sub(q, last)), ic(0)))
        inside(P, copies)

        def where(ev, g):
            if ev[0] == "gate":
                P.holds("controlled flips go from the input qubits to the middle block",
                        implies(g, and_(le(last, ev[4][0][1]), le(r, ev[3][0][1]), lt(ev[3][0][1], last))))
        events_of(copies, where)
        i, j, u, v, b1 = fresh("i"), var("j"), var("u"), var("v"), fresh("b")
        x, z = env["x"], env["z"]
        with given(it, between(0, j, t)):
            got = isum(copies, lambda e: ite(eq(e[3][0][1], add(r, j)), bit(sub(e[4][0][1], last)), ic(0)) if e[0] == "gate" else ic(0), add(r, j), it.ctx)
            e_c = S((i, k), mul(lift(nf.fn(add(r, j), add(n, last, i))), bit(i)))
            P.congruent("qubit j of the middle block", got, e_c, 2)
            # rows of the second block read off the basis state: Z exponents . bits = 2 E c
            P.holds("rows of the second block have no X", eq(simp(it, nf.fn(add(r, j), q)), ic(0)))
            with given(it, between(0, b1, t)):
                P.holds("rows of the second block on the middle block", eq(lift(nf.fn(add(r, j), add(n, r, b1))), ite(eq(b1, j), ic(1), ic(0))))
            P.congruent("rows of the second block fix the basis state", add(e_c, e_c), ic(0), 2)
        with given(it, between(0, u, k), between(0, v, k)):
            P.equal("logical Z has no X", z.fn(u, q), ic(0))
            with given(it, between(0, j, t)):
                P.equal("logical Z is absent from the middle block", z.fn(u, add(n, r, j)), ic(0))
            P.equal("logical Z reads the bit of its own input qubit", z.fn(u, add(n, last, v)), ite(eq(u, v), ic(1), ic(0)))
        # the rows of the first block
        if not stages[2]:
            P.equal("no rows in the first block", r, ic(0))
            return
        step = stages[2][0]
        if not isinstance(step, Loop):
            if it.ctx.valid(eq(r, ic(0))):
                return P.fail("no rows in the first block", "gates")
            raise Unsupported("a loop over the rows of the first block expected")
        P.equal("one step per row of the first block", lift(step.n), r)
        if it.ctx.valid(eq(r, ic(0))):
            return
        m, other = var("m"), var("o")
        with given(it, between(0, m, r)):
            steps(P, env, step.fn(m), m, other, q)
    V.function(STAB + ".encoding_circuit", setup, post)
    for what in ("length of the state", "length of the register"):
        def setup_w(it, what=what):
            args, kw, w = setup(it)
            L = ivar(it, "L", 0)
            if what == "length of the state":
                it.ctx.assume(ne(L, w["k"]))
                args[2] = Lst(it.new(Seq("list", (Sub(L, w["bit"]),))))
            else:
                it.ctx.assume(ne(L, w["n"]))
                args[1] = gates.register(it, "data", L)
            return args, kw, w
        V.function(STAB + ".encoding_circuit", setup_w, lambda P, out, env: raises(P, out, None, "is rejected"), what)

    # ------------------------------------------------------------ decoding
    for own in (False, True):
        for dealloc in (False, True):
            def setup_d(it, own=own, dealloc=dealloc):
                w = with_logicals(it, with_form(it))
                n, k = w["n"], w["k"]
                w["eng"] = gates.engine(it)
                w["reg"] = gates.register(it, "data", n if own else add(n, k))
                w["anc"] = (lambda i: ("new0", lift(i))) if own else (lambda i: ("data", add(n, i)))
                w["own"], w["dealloc"] = own, dealloc
                return [w["eng"], w["reg"]], dict(([("add_ancilla_bits", True)] if own else []) + ([("deallocate_nqubits", True)] if dealloc else [])), w
            V.function(STAB + ".decoding_circuit", setup_d, post_d, "%s ancillas, %s" % ("new" if own else "given", "data measured" if dealloc else "data kept"))
    V.assume_text("normal form and derived logical operators as in P04 and P05 (their rows commute); a code with logical operators of the user's own is not covered",
                  "projectq: new or supplied ancillas are in |0>, gates act as their matrices, QubitOperator('Y<q>', c) as c Y on qubit q; "
                  "measuring the data qubits, which are in a product with the ancillas, leaves the ancillas alone",
                  "(1 + g)(|0> (x) phi) = |0> phi + i^odd |1> M(letters) phi for a row with an X on that qubit; commuting g of square one fix prod (1 + g)")


def simp(it, e):
    return it.ctx.simp(lift(e))


def within(c, e, i, n):
    return e


def inside(P, s):
    def look(ev, g):
        if ev[0] == "gate":
            for k in ev[3] + ev[4]:
                P.holds("gates act on the register", implies(g, lift(k[0] == "data")))
    events_of(s, look)


def hadamard(body):
    """The index of the qubit of the only uncontrolled H of the step."""
    hs = [e for p in body.parts for e in has_gate(p) if e[0] == "gate" and e[1] == "H" and not e[4]]
    return hs[0][3][0][1] if len(hs) == 1 else None


def steps(P, env, body, m, other, q):
    """The step for row m."""
    it, r, nf = P.it, env["r"], env["nf"]
    whole = it.ctx
    for c, parts in cases(it.ctx.clone(), body):
        it.ctx = c
        tgt = hadamard(Seq("trace", tuple(parts)))
        if tgt is None:
            raise Unsupported("one Hadamard per step")
        if not c.valid(eq(tgt, m)):
            P.holds("the steps run over all rows", eq(tgt, sub(sub(r, ic(1)), m)))
        a_step(P, env, lift(tgt), parts, q)
        it.ctx = whole
    P.holds("qubit o is still zero before its step", implies(and_(between(0, other, r), ne(other, m)), eq(lift(nf.fn(m, other)), ic(0))))
    P.holds("the row flips its own qubit", one(nf.fn(m, m)))


def a_step(P, env, i, parts, q):
    """H, phases and controlled letters of one row: |0> phi -> (1 + g)/sqrt 2 |0> phi."""
    it, n, nf = P.it, env["n"], env["nf"]
    own = ("data", i)
    secs = sections(P, Seq("trace", tuple(parts)), own)
    v, ctrl, seen = [1, 0], [], False
    for what, x in secs:
        if what == "controlled":
            if not seen:
                raise Unsupported("controlled gates before the Hadamard")
            ctrl.append(x)
            continue
        if x[0] != "gate" or x[1] not in ONE_QUBIT:
            raise Unsupported("event %s in a step" % (x[:2],))
        g = ONE_QUBIT[x[1]]
        if ctrl and (g[0][1] or g[1][0]):
            raise Unsupported("a gate after the controlled letters")
        v = [g[0][0] * v[0] + g[0][1] * v[1], g[1][0] * v[0] + g[1][1] * v[1]]
        seen = True
    U = Seq("trace", tuple(p for x in ctrl for p in x.parts))
    data_keys(P, U, own, "data", n)
    j, = idx(1)
    odd = eq(mod(S((j, n), ite(and_(one(nf.fn(i, j)), one(nf.fn(i, add(n, j)))), ic(1), ic(0))), ic(2)), ic(1))
    good = {o: v[0] != 0 and abs(v[1] / v[0] - (1j) ** o) < 1e-12 for o in (0, 1)}
    P.holds("equal superposition for an even number of Y", or_(odd, lift(good[0])))
    P.holds("phase i for an odd number of Y", or_(not_(odd), lift(good[1])))
    c = it.ctx.clone()
    c.assume(ne(q, i))
    product_is_letter(P, U, "data", q, one(c.simp(lift(nf.fn(i, q)))), one(c.simp(lift(nf.fn(i, add(n, q))))), "letter of the row on qubit q", c)


def post_d(P, out, env):
    if not returns(P, out):
        return
    it, n, r, t, k, anc = P.it, env["n"], env["r"], env["t"], env["k"], env["anc"]
    x, z = env["x"], env["z"]
    s = it.heap["TRACE"]
    parts = only_gates(s)
    P.holds("the engine is flushed at the end", lift(flushed(s)))
    alloc, measured = [], []
    while parts and isinstance(parts[0], Items) and parts[0].vals[0][0] == "alloc":
        alloc.append(parts.pop(0).vals[0])
    while parts and {e[0] for e in has_gate(parts[-1])} == {"measure"}:
        measured.insert(0, parts.pop())
    if env["own"]:
        P.holds("the ancillas are allocated", lift(len(alloc) == 1 and alloc[0][1] == "new0"))
        P.equal("number of ancillas", alloc[0][2], k)
    else:
        P.holds("no qubits are allocated", lift(not alloc))
    copies, flips = [], []
    A = anc(0)[0]

    def kind(p):
        ks = set()
        for e in has_gate(p):
            if e[0] != "gate" or len(e[4]) != 1:
                raise Unsupported("event %s" % (e[:2],))
            on = e[3][0]
            isanc = on[0] == A and (env["own"] or it_valid_ge(p, on, n, it))
            ks.add("copy" if isanc else "flip")
        if len(ks) > 1:
            raise Unsupported("mixed stage")
        return ks.pop()
    for p in parts:
        if kind(p) == "copy":
            if flips:
                raise Unsupported("order of the stages")
            copies.append(p)
        else:
            flips.append(p)
    C, F = Seq("trace", tuple(copies)), Seq("trace", tuple(flips))
    q = ivar(it, "q", 0, n)

    def look(ev, g):
        if ev[0] != "gate":
            return
        if ev[1] != "X":
            raise Unsupported("gate %s on an ancilla" % ev[1])
        c, tg = ev[4][0], ev[3][0]
        P.holds("an ancilla is flipped by a data qubit", implies(g, and_(lift(c[0] == "data" and tg[0] == A), le(ic(0), c[1]), lt(c[1], n))))
    events_of(C, look)
    with given(it, between(0, var("i"), k)):
        logical_stages(P, env, C, flips, var("i"), q)
    # what is measured and returned
    M = Seq("trace", tuple(measured))
    if not env["dealloc"]:
        P.holds("nothing is measured", lift(not measured))
    else:
        def lookm(ev, g):
            P.holds("only data qubits are measured", implies(g, and_(lift(ev[1][0] == "data"), lt(ev[1][1], n))))
        events_of(M, lookm)
    res = it.iter_seq(out[1])
    off = ic(0) if env["dealloc"] else n
    P.equal("number of qubits returned", lift(it.seq_len(res)), add(k, off))
    i = var("i")
    with given(it, between(0, i, k)):
        got = it.seq_get(res, add(off, i))
        P.holds("the decoded qubits are returned in order", and_(lift(got.reg == A), eq(got.idx, anc(i)[1])))


def it_valid_ge(p, on, n, it):
    """The target of the events of the part lies beyond the data qubits."""
    ok = []
    events_of(Seq("trace", (p,)), lambda ev, g: ok.append(it.ctx.valid(implies(g, le(n, ev[3][0][1])))) if ev[0] == "gate" else None)
    return all(ok)


def logical_stages(P, env, C, flips, i, q):
    """Ancilla i collects logical Z i and controls logical X i."""
    it, n, r, t, k, anc, x, z = P.it, env["n"], env["r"], env["t"], env["k"], env["anc"], env["x"], env["z"]
    hit = isum(C, lambda e: ite(and_(eq(e[3][0][1], anc(i)[1]), eq(e[4][0][1], q)), ic(1), ic(0)) if e[0] == "gate" else ic(0), (anc(i)[1], q, i), it.ctx)
    P.equal("ancilla i collects the qubits of logical Z i", mod(hit, ic(2)), z.fn(i, add(n, q)))
    if len(flips) != 1 or not isinstance(flips[0], Loop):
        raise Unsupported("a loop over the logical X expected")
    P.equal("one controlled logical X per ancilla", lift(flips[0].n), k)
    body = flips[0].fn(i)
    evs = [e for p in body.parts for e in has_gate(p)]
    if not evs or not it.ctx.valid(eq(evs[0][4][0][1], anc(i)[1])):
        raise Unsupported("order of the ancillas")
    data_keys(P, body, anc(i), "data", n)
    for lo, hi in ((ic(0), r), (r, add(r, t)), (add(r, t), n)):
        c = it.ctx.clone()
        c.assume(between(lo, q, hi))
        xs, zs = [c.simp(lift(x.fn(i, y))) for y in (q, add(n, q))]
        product_is_letter(P, body, "data", q, one(xs), one(zs), "letter of logical X i on qubit q", c)
    # logical X i takes |0^r, E c, c> to |0^r, E (c + e_i), c + e_i>, without a phase
    f, l, j, last = var("f"), var("l"), var("j"), add(r, t)
    with given(it, between(0, f, r)):
        P.equal("logical X has no X on the first block", x.fn(i, f), ic(0))
    P.holds("logical X has no Z elsewhere", implies(le(r, q), eq(simp(it, x.fn(i, add(n, q))), ic(0))))
    with given(it, between(0, j, t)):
        P.equal("logical X moves the middle block", x.fn(i, add(r, j)), env["nf"].fn(add(r, j), add(n, last, i)))
    with given(it, between(0, l, k)):
        P.equal("logical X flips its own bit", x.fn(i, add(last, l)), ite(eq(i, l), ic(1), ic(0)))
