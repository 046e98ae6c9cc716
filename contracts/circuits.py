"""What a trace of gates does to a register.

M(letter): M(X) = X, M(Z) = Z, M(Y) = X Z (a real matrix; Y = i X Z), as everywhere in PyQCodes."""
from .lib import *
from pyded import gates

PAULI = {"X": (1, 0), "Z": (0, 1), "Y": (1, 1), "I": (0, 0)}


def events_of(s, f, guard=TRUE):
    """f(event, guard) for every event form of the trace (bodies of loops once, for an arbitrary iteration)."""
    for p in s.parts:
        if isinstance(p, Items):
            for x in p.vals:
                f(x, guard)
        elif isinstance(p, (Sub, Loop)):
            k = fresh("k")
            g = and_(guard, le(ic(0), k), lt(k, lift(p.n)))
            if isinstance(p, Sub):
                f(p.fn(k), g)
            else:
                events_of(p.fn(k), f, g)
        elif isinstance(p, If):
            events_of(p.a, f, and_(guard, p.cond))
            events_of(p.b, f, and_(guard, not_(p.cond)))
        else:
            raise Unsupported("trace part %r" % (p,))


def solutions(s, k, q):
    """Values of k at which some gate event of the body acts on qubit index q (index = +-k + rest)."""
    out = []

    def look(ev, g):
        for key in (ev[3] + ev[4] if ev[0] == "gate" else ()):
            x = key[1]
            slope = sub(subst(x, {k.args[0]: add(k, ic(1))}), x)
            if slope is ic(1):
                c = add(lift(q), sub(k, x))
            elif slope is ic(-1):
                c = add(x, sub(k, lift(q)))
            else:
                continue
            if k.args[0] not in c.fv and c not in out:
                out.append(c)
    events_of(s, look)
    return out


def isum(s, f, at=None, ctx=None):
    """sum over the events of f(event), an integer.  With at = q and facts ctx: f is zero for events not on qubit q, so
    that iterations of a loop that do not act on q are left out."""
    tot = ic(0)
    for p in s.parts:
        if isinstance(p, Items):
            for x in p.vals:
                tot = add(tot, f(x))
        elif isinstance(p, (Sub, Loop)):
            k, = idx(1)
            body = Seq("trace", (Items([p.fn(k)]),)) if isinstance(p, Sub) else p.fn(k)
            n = lift(p.n)
            c2 = ctx.clone() if ctx is not None else None
            if c2 is not None:
                c2.assume(and_(le(ic(0), k), lt(k, n)))
            b = isum(body, f, at, c2)
            ats = () if at is None or ctx is None else at if isinstance(at, tuple) else (at,)
            for c in [c for q in ats for c in solutions(body, k, q)]:
                if c2.valid(implies(ne(k, c), eq(b, ic(0)))):
                    b = ite(and_(le(ic(0), c), lt(c, n)), subst(b, {k.args[0]: c}), ic(0))
                    break
            else:
                b = sum_(k, n, b)
            tot = add(tot, b)
        elif isinstance(p, If):
            a, b = isum(p.a, f, at, ctx), isum(p.b, f, at, ctx)
            tot = add(tot, ite(p.cond, a, b) if a is not b else a)
        else:
            raise Unsupported("trace part %r" % (p,))
    return tot


def letter_of(ev):
    """(x, z, coefficient) of a Pauli gate event in terms of M(letter), else None"""
    if ev[0] != "gate":
        return None
    n = ev[1]
    if n in ("X", "Z"):
        return PAULI[n] + (cc(1),)
    if n == "Y":
        return (1, 1, cc((Fraction(0), Fraction(1))))
    if n == "Pauli":
        letter, co = ev[2]
        return PAULI[letter] + (mul(co, cc((Fraction(0), Fraction(1)))) if letter == "Y" else co,)
    return None


def key_is(k, reg, q):
    return eq(k[1], lift(q)) if k[0] == reg else FALSE


def pauli_circuit(P, s, reg, ctx=None):
    """The trace consists of uncontrolled Pauli gates on the register (and flushes)."""
    bad = []

    def look(ev, g):
        if ev[0] == "flush":
            if ev[1]:
                bad.append("qubits deallocated")
            return
        l = letter_of(ev)
        if l is None:
            bad.append("%s" % (ev[:2],))
        elif ev[4]:
            bad.append("controlled gate")
        elif any(k[0] != reg for k in ev[3]):
            bad.append("gate on another register")
        elif l[2] not in (cc(1), cc(-1), cc((Fraction(0), Fraction(1))), cc((Fraction(0), Fraction(-1)))):
            bad.append("coefficient %r" % (l[2],))
    events_of(s, look)
    if bad:
        raise Unsupported("not a circuit of Pauli gates: %s" % bad[0])


def parity(s, reg, q, part, ctx=None):
    """Number of X (part 0) or Z (part 1) components applied to qubit q."""
    def f(ev):
        l = letter_of(ev)
        if l is None or not l[part]:
            return ic(0)
        return add(*[ite(key_is(k, reg, q), ic(1), ic(0)) for k in ev[3]])
    return isum(s, f, q, ctx)


# ---------------------------------------------------------------- controlled Pauli products
J = cc((Fraction(0), Fraction(1)))
POWER = {cc(1): 0, J: 1, cc(-1): 2, cc((Fraction(0), Fraction(-1))): 3}      # exponents of i


def on_qubit(s, reg, q, ctx):
    """The gate events on qubit q in order: [(condition, event)], for loops of which one iteration acts on q."""
    out = []
    for p in s.parts:
        if isinstance(p, Items):
            for x in p.vals:
                if x[0] == "gate":
                    for k in x[3]:
                        c = key_is(k, reg, q)
                        if c is not FALSE:
                            out.append((c, x))
        elif isinstance(p, (Sub, Loop)):
            k, = idx(1)
            n = lift(p.n)
            body = Seq("trace", (Items([p.fn(k)]),)) if isinstance(p, Sub) else p.fn(k)
            c2 = ctx.clone()
            c2.assume(and_(le(ic(0), k), lt(k, n)))
            inner = on_qubit(body, reg, q, c2)
            if not inner:
                continue
            for c in solutions(body, k, q):
                if c2.valid(implies(ne(k, c), not_(or_(*[g for g, _ in inner])))):
                    body = Seq("trace", (Items([p.fn(c)]),)) if isinstance(p, Sub) else p.fn(c)
                    r = and_(le(ic(0), c), lt(c, n))
                    c3 = ctx.clone()
                    c3.assume(r)
                    out += [(and_(r, g), e) for g, e in on_qubit(body, reg, q, c3)]
                    break
            else:
                raise Unsupported("several iterations act on one qubit")
        elif isinstance(p, If):
            for s2, g in ((p.a, p.cond), (p.b, not_(p.cond))):
                c2 = ctx.clone()
                c2.assume(g)
                out += [(and_(g, h), e) for h, e in on_qubit(s2, reg, q, c2)]
    return [(g, e) for g, e in out if not ctx.valid(not_(g))]


def product_is_letter(P, s, reg, q, x, z, name, ctx=None):
    """The gates on qubit q multiply to exactly M(letter with bits x, z)."""
    ctx = ctx or P.it.ctx
    evs = []
    for g, e in on_qubit(s, reg, q, ctx):
        l = letter_of(e)
        if l is None:
            raise Unsupported("gate %s in a Pauli product" % e[1])
        if l[2] not in POWER:
            raise Unsupported("coefficient of a Pauli gate")
        evs.append((g, l[0], l[1], POWER[l[2]]))
    cnt = lambda g, v: ite(g, ic(v), ic(0))
    tot = lambda c: add(ic(0), *[cnt(e[0], e[c]) for e in evs if e[c]])
    P.equal(name + ": X part", mod(tot(1), ic(2)), ite(x, ic(1), ic(0)), ctx)
    P.equal(name + ": Z part", mod(tot(2), ic(2)), ite(z, ic(1), ic(0)), ctx)
    phase = tot(3)
    for a in range(len(evs)):
        for b in range(a):           # M(b') M(b) = (-1)^(z' x) M(b' + b)
            if evs[a][2] and evs[b][1]:
                phase = add(phase, cnt(and_(evs[a][0], evs[b][0]), 2))
    P.equal(name + ": phase", mod(phase, ic(4)), ic(0), ctx)


H2 = [[1, 1], [1, -1]]
ONE_QUBIT = {"H": [[1, 1], [1, -1]], "X": [[0, 1], [1, 0]], "Z": [[1, 0], [0, -1]], "S": [[1, 0], [0, 1j]],
             "Sdag": [[1, 0], [0, -1j]], "Y": [[0, -1j], [1j, 0]]}


def mat2(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(2)) for j in range(2)] for i in range(2)]


def data_keys(P, s, ctrl, reg, n, name="gates act on the data qubits"):
    """Every event of the section is controlled by exactly ctrl and acts on qubits 0 .. n-1 of reg."""
    def look(ev, g):
        if ev[0] == "flush":
            return
        if ev[0] != "gate":
            raise Unsupported("event %s in a controlled section" % ev[0])
        if len(ev[4]) != 1 or ev[4][0][0] != ctrl[0] or not P.it.ctx.valid(eq(ev[4][0][1], ctrl[1])):
            raise Unsupported("control of a gate")
        for k in ev[3]:
            if k[0] != reg:
                raise Unsupported("gate on %s" % k[0])
            P.holds(name, implies(g, and_(le(ic(0), k[1]), lt(k[1], lift(n)))))
    events_of(s, look)


def has_gate(p):
    seen = []
    events_of(Seq("trace", (p,)), lambda ev, g: seen.append(ev) if ev[0] != "flush" else None)
    return seen


def flushed(s):
    """Nothing is applied after the last flush: an engine may buffer what comes after it."""
    for p in reversed(s.parts):
        if isinstance(p, Items):
            for x in reversed(p.vals):
                return x[0] == "flush"
        elif isinstance(p, Loop):
            if not flushed(p.fn(fresh("k"))):
                return False
        elif isinstance(p, If):
            if not (flushed(p.a) and flushed(p.b)):
                return False
        elif isinstance(p, Sub):
            if p.fn(fresh("k"))[0] != "flush":
                return False
        else:
            raise Unsupported("trace part %r" % (p,))
    return True


def read_when_done(s, pending=True, ok=None):
    """A measured qubit is read only when the engine has been flushed (it has no value before that)."""
    top, ok = ok is None, [True] if ok is None else ok
    for p in s.parts:
        if isinstance(p, (Items, Sub)):
            for x in p.vals if isinstance(p, Items) else [p.fn(fresh("k"))]:
                if x[0] == "flush":
                    pending = pending and isinstance(p, Sub)
                elif x[0] == "read":
                    ok[0] = ok[0] and not pending
                else:
                    pending = True
        elif isinstance(p, Loop):
            b = p.fn(fresh("k"))
            after = read_when_done(b, pending, ok)
            pending = pending or read_when_done(b, after, ok) or after
        elif isinstance(p, If):
            a, b = read_when_done(p.a, pending, ok), read_when_done(p.b, pending, ok)
            pending = a or b
        else:
            raise Unsupported("trace part %r" % (p,))
    return ok[0] if top else pending


def sections(P, s, anc):
    """[("one", event) | ("controlled", Seq)] of a trace in which an ancilla controls gates on other qubits."""
    it = P.it
    out = []
    flat = []
    for p in s.parts:
        if isinstance(p, Items):
            flat += [Items([x]) for x in p.vals]
        elif isinstance(p, If):
            c = p.cond
            if it.ctx.valid(c):
                flat += [Items([x]) for q in p.a.parts for x in q.vals]
            elif it.ctx.valid(not_(c)):
                flat += [Items([x]) for q in p.b.parts for x in q.vals]
            else:
                flat.append(p)
        else:
            flat.append(p)

    def is_anc(k):
        return k[0] == anc[0] and it.ctx.valid(eq(k[1], anc[1]))
    for p in flat:
        evs = has_gate(p)
        if not evs:
            continue
        if isinstance(p, Items) and (evs[0][0] != "gate" or not evs[0][4]):
            e = evs[0]
            if e[0] in ("alloc", "measure", "read") or e[0] == "gate" and len(e[3]) == 1 and is_anc(e[3][0]):
                out.append(("one", e))
                continue
            raise Unsupported("event %s" % (e[:2],))
        if out and out[-1][0] == "controlled":
            out[-1] = ("controlled", Seq("trace", out[-1][1].parts + (p,)))
        else:
            out.append(("controlled", Seq("trace", (p,))))
    return out


def positions(it, s, guard=TRUE, off=ic(0), vs=(), ctx=None):
    """The places at which elements of the sequence come from: [(loop variables, guard, position, element)]."""
    out = []
    for p in s.parts:
        if isinstance(p, Items):
            for j, x in enumerate(p.vals):
                out.append((vs, guard, add(off, ic(j)), x))
        elif isinstance(p, Sub):
            k, = idx(1)
            out.append((vs + (k,), and_(guard, le(ic(0), k), lt(k, lift(p.n))), add(off, k), p.fn(k)))
        elif isinstance(p, Loop):
            k, j = idx(2)
            g = and_(guard, le(ic(0), k), lt(k, lift(p.n)))
            c = (ctx or it.ctx).clone()
            c.assume(and_(g, le(ic(0), j), lt(j, k)))
            before = sum_(j, k, c.simp(lift(it.seq_len(p.fn(j)))))
            out += positions(it, p.fn(k), g, add(off, before), vs + (k,), ctx)
        elif isinstance(p, If):
            out += positions(it, p.a, and_(guard, p.cond), off, vs)
            out += positions(it, p.b, and_(guard, not_(p.cond)), off, vs)
        else:
            raise Unsupported("part %r" % (p,))
        off = add(off, (ctx or it.ctx).simp(lift(it.part_len(p))))
    return out


def element_at(it, sites, pos, names, ctx):
    """The element at a position, when some site with its loop variables among `names` has it."""
    import itertools as tools
    for vs, g, at, x in sites:
        for val in tools.product(names, repeat=len(vs)):
            m = {v.args[0]: lift(y) for v, y in zip(vs, val)}
            if ctx.valid(and_(subst(g, m), eq(subst(at, m), pos))):
                return subst(lift(x), m)
    raise Unsupported("element at a position")


def cases(ctx, s):
    """The cases of a trace that branches at its top level: [(context, parts without If)]."""
    out = [(ctx, [])]
    for p in s.parts:
        nxt = []
        for c, parts in out:
            if isinstance(p, If):
                for s2, g in ((p.a, p.cond), (p.b, not_(p.cond))):
                    if c.valid(not_(g)):
                        continue
                    c2 = c.clone()
                    c2.assume(g)
                    nxt += [(c3, parts + q) for c3, q in cases(c2, s2)]
            else:
                nxt.append((c, parts + [p]))
        out = nxt
    return out
