"""Pauli circuits and logical circuits."""
from .lib import *
from .circuits import *
from . import p01

STAB = CODES + ":StabilizerCode"


def pauli_post(P, it, reg, n, want):
    s = it.heap["TRACE"]
    pauli_circuit(P, s, reg)
    P.holds("the engine is flushed at the end", lift(flushed(s)))
    q = ivar(it, "q", 0, n)
    for part, name in ((0, "X"), (1, "Z")):
        P.equal("%s component on qubit q" % name, mod(parity(s, reg, q, part, it.ctx), ic(2)), ite(want(q)[part], ic(1), ic(0)))
    seen = []

    def look(ev, g):
        if ev[0] == "gate":
            for k in ev[3]:
                seen.append((g, k[1]))
    events_of(s, look)
    for g, k in seen:
        P.holds("gates act on the qubits of the register", implies(g, and_(le(ic(0), k), lt(k, n))))


def verify(V):
    for kind in ("str", "list", "array", "float array"):
        def setup(it, kind=kind):
            w = {"n": dim(it, "n"), "eng": gates.engine(it)}
            n = w["n"]
            w["size"] = ivar(it, "size", 1)                       # a larger register is not touched beyond qubit n
            it.ctx.assume(le(n, w["size"]))
            w["reg"] = gates.register(it, "data", w["size"])
            if kind == "str":
                a = Seq("str", (Sub(n, lambda j: app("ch", lift(j))),))
                k = fresh("k")
                it.ctx.lemmas["ch"] = lambda j: implies(and_(le(ic(0), j), lt(j, n)), p01.legal(app("ch", j)))
                w["want"] = lambda q: (p01.is_x(app("ch", q)), p01.is_z(app("ch", q)))
            else:
                b = lambda c: app("bit:b", lift(c), sort="bool")
                arr = bits(it, "b", mul(ic(2), n))
                a = Lst(it.new(Seq("list", (Sub(mul(ic(2), n), arr.fn),)))) if kind == "list" else \
                    it.nd(arr if kind == "array" else Arr(arr.shape, lambda j: lift(arr.fn(j), "cx"), "cx"))
                w["want"] = lambda q: (b(q), b(add(n, q)))
            w["self"] = code(it, sub(w["size"], ivar(it, "k", 0, w["size"])), w["size"], var("k"))
            return [w["eng"], w["reg"], a], {}, w

        def post(P, out, env):
            if returns(P, out):
                pauli_post(P, P.it, "data", env["n"], env["want"])
        V.function(STAB + ".apply_stabilizer_circuit", setup, post, kind)

    def setup(it, form="two"):
        n, k = dim(it, "n"), ivar(it, "k", 0)
        it.ctx.assume(le(k, n))
        w = {"n": n, "k": k, "eng": gates.engine(it), "reg": gates.register(it, "data", n), "form": form}
        two = mul(ic(2), n)
        w["c"], w["d"] = ivar(it, "c0", 0), ivar(it, "c1", 0)
        w["self"] = code(it, sub(n, k), n, k, logicals=(it.nd(bits(it, "lx", k, two)), it.nd(bits(it, "lz", k, two))))
        if form == "two":
            a = Seq("str", (Items([w["c"], w["d"]]),))
        else:
            w["len"] = ivar(it, "len", 0)
            it.ctx.assume(ne(w["len"], ic(2)))
            a = Seq("str", (Sub(w["len"], lambda j: app("ch", lift(j))),))
        return [w["eng"], w["reg"], a], {}, w

    def post(P, out, env):
        it, c, d, n, k = P.it, env["c"], env["d"], env["n"], env["k"]
        if env["form"] != "two":
            raises(P, out, None, "a request of another length is rejected")
            return
        i = sub(d, ic(48))
        letter = or_(*[eq(c, p01.CH[x]) for x in "XYZ"])
        names = and_(letter, le(ic(48), d), le(d, ic(57)), lt(i, k))
        if out[0] == "raise":
            P.holds("only requests that name no logical operator are rejected", not_(names))
            s = it.heap["TRACE"]
            P.holds("a rejected request applies nothing", lift(not [p for p in s.parts if not (isinstance(p, Items) and not p.vals)]))
            return
        P.holds("requests that name no logical operator are not accepted", names)
        lx = lambda c: app("bit:lx", i, lift(c), sort="bool")
        lz = lambda c: app("bit:lz", i, lift(c), sort="bool")
        isx, isz = eq(c, p01.CH["X"]), eq(c, p01.CH["Z"])
        both = lambda a, b: not_(iff(a, b))
        pick = lambda q: ite(isx, lx(q), ite(isz, lz(q), both(lx(q), lz(q))))
        pauli_post(P, it, "data", n, lambda q: (pick(q), pick(add(n, q))))
    V.function(STAB + ".logical_circuit", setup, post)
    V.function(STAB + ".logical_circuit", lambda it: setup(it, "other"), post, "another length")
    V.assume_text("projectq: a gate on a qubit acts as its matrix, QubitOperator('Y<q>', c) on a register as c Y on qubit q of it; "
                  "letter products are taken up to a phase")
