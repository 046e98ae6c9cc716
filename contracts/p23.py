"""The approximate unitary 2-design, its inverse, and the estimate of the average fidelity."""
from .lib import *
from .circuits import *

D_ = DEV + ":ProjectQDeviceAdaptor"
PI = app("real:pi", sort="cx")


def device(it, real=False):
    n = dim(it, "n")
    w = {"n": n, "eng": gates.engine(it, n), "reg": gates.register(it, "data", n)}
    w["self"] = me = it.obj(cls(DEV, "ProjectQDeviceAdaptor"))
    if not construct(it, me, [w["eng"], w["reg"]] + ([True] if real else []), {}):
        it.heap[me.ref] = {"_eng": w["eng"], "_register": w["reg"], "_numb_qubits": n, "_real_device": real}
    w["eps"] = app("real:eps", sort="cx")
    it.ctx.assume(and_(lt(cc(0), w["eps"]), le(w["eps"], cc(1))))
    return w


def layers(it, s):
    """A round as layers: [("diagonal" | "H", Seq)] in order."""
    out = []

    def kind(ev):
        if ev[0] == "gate" and ev[1] == "R" and len(ev[3]) == 1 and len(ev[4]) <= 1:
            return "diagonal"
        if ev[0] == "gate" and ev[1] == "H" and not ev[4]:
            return "H"
        raise Unsupported("event %s" % (ev[:2],))
    for p in s.parts:
        for q in ([Items([x]) for x in p.vals] if isinstance(p, Items) else [p]):
            evs = has_gate(q)
            if not evs:
                continue
            ks = {kind(e) for e in evs}
            if len(ks) > 1:
                raise Unsupported("diagonal gates and Hadamards mixed in one loop")
            k, = ks
            if out and out[-1][0] == k:
                out[-1] = (k, Seq("trace", out[-1][1].parts + (q,)))
            else:
                out.append((k, Seq("trace", (q,))))
    return out


def on_register(P, s, reg, n, ctx):
    def look(ev, g):
        if ev[0] == "gate":
            for k in ev[3] + ev[4]:
                P.holds("gates act on the qubits of the register", implies(g, and_(lift(k[0] == reg), le(ic(0), k[1]), lt(k[1], n))), ctx=ctx)
            for k in ev[4]:
                P.holds("no gate is controlled by its own qubit", implies(g, ne(k[1], ev[3][0][1])), ctx=ctx)
    events_of(s, look)


def angle(s, q, ctx):
    """Total angle of the uncontrolled phases on qubit q."""
    return isum(s, lambda e: ite(key_is(e[3][0], e[3][0][0], q), e[2][0], cc(0)) if e[0] == "gate" and e[1] == "R" and not e[4] else ic(0), q, ctx)


def pair_angle(s, a, b, ctx):
    """Total angle of the phases on qubits a and b both one."""
    def one(x, y):
        return isum(s, lambda e: ite(and_(eq(e[3][0][1], y), eq(e[4][0][1], x)), e[2][0], cc(0)) if e[0] == "gate" and e[1] == "R" and e[4] else ic(0),
                    (x, y), ctx)
    return add(lift(one(a, b), "cx"), lift(one(b, a), "cx"))


def hadamards(s, q, ctx):
    return isum(s, lambda e: ite(eq(e[3][0][1], q), ic(1), ic(0)) if e[0] == "gate" and e[1] == "H" else ic(0), q, ctx)


def place(n, a, b):
    """Position of the phase of the pair (control a, target b) in the list of a round."""
    return add(n, mul(a, sub(n, ic(1))), ite(lt(a, b), sub(b, ic(1)), b))


def one_round(P, s, what):
    """The only loop of the trace."""
    parts = [p for p in s.parts if has_gate(p)]
    if len(parts) != 1 or not isinstance(parts[0], Loop):
        raise Unsupported("a single loop over the rounds expected in %s" % what)
    return parts[0]


def trial(P, env, reg, parts, t, j):
    it, n = P.it, env["n"]
    evs = []
    for p in parts:
        if isinstance(p, Items):
            evs += [(x, None) for x in p.vals]
        elif isinstance(p, Sub):
            evs.append((p.fn(j), p.n))
        elif isinstance(p, Loop) and len(p.fn(j).parts) == 1 and isinstance(p.fn(j).parts[0], Items) and len(p.fn(j).parts[0].vals) == 1:
            evs.append((p.fn(j).parts[0].vals[0], p.n))
        else:
            raise Unsupported("events of a trial")
    P.holds("the register is read when it has been measured", lift(read_when_done(Seq("trace", tuple(parts)))))
    start = []
    while evs and evs[0][0][0] in ("flush", "alloc", "set"):
        start.append(evs.pop(0)[0])
    evs = [e for e in evs if e[0] != ("flush", False)]
    if not P.holds("a trial samples a circuit, applies the channel, the inverse, measures and reads",
                   lift([e[0][0] for e in evs] == ["design", "channel", "inverse", "measure", "read"])):
        return
    if env["mode"] == "reset by new qubits":
        if not P.holds("a trial starts with new qubits", lift([e[0] for e in start if e != ("flush", False)] == ["flush", "alloc"] and
                                                              ("flush", True) in start)):
            return
        al = [e for e in start if e[0] == "alloc"][0]
        P.equal("number of new qubits", al[2], n)
    elif env["mode"] == "reset by wave function":
        st = [e for e in start if e[0] == "set"]
        if not P.holds("a trial sets the wave function once", lift(len(st) == 1)):
            return
        amp = it.seq(st[0][1])
        P.equal("size of the wave function", lift(it.seq_len(amp)), app("pow", ic(2), n))
        x = ivar(it, "x", 0, app("pow", ic(2), n))
        it.ctx.assume(le(ic(1), app("pow", ic(2), n)))
        P.equal("the wave function of the zero state", lift(it.seq_get(amp, x), "cx"), ite(eq(x, ic(0)), cc(1), cc(0)))
        whole(P, st[0][2], "data", n, j)
    else:
        P.holds("a real device is not reset", lift(not [e for e in start if e != ("flush", False)]))
    d, c, i, m, r = [e[0] for e in evs]
    for name, e in (("design", d[3:]), ("channel", c[3:]), ("inverse", i[2:])):
        P.equal("register of the " + name, e[1], n)
        k = it.seq_get(e[0], j)
        P.holds("qubits of the " + name, and_(lift(k.reg == reg), eq(k.idx, j)))
    P.holds("the precision is handed over", eq(d[2], env["eps"]))
    P.holds("the engine is handed over", lift(c[2]))
    P.equal("the inverse of the circuit of the same trial", i[1], d[1])
    P.equal("each trial has its own circuit", d[1], t)
    for name, e, cnt in (("measured", m, evs[3][1]), ("read", r, evs[4][1])):
        P.equal("every qubit is " + name, lift(cnt), n)
        P.holds("qubit j is " + name, and_(lift(e[1][0] == reg), eq(e[1][1], j)))


def whole(P, reg, name, n, j):
    s = P.it.iter_seq(reg)
    k = P.it.seq_get(s, j)
    P.holds("the whole register", and_(lift(k.reg == name), eq(k.idx, j), eq(lift(P.it.seq_len(s)), n)))


def verify(V):
    # ------------------------------------------------------------ the sampled circuit
    def setup(it):
        w = device(it)
        w["l"] = app("ceil", it.binop(ast_div(), app("real:log2", inv_of(w["eps"]), sort="cx"), w["n"]))
        it.ctx.assume(le(ic(0), w["l"]))
        return [w["eps"]], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        it, n = P.it, env["n"]
        R = add(mul(ic(2), env["l"]), ic(1))
        loop = one_round(P, it.heap["TRACE"], "the circuit")
        P.equal("number of rounds", lift(loop.n), R)
        res = it.iter_seq(out[1])
        P.equal("one list of phases per round", lift(it.seq_len(res)), R)
        r = ivar(it, "r", 0, R)
        it.ctx.assume(lt(r, lift(loop.n)))
        ly = layers(it, loop.fn(r))
        if not P.holds("a round is a diagonal layer and a Hadamard layer", lift([k for k, _ in ly] == ["diagonal", "H"])):
            return
        used = it.iter_seq(it.seq_get(res, sub(sub(R, ic(1)), r)))      # the last round comes first
        P.equal("number of phases of a round", lift(it.seq_len(used)), mul(n, n))
        q, a, b = ivar(it, "q", 0, n), ivar(it, "a", 0, n), ivar(it, "b", 0, n)
        sites = positions(it, used)
        on_register(P, ly[0][1], "data", n, it.ctx)
        on_register(P, ly[1][1], "data", n, it.ctx)
        P.equal("one Hadamard on qubit q", hadamards(ly[1][1], q, it.ctx), ic(1))
        lq = element_at(it, sites, q, (q,), it.ctx)
        P.equal("phase of qubit q as recorded", lift(angle(ly[0][1], q, it.ctx), "cx"), lq)
        third = lambda k: mul(cc(Fraction(2 * k, 3)), PI)
        P.holds("phase of a qubit", or_(*[eq(lq, third(k)) for k in range(3)]))
        c = it.ctx.clone()
        c.assume(ne(a, b))
        lab, lba = [element_at(it, sites, place(n, x, y), (x, y), c) for x, y in ((a, b), (b, a))]
        P.equal("phase of the pair a, b as recorded", pair_angle(ly[0][1], a, b, c), add(lab, lba), ctx=c)
        P.holds("phase of a pair", or_(eq(lab, cc(0)), eq(lab, PI)), ctx=c)
    V.function(D_ + ".approximate_unitary_two_design", setup, post)

    # ------------------------------------------------------------ the inverse
    def setup_i(it):
        w = device(it)
        n, w["R"] = w["n"], ivar(it, "R", 0)
        lst = lambda r: Seq("list", (Sub(mul(n, n), lambda j: app("real:ph", lift(r), lift(j), sort="cx")),))
        L = Lst(it.new(Seq("list", (Sub(w["R"], lambda r: Lst(it.new(lst(r)))),))))
        return [L], {}, w

    def post_i(P, out, env):
        if not returns(P, out):
            return
        it, n, R = P.it, env["n"], env["R"]
        loop = one_round(P, it.heap["TRACE"], "the inverse circuit")
        P.equal("number of rounds", lift(loop.n), R)
        r = ivar(it, "r", 0, R)
        ly = layers(it, loop.fn(r))
        if not P.holds("a round is a Hadamard layer and a diagonal layer", lift([k for k, _ in ly] == ["H", "diagonal"])):
            return
        q, a, b = ivar(it, "q", 0, n), ivar(it, "a", 0, n), ivar(it, "b", 0, n)
        on_register(P, ly[0][1], "data", n, it.ctx)
        on_register(P, ly[1][1], "data", n, it.ctx)
        P.equal("one Hadamard on qubit q", hadamards(ly[0][1], q, it.ctx), ic(1))
        ph = lambda j: app("real:ph", r, j, sort="cx")
        P.equal("phase of qubit q is taken back", lift(angle(ly[1][1], q, it.ctx), "cx"), neg(ph(q)))
        for order in (lt(a, b), lt(b, a)):
            c = it.ctx.clone()
            c.assume(order)
            got = c.simp(pair_angle(ly[1][1], a, b, c))
            want = c.simp(add(ph(place(n, a, b)), ph(place(n, b, a))))
            if P.decide_eq(got, neg(want), c)[0] == "discharged":
                want = neg(want)        # otherwise the same phases again: 0 and pi are their own inverses
            P.equal("phase of the pair a, b is taken back", got, want, ctx=c)
    V.function(D_ + ".inverse_of_unitary_two_design", setup_i, post_i)

    def lemma(P):
        H = [[1, 1], [1, -1]]
        P.holds("H H = 2", lift(mat2(H, H) == [[2, 0], [0, 2]]))
        # a phase x in {0, pi} twice is a multiple of 2 pi
        x = app("real:x", sort="cx")
        c = P.it.ctx.clone()
        c.assume(or_(eq(x, cc(0)), eq(x, PI)))
        P.holds("2 x is 0 or 2 pi", or_(eq(add(x, x), cc(0)), eq(add(x, x), mul(cc(2), PI))), ctx=c)
    V.lemma("the inverse undoes the circuit round by round", lemma)

    # ------------------------------------------------------------ the estimate
    for mode in ("reset by new qubits", "reset by wave function", "real device"):
        def setup_e(it, mode=mode):
            w = device(it, real=mode == "real device")
            w["mode"] = mode
            w["ntimes"] = ivar(it, "ntimes", 1)
            it.heap["EPOCH"] = ic(0)

            def fresh_register(it, args, kwargs):
                gates.emit(it, ("alloc", "fresh", lift((list(args) + list(kwargs.values()))[0])))
                return gates.register(it, "fresh", (list(args) + list(kwargs.values()))[0])
            old = w["eng"].attr
            w["eng"].attr = lambda it, name: Opaque("allocate", attrs={"call": fresh_register}) if name == "allocate_qureg" else old(it, name)

            def which(it, reg):
                s = it.iter_seq(reg)
                n = it.seq_len(s)
                return (s, lift(n))

            def design(it, f, args, kwargs):
                b = it.bind(f, args, kwargs)
                e = it.heap["EPOCH"]
                gates.emit(it, ("design", e, lift(b["epsilon"], "cx")) + which(it, it.get_attr(f.bound, "register")))
                return Sp("strint", value=e, prefix="phases")

            def inverse(it, f, args, kwargs):
                b = it.bind(f, args, kwargs)
                ph = b["random_phases"]
                if not (isinstance(ph, Sp) and getattr(ph, "prefix", "") == "phases"):
                    raise Unsupported("phases of the inverse")
                gates.emit(it, ("inverse", ph.value) + which(it, it.get_attr(f.bound, "register")))
                return None

            def channel(it, args, kwargs):
                e = it.heap["EPOCH"]
                it.heap["EPOCH"] = add(e, ic(1))
                gates.emit(it, ("channel", e, args[0] is w["eng"]) + which(it, args[1]))
                return None
            it.contracts[D_ + ".approximate_unitary_two_design"] = design
            it.contracts[D_ + ".inverse_of_unitary_two_design"] = inverse
            ch = Opaque("channel", attrs={"call": channel})
            return [ch, w["ntimes"], w["eps"]], {"cheat": True} if mode == "reset by wave function" else {}, w

        def post_e(P, out, env):
            if not returns(P, out):
                return
            it, n, T = P.it, env["n"], env["ntimes"]
            reg = "fresh" if env["mode"] == "reset by new qubits" else "data"
            s = it.heap["TRACE"]
            parts = [p for p in s.parts if has_gate(p)]
            if len(parts) != 1 or not isinstance(parts[0], Loop):
                raise Unsupported("a single loop over the trials expected")
            loop = parts[0]
            P.equal("number of trials", lift(loop.n), T)
            t = ivar(it, "t", 0, T)
            j = ivar(it, "j", 0, n)
            whole_ctx = it.ctx
            for c, parts in cases(it.ctx.clone(), loop.fn(t)):
                it.ctx = c
                trial(P, env, reg, parts, t, j)
            it.ctx = whole_ctx
            t2, = idx(1)
            q, = idx(1)
            zero = forall(q, n, not_(app("outcome:" + reg, q, add(t2, ic(1)), sort="bool")))
            count = sum_(t2, T, ite(zero, ic(1), ic(0)))
            P.equal("the estimate is the fraction of trials that return to zero", mul(out[1], lift(T, "cx")), lift(count, "cx"))
        V.function(D_ + ".estimate_average_fidelity", setup_e, post_e, mode)

    from .p25 import through_channel
    through_channel(V)
    V.assume_text("projectq: R(x) is diag(1, exp(ix)), controlled R acts on |11>; new qubits are in |0>; flush(deallocate_qubits=True) gives the old ones up",
                  "numpy.random.choice draws elements of the list; the trials are independent and the outcome frequencies those of quantum mechanics")


def ast_div():
    import ast
    return ast.Div()


def inv_of(x):
    from pyded.interp import inv
    return inv(x)
