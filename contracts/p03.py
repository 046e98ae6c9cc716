"""P03: a code is accepted exactly when its generators commute and fit its size."""
from .lib import *
from . import p01

INIT = CODES + ":StabilizerCode.__init__"


def anticommute(bit, n, i, j):
    """Parity of the positions where rows i and j anticommute, as a bit."""
    k, = idx(1)
    v = lambda r, c: ite(bit(r, c), ic(1), ic(0))
    return mod(S((k, n), add(mul(v(i, k), v(j, add(n, k))), mul(v(i, add(n, k)), v(j, k)))), ic(2))


def product(it, bit, n, source):
    """inner_prod of two generators by its contract (P02); anti(i, j) names the value for the generators i and j."""
    it.ctx.lemmas = dict(it.ctx.lemmas, anti=lambda i, j: and_(le(ic(0), app("anti", i, j)), le(app("anti", i, j), ic(1)),
                                                               eq(app("anti", i, j), app("anti", j, i)), eq(app("anti", i, i), ic(0))))

    def row(v):
        a = it.arr(v)
        c = fresh("c")
        for r in sorted({x.args[1] for x in subterms(lift(a.fn(c))) if x.op == "app" and x.args[0] == source}, key=lambda x: x.key):
            if it.same_value(Arr(a.shape, a.fn, a.sort), Arr((mul(ic(2), n),), lambda c: ite(bit(r, lift(c)), ic(1), ic(0)), "int"), it.ctx):
                return r
        raise Unsupported("inner product of something that is not a generator")

    def h(it, f, args, kwargs):
        b = it.bind(f, args, kwargs)
        return app("anti", row(b["pauli1"]), row(b["pauli2"]))
    it.contracts[CODES + ":StabilizerCode.inner_prod"] = h


def parts(it):
    """Contracts of the other functions: the encodings (P01), the normal form (P04), the logical operators (P05)."""
    def enc(it, f, args, kwargs):
        s = it.iter_seq(it.bind(f, args, kwargs)["paulis"])
        m, n = it.seq_len(s), it.seq_len(it.seq(it.seq_get(s, 0)))
        ch = lambda i, j: lift(it.seq_get(it.seq(it.seq_get(s, i)), j))
        bit = lambda b: ite(b, ic(1), ic(0))
        return it.nd(Arr((m, mul(ic(2), lift(n))), lambda i, c: ite(lt(c, lift(n)), bit(p01.is_x(ch(i, c))), bit(p01.is_z(ch(i, sub(c, lift(n)))))), "int"))
    it.contracts[p01.ENC] = enc

    def dec(it, f, args, kwargs):
        a = it.arr(it.bind(f, args, kwargs)["binary_rep"])
        n = div(lift(a.shape[0]), ic(2))
        n = it.ctx.simp(n)
        one = lambda v: eq(v, lift(1, v.sort))
        return Seq("str", (Sub(n, lambda j: p01.letter(one(lift(a.fn(lift(j)))), one(lift(a.fn(add(n, lift(j))))))),))
    it.contracts[p01.DEC] = dec

    def normal(it, f, args, kwargs):
        me = f.bound
        d = dict(it.heap[me.ref])
        log(it, "normal", d.get("_stab_bin_rep"), d.get("_n"), d.get("_k"))
        d["qubit_order"] = Opaque("order")
        it.heap[me.ref] = d
        return (Opaque("normal form"), var("rank"))
    it.contracts[CODES + ":StabilizerCode._standard_normal_form"] = normal

    def logical(it, f, args, kwargs):
        r = (Opaque("logical x"), Opaque("logical z"))
        log(it, "logical", r)
        return r
    it.contracts[CODES + ":StabilizerCode.logical_operators"] = logical


def verify(V):
    for given in ("strings", "array", "lists"):
        for logical in ("none", "arrays", "misshapen", "lists"):
            if logical != "none" and given not in ("strings", "array"):
                continue

            def setup(it, given=given, logical=logical):
                it.heap["CALLS"] = ()
                m, n, k = dim(it, "m"), ivar(it, "n", 1), ivar(it, "k", 0)
                if given == "strings":
                    L = dim(it, "L")
                    w = mul(ic(2), L)
                    s = p01.strings(it, m, L)
                    it.ctx.assume(not_(p01.bad(m, L)))
                    bit = lambda i, c: ite(lt(c, L), p01.is_x(app("ch", lift(i), lift(c))), p01.is_z(app("ch", lift(i), sub(c, L))))
                else:
                    w = ivar(it, "w", 0)
                    b = bits(it, "b", m, w)
                    bit = lambda i, c: app("bit:b", lift(i), lift(c), sort="bool")
                    if given == "array":
                        s = it.nd(b)
                    else:
                        s = Lst(it.new(Seq("list", (Sub(m, lambda i: Lst(it.new(Seq("list", (Sub(w, lambda c: b.fn(i, c)),))))),))))
                kw, ops, shapes = {}, None, []
                if logical != "none":
                    ws = [mul(ic(2), n)] * 2
                    if logical == "misshapen":
                        ws = [ivar(it, "wx", 0), ivar(it, "wz", 0)]
                        it.ctx.assume(or_(*[ne(x, mul(ic(2), n)) for x in ws]))
                    ops = tuple(it.nd(bits(it, "l%d" % j, k, x)) for j, x in enumerate(ws))
                    if logical == "lists":
                        ops = (ops[0], it.lst([it.lst([0, 1])]))
                    kw["logical_ops"] = ops
                parts(it)
                product(it, bit, n, "ch" if given == "strings" else "bit:b")
                me = it.obj(cls(CODES, "StabilizerCode"))
                return [s, n, k], kw, {"self": me, "m": m, "n": n, "k": k, "w": w, "bit": bit, "ops": ops}

            def post(P, out, env, given=given, logical=logical):
                it, m, n, k, w, bit = P.it, env["m"], env["n"], env["k"], env["w"], env["bit"]
                fits = and_(eq(w, mul(ic(2), n)), eq(m, sub(n, k)))
                i, j = fresh("i"), fresh("j")
                clash = exists(i, m, exists(j, m, and_(ne(i, j), ne(app("anti", i, j), ic(0)))))
                if out[0] == "raise":
                    P.holds("fails with AssertionError", lift(out[1].name == "AssertionError"))
                    if logical in ("none", "arrays"):
                        P.holds("only ill-fitting or anticommuting generators are rejected", or_(not_(fits), clash))
                    return
                if not returns(P, out):
                    return
                if logical in ("misshapen", "lists"):
                    return P.fail("ill-formed logical operators are rejected", "accepted")
                P.holds("generators that do not fit are rejected", fits)
                c = it.ctx.clone()
                i, j = ivar(it, "gi", 0, m), ivar(it, "gj", 0, m)
                P.holds("the generators of an accepted code commute", implies(ne(i, j), eq(app("anti", i, j), ic(0))))
                me = env["self"]
                get = lambda a: it.get_attr(me, a)
                P.equal("n", lift(get("n")), n)
                P.equal("k", lift(get("k")), k)
                P.equal("number of encoded qubits", lift(get("dim_code_space")), k)
                want = Arr((m, mul(ic(2), n)), lambda a, c: ite(bit(a, c), ic(1), ic(0)), "int")
                P.equal("the generators", get("stab_bin_rep"), want)
                P.equal("number of generators", lift(get("numb_stab")), m)
                s = it.iter_seq(get("pauli_stab"))
                P.equal("one string per generator", lift(it.seq_len(s)), m)
                q = ivar(it, "q", 0, n)
                row = it.seq(it.seq_get(s, i))
                P.equal("one letter per qubit", lift(it.seq_len(row)), n)
                P.equal("the strings of the generators", lift(it.seq_get(row, q)), p01.letter(bit(i, q), bit(i, add(n, q))))
                if logical == "arrays":
                    P.holds("the logical X operators of the user", lift(same(it, get("logical_x"), env["ops"][0])))
                    P.holds("the logical Z operators of the user", lift(same(it, get("logical_z"), env["ops"][1])))
                    for w_, o in enumerate(env["ops"]):
                        P.equal("logical operators of the user unchanged %d" % w_, o, bits(it, "l%d" % w_, k, mul(ic(2), n)))
                else:
                    l = calls(it, "logical")
                    P.holds("the computed logical operators", lift(len(l) == 1 and get("logical_x") is l[0][1][0] and get("logical_z") is l[0][1][1]))
                nf = calls(it, "normal")
                P.holds("the normal form of this code", lift(len(nf) == 1))
                if len(nf) == 1:
                    P.equal("~normal form computed from the generators", nf[0][1], want)
                    P.equal("~n known to the normal form", lift(nf[0][2]), n)
            V.function(INIT, setup, post, "%s, logical operators: %s" % (given, logical))

    def symmetric(P):
        it = P.it
        n, i, j = dim(it, "n"), var("i"), var("j")
        bit = lambda r, c: app("bit:b", r, c, sort="bool")
        P.equal("the product bit is symmetric", anticommute(bit, n, i, j), anticommute(bit, n, j, i))
        P.equal("every row commutes with itself", anticommute(bit, n, i, i), ic(0))
        P.holds("the product bit is a bit", and_(le(ic(0), anticommute(bit, n, i, j)), le(anticommute(bit, n, i, j), ic(1))))
    V.lemma("inner product", symmetric)
    V.assume_text("the normal form and the logical operators by their contracts (P04, P05), the encodings by theirs (P01)")
