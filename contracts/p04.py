"""Standard normal form.

State of a block after s steps: the matrix O_s, the qubit order pi_s.  Every iteration is shown to be: swap two rows and,
in both halves, two columns (the same two entries of the order), then add the pivot row to the other rows that have a one
in the pivot column.  That is an invertible row operation on the relabelled generators (lemma), and it leaves unit columns
behind.  The search for the pivot is a pair of nested loops with the invariant: nothing was moved and the position
(pi, pc) of some one is still ahead, or exactly one exchange with a one was done."""
from .lib import *

STAB = CODES + ":StabilizerCode"
RANK = STAB + "._binary_rank"


class Block:
    """What one of the two eliminations works on."""

    def __init__(self, w, second):
        self.w, self.second = w, second
        self.rank = w["t"] if second else w["r"]        # number of steps
        self.base = w["r"] if second else ic(0)         # row and qubit of the first pivot

    def column(self, q):
        return add(self.w["n"], q) if self.second else lift(q)

    def shape(self, s, name, done=False):
        """The matrix after s steps: unit columns, and arbitrary bits elsewhere."""
        w = self.w
        n, r = w["n"], w["r"]
        bit = lambda i, c: ite(app("bit:" + name, i, c, sort="bool"), ic(1), ic(0))
        d = lambda a, b: ite(eq(a, b), ic(1), ic(0))

        def fn(i, c):
            i, c = lift(i), lift(c)
            if not self.second:
                low = ite(and_(le(s, i), lt(c, n)), ic(0), bit(i, c)) if done else bit(i, c)
                return ite(lt(c, s), d(i, c), low)
            first = ite(lt(c, r), d(i, c), bit(i, c))
            unit = ite(and_(le(add(n, r), c), lt(c, add(n, r, s))), d(sub(i, r), sub(c, add(n, r))), bit(i, c))
            return ite(lt(i, r), first, ite(lt(c, n), ic(0), unit))
        return Arr((w["m"], mul(ic(2), n)), fn, "int")

    def swapped(self, a, p, x, b, idle):
        """a with rows p, b and, in both halves, qubits p, x exchanged (unless idle)."""
        n = self.w["n"]
        return Arr(a.shape, lambda i, c: a.fn(swap(lift(i), p, b, idle), both(n, lambda q: swap(q, p, x, idle), lift(c))), "int")


def swap(i, p, b, idle):
    return ite(idle, i, ite(eq(i, p), b, ite(eq(i, b), p, i)))


def both(n, f, c):
    return ite(lt(c, n), f(c), add(n, f(sub(c, n))))


def order_of(it, me):
    v = it.heap[me.ref].get("qubit_order")
    if not isinstance(v, (Lst, Nd, tuple)):
        raise Unsupported("the qubit order %r" % (v,))
    s = it.iter_seq(v)
    return s, lift(it.seq_len(s)), lambda q: lift(it.seq_get(s, q))


def fresh_order(it, me, fn, n):
    d = dict(it.heap[me.ref])
    d["qubit_order"] = Lst(it.new(Seq("list", (Sub(n, fn),))))
    it.heap[me.ref] = d


def oblige(it, name, f):
    ok = it.ctx.check(lift(f), 10, cvc5=True) == "valid"
    it.obligations.append((name, "discharged" if ok else "unproved", "" if ok else lift(f).key[:300]))


def bit_is(e, v):
    return eq(lift(e), ic(v))


class Steps:
    """The loop over the pivots."""

    def __init__(self, w, block):
        self.w, self.b = w, block

    def offered(self, s):
        it, w = s.it, self.w
        if "GE" in it.heap or not it.ctx.valid(eq(s.nn, self.b.rank)):
            return None
        init = w["init"]
        refs = {}
        for x, v in s.frame.env.items():
            if isinstance(v, Nd) and v.imap is None and it.arr(v).ndim == 2 and it.same_value(it.arr(v), init, it.ctx):
                refs[v.ref] = x
        # the working copy, or the given rows themselves when there is none
        refs = {r: x for r, x in refs.items() if r not in w["given"]} or refs
        if len(refs) != 1:
            return None
        self.ref, = refs
        return self

    def start(self, s):
        it = s.it
        self.me = dict(it.heap[self.w["self"].ref])
        it.heap["GE"] = None

    def check(self, s, i, what):
        it, w, b = s.it, self.w, self.b
        g = it.heap.get("GE")
        a = it.heap[self.ref]
        _, ln, order = order_of(it, w["self"])
        i_, c, q = fresh("i"), fresh("c"), fresh("q")
        with given(it, between(0, i_, w["m"]), between(0, c, mul(ic(2), w["n"])), between(0, q, w["n"])):
            v = lift(a.fn(i_, c))
            if what == "holds initially":
                oblige(it, "the elimination starts from the given rows", eq(v, lift(w["init"].fn(i_, c))))
                oblige(it, "the order at the start", and_(eq(ln, w["n"]), eq(order(q), w["order0"](q))))
                return
            p = add(b.base, g["s"])
            x, y, idle = g["pivot"]
            W = b.swapped(g["O"], p, x, y, idle)
            oblige(it, "the pivot is one of the remaining rows and qubits", or_(idle, and_(between(p, x, w["n"]), between(p, y, w["m"]))))
            oblige(it, "the pivot entry is one", bit_is(W.fn(p, b.column(p)), 1))
            hit = and_(ne(i_, p), bit_is(W.fn(i_, b.column(p)), 1), le(b.base if b.second else ic(0), i_))
            oblige(it, "the qubits are exchanged in the order as in the matrix", and_(eq(ln, w["n"]), eq(order(q), g["order"](swap(q, p, x, idle)))))
            oblige(it, "rows and qubits exchanged, the pivot row added to the rows with a one in its column",
                   eq(v, ite(hit, mod(add(W.fn(i_, c), W.fn(p, c)), ic(2)), W.fn(i_, c))))
            want = b.shape(i, "O'")
            e = lift(want.fn(i_, c))
            # where the shape is arbitrary bits the value only has to be a bit
            free = ite(app("bit:O'", i_, c, sort="bool"), ic(1), ic(0))
            e0, e1 = [subst_app(e, "bit:O'", t) for t in (FALSE, TRUE)]
            oblige(it, "unit columns and zero blocks after the step", or_(eq(v, e0), eq(v, e1)))

    def enter(self, s, i):
        it, w, b = s.it, self.w, self.b
        u = fresh("O").args[0]
        done = i is s.nn
        O = b.shape(i, u, done=done)
        pi = "order%s" % u
        order = lambda q: app(pi, lift(q))
        it.ctx.lemmas = dict(it.ctx.lemmas, **{pi: lambda q: between(0, app(pi, q), w["n"])})
        it.heap[self.ref] = O
        fresh_order(it, w["self"], order, w["n"])
        if done:
            it.heap.pop("GE", None)
            w["final"].append((u, pi))
            return
        p = add(b.base, i)
        # the rank says that a one is left
        pi_, pc = fresh("row"), fresh("col")
        it.ctx.assume(and_(between(p, pi_, w["m"]), between(p, pc, w["n"]), bit_is(O.fn(pi_, b.column(pc)), 1)))
        it.heap["GE"] = {"s": i, "O": O, "order": order, "one": (pi_, pc), "ref": self.ref, "pivot": (p, p, FALSE), "block": b, "p": p}

    def covers(self, s, r, p):
        return covered(self.w, self.me, self.ref, r, p)

    def exit_ok(self, s, p):
        return False


def covered(w, me, ref, r, p):
    if r in (ref, "GE"):
        return True
    if r == w["self"].ref:
        a, b = dict(p.heap[r]), dict(me)
        a.pop("qubit_order", None), b.pop("qubit_order", None)
        return a == b
    return False


def subst_app(e, name, val):
    from pyded.nf import replace
    return replace(e, {x: val for x in subterms(e) if x.op == "app" and x.args[0] == name}, {})


class Search:
    """The nested loops that look for a pivot: one flag, at most one exchange."""

    def __init__(self, w):
        self.w = w

    def offered(self, s):
        it = s.it
        g = it.heap.get("GE")
        if not g:
            return None
        inner = "flag" in g
        flags = [g["flag"]] if inner else [x for x in s.names if s.frame.env.get(x) is True or s.frame.env.get(x) is TRUE]
        if len(flags) != 1 or flags[0] not in s.names:
            return None
        self.flag, self.inner = flags[0], inner
        return self

    def start(self, s):
        it = s.it
        g = it.heap["GE"]
        self.me = dict(it.heap[self.w["self"].ref])
        if not self.inner:
            it.heap["GE"] = dict(g, flag=self.flag, idle=TRUE, x=g["p"], y=g["p"])

    def progress(self, g, i):
        """The known one is still ahead."""
        r, c = g["one"]
        if self.inner:
            return or_(lt(g["col"], c), and_(eq(c, g["col"]), le(add(g["p"], i), r)))
        return le(add(g["p"], i), c)

    def inv(self, g, i, idle, x, y):
        w, b, p = self.w, g["block"], g["p"]
        return and_(implies(idle, self.progress(g, i)),
                    implies(not_(idle), and_(between(p, x, w["n"]), between(p, y, w["m"]), bit_is(g["O"].fn(y, b.column(x)), 1))))

    def check(self, s, i, what):
        it, w = s.it, self.w
        g = it.heap["GE"]
        f = s.frame.env.get(self.flag)
        if not (isinstance(f, bool) or isinstance(f, E) and f.sort == "bool"):
            raise Unsupported("the flag of the search")
        idle = lift(f)
        x, y = g["x"], g["y"]
        if what != "holds initially" and self.inner and idle is not g["idle"]:
            # moved in this iteration
            now = and_(g["idle"], not_(idle))
            x, y = ite(now, g["col"], x), ite(now, add(g["p"], sub(i, ic(1))), y)
        a = it.heap[g["ref"]]
        W = g["block"].swapped(g["O"], g["p"], x, y, idle)
        _, ln, order = order_of(it, w["self"])
        i_, c, q = fresh("i"), fresh("c"), fresh("q")
        name = "the search for a pivot (%s loop) " % ("inner" if self.inner else "outer")
        if not self.inner:
            i0 = i
        oblige(it, name + "invariant " + what, self.inv(g, i, idle, x, y))
        with given(it, between(0, i_, w["m"]), between(0, c, mul(ic(2), w["n"])), between(0, q, w["n"])):
            oblige(it, name + "exchanges rows and qubits once: " + what, eq(lift(a.fn(i_, c)), lift(W.fn(i_, c))))
            oblige(it, name + "exchanges the order alike: " + what, and_(eq(ln, w["n"]), eq(order(q), g["order"](swap(q, g["p"], x, idle)))))

    def enter(self, s, i):
        it, w = s.it, self.w
        g = it.heap["GE"]
        idle, x, y = var(fresh("idle").args[0], "bool"), fresh("x"), fresh("y")
        it.ctx.assume(self.inv(g, i, idle, x, y))
        it.heap[g["ref"]] = g["block"].swapped(g["O"], g["p"], x, y, idle)
        fresh_order(it, w["self"], lambda q: g["order"](swap(lift(q), g["p"], x, idle)), w["n"])
        s.frame.env[self.flag] = idle
        g = dict(g, idle=idle, x=x, y=y)
        if not self.inner:
            g["col"] = add(g["p"], i)
        if i is s.nn and not self.inner:
            g["pivot"] = (x, y, idle)
            g.pop("flag", None)
        it.heap["GE"] = g

    def covers(self, s, r, p):
        return covered(self.w, self.me, s.it.heap["GE"]["ref"], r, p)

    def exit_ok(self, s, p):
        return False


class Eliminate:
    """The loop over the rows: rows before the current one are done."""

    def __init__(self, w):
        self.w = w

    def offered(self, s):
        g = s.it.heap.get("GE")
        if not g or "flag" in g or any(s.frame.env.get(x) is True for x in s.names):
            return None
        self.W = s.it.heap[g["ref"]]
        return self

    def start(self, s):
        self.me = dict(s.it.heap[self.w["self"].ref])

    def matrix(self, g, i):
        b, W = g["block"], self.W
        col = b.column(g["p"])

        def fn(a, c):
            a = lift(a)
            hit = and_(ne(a, g["p"]), bit_is(W.fn(a, col), 1), le(b.base, a), lt(a, add(b.base, i)))
            return ite(hit, mod(add(lift(W.fn(g["p"], c)), lift(W.fn(a, c))), ic(2)), lift(W.fn(a, c)))
        return Arr(W.shape, fn, "int")

    def check(self, s, i, what):
        it, w = s.it, self.w
        g = it.heap["GE"]
        a, c = fresh("i"), fresh("c")
        with given(it, between(0, a, w["m"]), between(0, c, mul(ic(2), w["n"]))):
            oblige(it, "the pivot row is added to the rows so far with a one in the pivot column: " + what,
                   eq(lift(it.heap[g["ref"]].fn(a, c)), lift(self.matrix(g, i).fn(a, c))))

    def enter(self, s, i):
        g = s.it.heap["GE"]
        s.it.heap[g["ref"]] = self.matrix(g, i)

    def covers(self, s, r, p):
        return r == s.it.heap["GE"]["ref"]

    def exit_ok(self, s, p):
        return False


def rank_contract(w, second):
    def h(it, f, args, kwargs):
        a = it.arr(it.bind(f, args, kwargs)["matrix"])
        n, m, r = w["n"], w["m"], w["r"]
        if second:
            want = Arr((w["t"], sub(n, r)), lambda i, c: w["init"].fn(add(r, lift(i)), add(n, r, lift(c))), "int")
        else:
            want = Arr((m, n), w["init"].fn, "int")
        ok = it.same_value(a, want, it.ctx)
        it.obligations.append(("the rank of the %s block is asked for" % ("second" if second else "X"), "discharged" if ok else "unproved", ""))
        return w["t"] if second else w["r"]
    return h


def sizes(it):
    n, m = dim(it, "n"), dim(it, "m")
    r, t = ivar(it, "r", 0), ivar(it, "t", 0)
    it.ctx.assume(and_(eq(m, add(r, t)), le(m, n)))
    w = {"n": n, "m": add(r, t), "r": r, "t": t, "final": []}
    return w


def verify(V):
    for second in (False, True):
        def setup(it, second=second):
            w = sizes(it)
            n, m = w["n"], w["m"]
            b = Block(w, second)
            if second:
                w["init"] = b.shape(ic(0), "F")
                w["order0"] = lambda q: app("order0", lift(q))
                it.ctx.lemmas = dict(it.ctx.lemmas, order0=lambda q: between(0, app("order0", q), n))
            else:
                w["init"] = bits(it, "g", m, mul(ic(2), n))
                w["order0"] = lambda q: lift(q)
            w["rows"] = it.nd(w["init"])
            w["self"] = it.obj(cls(CODES, "StabilizerCode"), numb_stab=m, _n=n, _k=sub(n, m),
                               _stab_bin_rep=it.nd(bits(it, "g", m, mul(ic(2), n))) if second else w["rows"])
            w["given"] = {w["rows"].ref}
            if second:
                fresh_order(it, w["self"], w["order0"], n)
            it.contracts[RANK] = rank_contract(w, second)
            it.loop_specs = [lambda s: Steps(w, b).offered(s), lambda s: Search(w).offered(s), lambda s: Eliminate(w).offered(s)]
            return ([w["rows"], w["r"]] if second else []), {}, w

        def post(P, out, env, second=second):
            if not returns(P, out):
                return
            it, w = P.it, env
            b = Block(w, second)
            v = out[1]
            if not second:
                v, r = it.concrete_items(out[1])
                P.equal("the rank is returned", r, w["r"])
            a = it.arr(v)
            i, c = ivar(it, "i", 0, w["m"]), ivar(it, "c", 0, mul(ic(2), w["n"]))
            P.equal("rows", a.shape[0], w["m"])
            P.equal("columns", a.shape[1], mul(ic(2), w["n"]))
            e = lift(b.shape(b.rank, "?", done=True).fn(i, c))
            x = lift(a.fn(i, c))
            P.holds("block shape of the result", or_(*[eq(x, subst_app(e, "bit:?", t)) for t in (FALSE, TRUE)]))
            P.equal("~the given rows are unchanged" if second else "the given rows are unchanged", it.arr(w["rows"]), w["init"])
            P.equal("the generators are unchanged", it.arr(it.heap[w["self"].ref]["_stab_bin_rep"]), bits(it, "g", w["m"], mul(ic(2), w["n"])))
        V.function(STAB + (".%s_block" % ("_gaussian_elimination_second" if second else "_gaussian_elimination_first")), setup, post)
    V.function(STAB + "._standard_normal_form", *composite(V))
    V.function(RANK, *rank_function(V), label="echelon form")
    V.lemma("generators without X part: the Z parts on the first qubits follow from the others", remaining)
    V.lemma("adding the pivot row to other rows keeps the generated group", additions)
    V.lemma("exchanging two rows keeps the generated group", exchanges)
    V.assume_text("a matrix with k pivots in different columns, zeros below them, and zero rows otherwise has GF(2) rank k; row additions and exchanges "
                  "keep the generated group (lemmas) and the rank; exchanging columns keeps the rank",
                  "while fewer pivots than the rank are done, an entry one is left in the remaining rows of the block, and none when all are done "
                  "(unit columns so far are independent of the rest)",
                  "the generators are independent and commute: with the lemma on the remaining rows, their second block has full rank m - r",
                  "steps compose: the group of the rows after the last step, relabelled, is the group of the given generators")


class Rank:
    """The loop of the rank over the columns: the first rho rows have pivots in different columns with zeros below, the
    other rows are zero in the columns so far."""

    def __init__(self, w):
        self.w = w

    def offered(self, s):
        it, w = s.it, self.w
        if "RK" in it.heap or not it.ctx.valid(eq(s.nn, w["c"])):
            return None
        want = w["init"]
        refs = {v.ref for x, v in s.frame.env.items() if isinstance(v, Nd) and v.imap is None and it.arr(v).ndim == 2
                and it.same_value(it.arr(v), want, it.ctx)}
        zero = [x for x in s.names if is_scalar(s.frame.env.get(x)) and not isinstance(s.frame.env[x], bool) and lift(s.frame.env[x]) is ic(0)]
        if len(refs) != 1 or len(zero) != 1:
            return None
        (self.ref,), (self.rank,) = refs, zero
        return self

    def start(self, s):
        s.it.heap["RK"] = None

    # ---- the invariant, instance by instance
    def zero(self, E, j, rho, i, c):
        return implies(and_(le(rho, i), lt(i, self.w["m"]), le(ic(0), c), lt(c, j)), eq(E(i, c), ic(0)))

    def pivot(self, E, piv, j, rho, t):
        return implies(and_(le(ic(0), t), lt(t, rho)), and_(between(0, piv(t), j), eq(E(t, piv(t)), ic(1))))

    def below(self, E, piv, rho, t, i):
        return implies(and_(le(ic(0), t), lt(t, rho), lt(t, i), lt(i, self.w["m"])), eq(E(i, piv(t)), ic(0)))

    def check(self, s, j, what, left=False):
        it, w = s.it, self.w
        g = it.heap.get("RK")
        a = it.heap[self.ref]
        E = lambda i, c: lift(a.fn(lift(i), lift(c)))
        rho = lift(s.frame.env[self.rank])
        i, c, t = fresh("i"), fresh("c"), fresh("t")
        facts, piv, old = [between(0, i, w["m"]), between(0, c, w["c"]), between(0, t, rho)], (lambda t: ic(0)), None
        name = "the echelon form %s: " % what
        if g:
            O, r, col, p = g["O"], g["rho"], g["j"], g["piv"]
            moved = rho is not r
            piv = (lambda t: ite(eq(t, r), col, p(t))) if moved else p
            b = g.get("swap", r)
            for x in (i, r, b):
                facts += [self.below(O, p, r, t, x), self.zero(O, col, r, x, c)]
            # the exchange moves row b to r: the rows up to r are the old ones
            facts += [self.pivot(O, p, col, r, t), self.zero(O, col, r, i, p(t))]
        with given(it, *facts):
            oblige(it, name + "number of pivots", and_(le(ic(0), rho), le(rho, w["m"])) if left else and_(le(ic(0), rho), or_(lt(rho, w["m"]), eq(w["m"], ic(0)))))
            oblige(it, name + "bits", or_(bit_is(E(i, c), 0), bit_is(E(i, c), 1)))
            oblige(it, name + "pivots are in the columns so far", self.pivot(E, piv, j, rho, t))
            oblige(it, name + "zeros below the pivots", self.below(E, piv, rho, t, i))
            if left:
                oblige(it, name + "every row has a pivot", or_(eq(rho, w["m"]), eq(j, w["c"])))
            oblige(it, name + "the other rows are zero so far", self.zero(E, j, rho, i, c))
            if not g:
                oblige(it, name + "the elimination starts from the matrix modulo 2", eq(E(i, c), lift(w["init"].fn(i, c))))
            elif "swap" in g:
                W = lambda i: O(swap(i, r, b, FALSE), c)
                hit = and_(lt(r, i), bit_is(O(swap(i, r, b, FALSE), col), 1))
                oblige(it, name + "two rows exchanged, the pivot row added to rows below it", eq(E(i, c), ite(hit, mod(add(W(i), W(r)), ic(2)), W(i))))
            else:
                oblige(it, name + "the rows stay", eq(E(i, c), O(i, c)))

    def enter(self, s, j):
        it, w = s.it, self.w
        u = fresh("O").args[0]
        O = lambda i, c: ite(app("bit:" + u, lift(i), lift(c), sort="bool"), ic(1), ic(0))
        rho, piv = fresh("rho"), lambda t: app("piv" + u, lift(t))
        done = j is s.nn
        it.ctx.assume(and_(le(ic(0), rho), or_(lt(rho, w["m"]), and_(eq(w["m"], ic(0)), eq(rho, ic(0))))))
        # rows from rho on are zero in the columns so far
        A = lambda i, c: ite(and_(le(rho, lift(i)), lt(lift(c), j)), ic(0), O(i, c))
        it.heap[self.ref] = Arr((w["m"], w["c"]), A, "int")
        s.frame.env[self.rank] = rho
        it.heap["RK"] = {"O": A, "rho": rho, "piv": piv, "j": j, "ref": self.ref}
        if done:
            w["result"].append(rho)
            it.heap.pop("RK")

    def covers(self, s, r, p):
        return r in (self.ref, "RK")

    def exit_ok(self, s, p):
        return p.out[0] == "break"

    def left(self, s, j):
        self.check(s, add(j, ic(1)), "when the loop is left", left=True)
        self.w["result"].append(lift(s.frame.env[self.rank]))
        s.it.heap.pop("RK")


class Below:
    """The loop of the rank over the rows below the pivot."""

    def __init__(self, w):
        self.w = w

    def offered(self, s):
        g = s.it.heap.get("RK")
        if not g:
            return None
        self.W = s.it.heap[g["ref"]]
        return self

    def start(self, s):
        it, w = s.it, self.w
        g = it.heap["RK"]
        k = fresh("k")
        b = add(g["rho"], first(k, sub(w["m"], g["rho"]), ne(g["O"](add(g["rho"], k), g["j"]), ic(0))))
        it.heap["RK"] = self.ghost = dict(g, swap=b)
        i, c = fresh("i"), fresh("c")
        with given(it, between(0, i, w["m"]), between(0, c, w["c"])):
            oblige(it, "a row with a one becomes the pivot row", eq(lift(self.W.fn(i, c)), g["O"](swap(i, g["rho"], b, FALSE), c)))

    def matrix(self, g, i):
        W, p, col = self.W, g["rho"], g["j"]

        def fn(a, c):
            a = lift(a)
            hit = and_(lt(p, a), lt(a, add(p, ic(1), i)), bit_is(W.fn(a, col), 1))
            return ite(hit, mod(add(lift(W.fn(p, c)), lift(W.fn(a, c))), ic(2)), lift(W.fn(a, c)))
        return Arr(W.shape, fn, "int")

    def check(self, s, i, what):
        it, w = s.it, self.w
        g = it.heap["RK"]
        a, c = fresh("i"), fresh("c")
        with given(it, between(0, a, w["m"]), between(0, c, w["c"])):
            oblige(it, "the pivot row is added to the rows below so far with a one in the column: " + what,
                   eq(lift(it.heap[g["ref"]].fn(a, c)), lift(self.matrix(g, i).fn(a, c))))

    def enter(self, s, i):
        g = s.it.heap["RK"] = self.ghost
        s.it.heap[g["ref"]] = self.matrix(g, i)

    def covers(self, s, r, p):
        return r in (s.it.heap["RK"]["ref"], "RK")

    def exit_ok(self, s, p):
        return False


def remaining(P):
    """Row l of the second block (0 | D E) commutes with row a of the first [I A | ...], so D(l, a) = sum_c E(l, c) A(a, c):
    a combination y of these rows that vanishes on E vanishes on D."""
    it = P.it
    t, n = dim(it, "t"), dim(it, "n")
    A, E, y = [lambda *i, name=name: ite(app("bit:" + name, *[lift(x) for x in i], sort="bool"), ic(1), ic(0)) for name in ("A", "E", "y")]
    a = ivar(it, "a", 0)
    l, c, l2, c2 = idx(4)
    P.congruent("combinations", S((l, t), mul(y(l), S((c, n), mul(E(l, c), A(a, c))))), S((c2, n), mul(A(a, c2), S((l2, t), mul(y(l2), E(l2, c2))))), 2)


def composite(V):
    def setup(it):
        w = sizes(it)
        n, m = w["n"], w["m"]
        w["init"] = bits(it, "g", m, mul(ic(2), n))
        w["rows"] = it.nd(w["init"])
        w["self"] = it.obj(cls(CODES, "StabilizerCode"), numb_stab=m, _n=n, _k=sub(n, m), _stab_bin_rep=w["rows"])
        shape = lambda name, second: Block(w, second).shape(w["t"] if second else w["r"], name, done=True)
        a, b = shape("first", False), shape("second", True)
        same = eq(w["t"], ic(0))            # nothing is left to do for the second block
        w["nf"] = Arr(a.shape, lambda i, c: ite(same, a.fn(i, c), b.fn(i, c)), "int")
        order2 = w["order2"] = lambda q: ite(same, app("order1", lift(q)), app("order2", lift(q)))

        def first_block(it, f, args, kwargs):
            it.bind(f, args, kwargs)
            out = it.nd(shape("first", False))
            w["first"] = out
            fresh_order(it, w["self"], lambda q: app("order1", lift(q)), n)
            return (out, w["r"])

        def second_block(it, f, args, kwargs):
            b = it.bind(f, args, kwargs)
            vals = [v for k, v in b.items() if k != "self"]
            ok = len(vals) == 2 and "first" in w and it.same_value(it.arr(vals[0]), shape("first", False), it.ctx) and it.ctx.valid(eq(lift(vals[1]), w["r"]))
            it.obligations.append(("the second block continues with the result and the rank of the first", "discharged" if ok else "unproved", ""))
            s, ln, order = order_of(it, w["self"])
            q = fresh("q")
            ok = it.ctx.valid(and_(eq(ln, n), eq(order(q), app("order1", q))))
            it.obligations.append(("the second block continues with the order of the first", "discharged" if ok else "unproved", ""))
            fresh_order(it, w["self"], order2, n)
            return it.nd(w["nf"])
        it.contracts[STAB + "._gaussian_elimination_first_block"] = first_block
        it.contracts[STAB + "._gaussian_elimination_second_block"] = second_block
        return [], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        it, w = P.it, env
        v, r = it.concrete_items(out[1])
        P.equal("the rank is returned", r, w["r"])
        P.equal("the normal form is returned", it.arr(v), w["nf"])
        _, ln, order = order_of(it, w["self"])
        q = ivar(it, "q", 0, w["n"])
        P.holds("the order belongs to the normal form", and_(eq(ln, w["n"]), eq(order(q), w["order2"](q))))
        P.equal("the generators are unchanged", it.arr(it.heap[w["self"].ref]["_stab_bin_rep"]), w["init"])
    return setup, post


def rank_function(V):
    def setup(it):
        w = {"m": ivar(it, "m", 0), "c": dim(it, "c"), "result": []}
        a = lambda i, c: app("a", lift(i), lift(c))
        w["matrix"] = it.nd(Arr((w["m"], w["c"]), a, "int"))
        w["init"] = Arr((w["m"], w["c"]), lambda i, c: mod(a(i, c), ic(2)), "int")
        it.loop_specs = [lambda s: Rank(w).offered(s), lambda s: Below(w).offered(s)]
        return [w["matrix"]], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        P.holds("the number of pivots of the echelon form is returned", or_(*[eq(lift(out[1]), r) for r in env["result"]]))
        P.equal("the matrix is unchanged", P.it.arr(env["matrix"]), Arr((env["m"], env["c"]), lambda i, c: app("a", lift(i), lift(c)), "int"))
    return setup, post


def combination(it, m, x, a):
    """The column of the combination x of the rows a."""
    i, = idx(1)
    return S((i, m), mul(x(i), a(i)))


def coefficients(i):
    return ite(app("bit:x", lift(i), sort="bool"), ic(1), ic(0))


def one_column(it):
    """m rows, one (arbitrary) column of them; pivot row p and the rows it is added to."""
    m, p = dim(it, "m"), ivar(it, "p", 0, var("m"))
    W = lambda i: ite(app("bit:W", lift(i), sort="bool"), ic(1), ic(0))
    return m, p, W


def additions(P):
    """Every combination x of the rows is the combination x + [p] sum_l hit(l) x(l) of the new rows; and the step undoes
    itself, so the same holds the other way round."""
    it = P.it
    m, p, W = one_column(it)
    hit = lambda i: ite(and_(ne(i, p), app("bit:hit", lift(i), sort="bool")), ic(1), ic(0))
    new = lambda V: lambda i: add(V(i), mul(hit(i), V(p)))
    l, i = fresh("l"), ivar(it, "i", 0, m)
    y = lambda i: add(coefficients(i), mul(ite(eq(i, p), ic(1), ic(0)), S((l, m), mul(hit(l), coefficients(l)))))
    P.congruent("combinations", combination(it, m, y, new(W)), combination(it, m, coefficients, W), 2)
    P.congruent("the step undoes itself", new(new(W))(i), W(i), 2)


def exchanges(P):
    it = P.it
    m, p, W = one_column(it)
    b = ivar(it, "b", 0, m)
    sw = lambda i: swap(lift(i), p, b, FALSE)
    i, = idx(1)
    f = lambda i: mul(coefficients(i), W(i))
    moved = S((i, m), ite(eq(i, p), f(b), ite(eq(i, b), f(p), f(i))))
    P.congruent("combinations", moved, combination(it, m, coefficients, W), 2)
    i = ivar(it, "i", 0, m)
    P.equal("the terms are those of the exchanged rows", ite(eq(i, p), f(b), ite(eq(i, b), f(p), f(i))), f(sw(i)))
    P.equal("the exchange undoes itself", sw(sw(i)), i)
