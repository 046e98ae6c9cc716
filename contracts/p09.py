"""Recovery operators."""
from .lib import *

STAB = CODES + ":StabilizerCode"
SMALL, LARGE = Fraction(1, 10 ** 9), Fraction(1, 10 ** 3)


def verify(V):
    for sparse, kind in ((False, "list"), (False, "array"), (True, "list"), (True, "csr"), (True, "array"), (True, "COO")):
        def setup(it, sparse=sparse, kind=kind):
            w = {"r": dim(it, "r"), "D": dim(it, "D"), "m": dim(it, "m")}
            D_, m, r = w["D"], w["m"], w["r"]

            def paulis(it, f, args, kwargs):
                b = it.bind(f, args, kwargs)
                if not it.same_value(it.arr(b["binary_rep"]), it.arr(w["rows"]), it.ctx) or bool(b["sparse"]) != sparse:
                    it.obligations.append(("the matrices of the given generators", "refuted", ""))
                sp = "csr" if b["sparse"] else False
                return Lst(it.new(Seq("list", (Sub(r, lambda j: it.nd(Arr((D_, D_), lambda a, b: app("G", lift(j), lift(a), lift(b), sort="cx"), "cx"), sparse=sp)),))))
            it.contracts[STAB + ".binary_rep_to_pauli_mat"] = paulis
            n, k = dim(it, "n"), ivar(it, "k", 0)
            it.ctx.assume(eq(r, sub(n, k)))
            w["rows"] = it.nd(bits(it, "stab", r, mul(ic(2), n)))
            w["self"] = code(it, r, n, k, stab=w["rows"])
            E_ = lambda k, a, b: app("E", lift(k), lift(a), lift(b), sort="cx")
            if kind in ("list", "csr"):
                errs = Lst(it.new(Seq("list", (Sub(m, lambda k: it.nd(Arr((D_, D_), lambda a, b: E_(k, a, b), "cx"), sparse="csr" if kind == "csr" else False)),))))
            else:
                errs = it.nd(Arr((m, D_, D_), E_, "cx"), sparse="COO" if kind == "COO" else False)
            return [errs], {"sparse": sparse}, w

        def anti(env, k, j, eps):
            """Every entry of the anticommutator of error k and generator j is below eps."""
            D_ = env["D"]
            a, b, c, d = idx(4)
            G = lambda x, y: app("G", lift(j), x, y, sort="cx")
            E_ = lambda x, y: app("E", lift(k), x, y, sort="cx")
            e = add(S((c, D_), mul(E_(a, c), G(c, b))), S((d, D_), mul(G(a, d), E_(d, b))))
            return not_(exists(a, D_, exists(b, D_, le(cc(eps), models.absval(e)))))

        def post(P, out, env):
            if not returns(P, out):
                return
            it = P.it
            s = it.iter_seq(out[1])
            P.equal("one operator per error", lift(it.seq_len(s)), env["m"])
            k, D_ = ivar(it, "k", 0, env["m"]), env["D"]
            a, b = ivar(it, "a", 0, D_), ivar(it, "b", 0, D_)
            e = it.seq_get(s, k)
            x = it.arr(e)
            if x.ndim != 2:
                return P.fail("operators are matrices", "")
            for q in x.shape:
                P.equal("size of the operators", q, D_)
            v = lift(x.fn(a, b))
            j, = idx(1)
            free = it.ctx.clone()
            free.assume(not_(exists(j, env["r"], anti(env, k, j, LARGE))))
            P.equal("an error without an anticommuting generator stays", free.simp(v), app("E", k, a, b, sort="cx"), ctx=free)
            some = it.ctx.clone()
            some.assume(exists(j, env["r"], anti(env, k, j, SMALL)))
            w = some.simp(v)
            # "the first index for which X": X holds for some index, so it holds for that one; give it a name
            for n in range(8):
                fs = sorted({y for y in subterms(w) if y.op == "first" and not any(z.startswith("$") for z in y.fv)}, key=lambda y: (y.depth, y.key))
                if not fs:
                    break
                u, hi, body = open_binder(fs[0])
                P.holds("a generator is found", exists(u, hi, body), ctx=some)
                g = var("found%d" % n)
                some.assume(and_(le(ic(0), g), lt(g, hi), subst(body, {u.args[0]: g})))
                w = some.simp(nf.replace(w, {fs[0]: g}, {}))
            picks = sorted({y.args[1] for y in subterms(w) if y.op == "app" and y.args[0] == "G"}, key=lambda y: y.key)
            picks = [y for y in picks if not any(n.startswith("$") for n in y.fv)]
            if len(picks) != 1:
                P.holds("an error with an anticommuting generator is preceded by one", FALSE, ctx=some)
                return
            f = picks[0]
            P.holds("the generator is one of the code", and_(le(ic(0), f), lt(f, env["r"])), ctx=some)
            P.holds("the generator anticommutes with the error", anti(env, k, f, LARGE), ctx=some)
            c, = idx(1)
            P.equal("the error is preceded by the generator", w, S((c, D_), mul(app("G", f, a, c, sort="cx"), app("E", k, c, b, sort="cx"))), ctx=some)
        V.function(STAB + ".kraus_operators_correcting_errors", setup, post, label="%s, errors as %s" % ("sparse" if sparse else "dense", kind))
    V.assume_text("two matrices count as anticommuting when every entry of the anticommutator is below 1e-9, and as not anticommuting when one is at least 1e-3",
                  "the contract of binary_rep_to_pauli_mat (P02) is used in place of its body",
                  "exact arithmetic")
