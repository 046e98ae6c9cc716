"""Optimizers.  The solvers of scipy are arbitrary: from start k they return any point x_k, the value of the objective there
and any success flag."""
import ast

from pyded.interp import ContinueSig

from .lib import *

OPTM = "PyQCodes/chan/_coherent.py"
LIP = "PyQCodes/_optimize.py"
BASE = ("eps", "ftol", "maxiter", "disp")


def fun(k):
    return app("real:fun", lift(k), sort="cx")


def point(k, nv):
    return Arr((nv,), lambda j: app("real:xend", lift(k), lift(j), sort="cx"), "cx")


def okflag(k):
    return app("ok", lift(k), sort="bool")


def start(it, s, name="real:start"):
    """The number of the start handed to the solver: start k is the vector start(k, .)."""
    if isinstance(s, (Nd, Arr)):
        a = it.arr(s)
        if a.ndim == 1:
            z = fresh("z")
            e = lift(a.fn(z))
            if e.op == "app" and e.args[0] == name and e.args[2] is z and z.args[0] not in e.args[1].fv:
                return e.args[1]
    raise Unsupported("a start that is not one of the samples")


def samples(it, n, nv, name="real:start"):
    return Lst(it.new(Seq("list", (Sub(n, lambda k: it.nd(Arr((nv,), lambda j: app(name, lift(k), lift(j), sort="cx"), "cx"))),))))


def result(it, k, nv):
    return it.new_dict({"fun": fun(k), "x": it.nd(point(k, nv)), "success": okflag(k)}, res=True)


def solver_args(names=("bounds", "args", "fobjective")):
    return {x: Opaque(x) for x in names}


def local(it, w):
    """Contract of the local solve: start k ends in result k; it gets the bounds, arguments and objective of the caller."""
    def h(it, f, args, kwargs):
        b = it.bind(f, args, kwargs)
        for x in ("bounds", "args", "fobjective"):
            if b[x] is not w[x]:
                it.obligations.append(("the solver gets the %s" % x, "refuted", "another value"))
        return result(it, start(it, b["x0"]), w["nv"])
    return h


def pool(it):
    it.heap["CALLS"] = ()

    def make(it, name, args, kwargs):
        def mapped(it, args, kwargs):
            if len(args) != 2 or kwargs:
                raise Unsupported("map of a pool over several sequences")
            f, src = args
            from pyded.interp import Frame
            from pyded.loops import Summary
            fr = Frame(Module.get(OPTM), None, {}, None)
            out = it.lst()
            fr.env["#out"] = out
            s = it.iter_seq(src)
            n = it.seq_len(s)

            def body(i):
                r = it.call(f, [it.wrap_item(s, it.seq_get(s, i))], {})
                it.heap[out.ref] = it.heap[out.ref].append([r])
            if isinstance(n, int):
                for i in range(n):
                    body(i)
            else:
                Summary(it, fr, n, body, set(), ast.parse("for x in y:\n pass").body[0]).run()
            return out
        return Opaque("pool", attrs={"map": Opaque("map", attrs={"call": mapped}), "close": Opaque("close", attrs={"call": lambda it, a, k: None}),
                                     "join": Opaque("join", attrs={"call": lambda it, a, k: None}),
                                     "clear": Opaque("clear", attrs={"call": lambda it, a, k: None})})
    it.externals["pathos.multiprocessing.ProcessingPool"] = make


def best(P, env, out):
    """(value, success, x) are those of a start that no start beats."""
    it = P.it
    r = it.concrete_items(out[1])
    if len(r) != 3 or not isinstance(r[0], E):
        return P.fail("value, success and point are reported", "%r" % (r,))
    val, ok, x = r
    n = env["n"]
    k = ivar(it, "k", 0, n)
    P.holds("no start beats the reported value", not_(lt(fun(k), val)))
    try:
        a = it.arr(x)
        z = fresh("z")
        e = lift(a.fn(z))
        ws = {y.args[1] for t in (e, lift(val), lift(ok)) for y in subterms(t) if y.op == "app" and y.args[0] in ("real:fun", "real:xend", "ok")}
    except Exception:
        return P.fail("the reported point is an end point", "%r" % (x,))
    for w in sorted(ws, key=lambda x: x.key):
        if it.ctx.valid(and_(le(ic(0), w), lt(w, n))) and it.ctx.valid(eq(lift(val), fun(w))) and \
                it.ctx.valid(iff(lift(ok), okflag(w))) and it.same_value(x, point(w, env["nv"]), it.ctx):
            P.holds("value, success flag and point are those of one start", TRUE)
            return
    w = sorted(ws, key=lambda x: x.key)[0] if ws else ic(0)
    P.holds("value, success flag and point are those of one start", and_(eq(lift(val), fun(w)), iff(lift(ok), okflag(w)),
                                                                         eq(lift(e), app("real:xend", w, z, sort="cx"))))


def level_a(V):
    def setup(it):
        w = {x: Opaque(x) for x in ("x0", "bounds", "args", "fobjective", "maxiter", "eps", "ftol", "disp")}
        w["r"] = Opaque("result")
        it.heap["CALLS"] = ()

        def minimize(it, name, args, kwargs):
            b = dict(zip(("fun", "x0", "args", "method"), args))
            b.update(kwargs)
            log(it, "minimize", b)
            return w["r"]
        it.externals["scipy.optimize.minimize"] = minimize
        return [w[x] for x in ("x0", "bounds", "args", "maxiter", "eps", "ftol", "fobjective", "disp")], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        c = calls(P.it, "minimize")
        if len(c) != 1:
            return P.fail("one local solve", "%d" % len(c))
        b = c[0][1]
        P.holds("the solver's result is reported", lift(out[1] is env["r"]))
        for x, y in (("fun", "fobjective"), ("x0", "x0"), ("args", "args"), ("bounds", "bounds")):
            P.holds("the solver gets the %s" % y, lift(b.get(x) is env[y]))
    V.function(OPTM + ":_optimize_using_slsqp", setup, post)


def level_b(V):
    for name in ("_optimize_samples_slsqp", "_use_multi_processes"):
        def setup(it, name=name):
            w = solver_args()
            w["n"], w["nv"] = dim(it, "n"), dim(it, "nv")
            pool(it)
            s = samples(it, w["n"], w["nv"])
            it.contracts[OPTM + ":_optimize_using_slsqp"] = local(it, w)
            kw = dict(w, samples=s, maxiter=Opaque("maxiter"), eps=Opaque("eps"), ftol=Opaque("ftol"), disp=Opaque("disp"))
            if name == "_use_multi_processes":
                kw["pool_number"] = dim(it, "procs")
            kw.pop("n"), kw.pop("nv")
            return [], kw, w

        def post(P, out, env):
            if returns(P, out):
                best(P, env, out)
        V.function("%s:%s" % (OPTM, name), setup, post)

    def setup(it):
        w = solver_args(("bounds", "args", "fobjective", "init"))
        it.heap["CALLS"] = ()
        w["ok"], w["x"], w["val"] = var("okd", "bool"), Opaque("x"), app("real:val", sort="cx")

        def evolve(it, name, args, kwargs):
            b = dict(zip(("func", "bounds", "args"), args))
            b.update(kwargs)
            log(it, "evolve", b)
            return it.new_dict({"fun": w["val"], "x": w["x"], "success": w["ok"]}, res=True)
        it.externals["scipy.optimize.differential_evolution"] = evolve
        return [w["init"], w["bounds"], w["args"], Opaque("popsize"), Opaque("maxiter"), w["fobjective"], Opaque("disp")], {}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        it = P.it
        c = calls(it, "evolve")
        if len(c) != 1:
            return P.fail("one search", "%d" % len(c))
        b = c[0][1]
        for x, y in (("func", "fobjective"), ("init", "init"), ("args", "args"), ("bounds", "bounds")):
            P.holds("the search gets the %s" % y, lift(b.get(x) is env[y]))
        val, ok, x = it.concrete_items(out[1])
        P.equal("value of the search", val, env["val"])
        P.holds("success flag of the search", iff(lift(ok), env["ok"]))
        P.holds("point of the search", lift(x is env["x"]))
    V.function(OPTM + ":_optimize_differential_evol", setup, post)


MINE = """
class Mine(ParameterizationABC):
    @staticmethod
    def rho_from_vec(vec, nsize, rank=None):
        raise NotImplementedError
    @staticmethod
    def bounds(nsize, rank):
        raise NotImplementedError
"""


def mine():
    """A user's own parameterization."""
    return Cls(Module.get(PARAM), ast.parse(MINE).body[0])


def scheme(it, memo, names=("OverParam", "CholeskyParam", "Mine")):
    """Contracts of the parameterizations (P21): a density matrix for every vector, bounds for every size and rank."""
    for c in names:
        def rho(it, f, args, kwargs, c=c):
            b = it.bind(f, args, kwargs)
            key = ("rho", c, b["vec"].ref if isinstance(b["vec"], Nd) else id(b["vec"]), lift(b["nsize"]), lift(b.get("rank")))
            if key not in memo:
                memo[key] = Opaque("rho%d" % len(memo), attrs={"#key": key, "#vec": b["vec"]})
            return memo[key]

        def bounds(it, f, args, kwargs, c=c):
            b = it.bind(f, args, kwargs)
            key = ("bounds", c, lift(b["nsize"]), lift(b["rank"]))
            if key not in memo:
                memo[key] = Opaque("bounds%d" % len(memo), attrs={"#key": key})
            return memo[key]
        it.contracts["%s:%s.rho_from_vec" % (PARAM, c)] = rho
        it.contracts["%s:%s.bounds" % (PARAM, c)] = bounds


def channel(it, memo, nin):
    def value(what):
        def call(it, args, kwargs):
            b = dict(zip(("rho", "n"), args))
            b.update(kwargs)
            key = (what, id(b["rho"]), lift(b["n"]))
            if key not in memo:
                memo[key] = app("real:%s%d" % (what, len(memo)), sort="cx")
            log(it, what, b["rho"], b["n"])
            return memo[key]
        return Opaque(what, attrs={"call": call})
    return Opaque("channel", attrs={"input_dimension": nin, "coherent_information": value("coherent"),
                                    "fidelity_two_states": value("fidelity")})


def objective_value(it, w, objective, rho):
    return it.call(w["chan"].attrs["coherent_information" if objective == "coherent" else "fidelity_two_states"], [rho, w["n"]], {})


def level_d(V):
    Q = OPTM + ":optimize_procedure"

    def world(it, objective, param):
        w = {"memo": {}, "nin": dim(it, "nin"), "n": dim(it, "n"), "nv": dim(it, "nv"),
             "rank": dim(it, "rank") if objective == "coherent" else 1}
        it.heap["CALLS"] = ()
        scheme(it, w["memo"])
        w["chan"] = channel(it, w["memo"], w["nin"])
        w["pcls"] = {"overparam": "OverParam", "cholesky": "CholeskyParam"}.get(param, "Mine")
        w["param"] = param if param in ("overparam", "cholesky") else it.obj(mine()) if param == "instance" else mine()

        def solver(kind):
            def h(it, f, args, kwargs):
                b = it.bind(f, args, kwargs)
                log(it, kind, b)
                w["x"] = it.nd(Arr((w["nv"],), lambda j: app("real:xbest", lift(j), sort="cx"), "cx"))
                w["ok"] = var("okbest", "bool")
                # the value of a solver is the objective at its point (levels A and B)
                w["val"] = it.call(b["fobjective"], [w["x"]] + list(it.concrete_items(b["args"])), {})
                return (w["val"], w["ok"], w["x"])
            return h
        for k in ("_use_multi_processes", "_optimize_samples_slsqp", "_optimize_differential_evol"):
            it.contracts["%s:%s" % (OPTM, k)] = solver(k)

        def lipschitz(it, f, args, kwargs):
            b = it.bind(f, args, kwargs)
            log(it, "lipschitz", b)
            m = ivar(it, "found", 1)
            w["found"], w["lipval"] = m, it.call(b["f"], [it.nd(Arr((w["nv"],), lambda j: app("real:probe", lift(j), sort="cx"), "cx"))]
                                                 + [b[x] for x in ("nsize", "rank", "param", "chan", "n")], {})
            return (samples(it, m, w["nv"], "real:lip"), Opaque("evals"), eq(m, lift(b["numb_samples"])))
        it.contracts[LIP + ":initial_guesses_lipschitz"] = lipschitz
        return w

    def setup(it, optimizer, param, objective, lip, ns, use_pool):
        w = world(it, objective, param)
        w["s"] = dim(it, "s") if ns else 0
        w["lip"] = dim(it, "lip") if lip else 0
        kw = dict(optimizer=optimizer, param=w["param"], objective=objective, lipschitz=w["lip"],
                  use_pool=dim(it, "procs") if use_pool else 0, maxiter=Opaque("maxiter"))
        if ns:
            kw["samples"] = samples(it, w["s"], w["nv"])
        w.update(kw=kw)
        return [w["chan"], w["n"], w["rank"]], kw, w

    def post(P, out, env, optimizer, objective, lip, ns, use_pool):
        it = P.it
        lc = calls(it, "lipschitz")
        P.holds("sampler used exactly when asked", lift(len(lc) == (1 if lip else 0)))
        if lip and len(lc) == 1:
            b = lc[0][1]
            P.equal("number of sampled starts asked", b["numb_samples"], env["lip"])
            P.holds("the sampler works on this problem", lift(b["chan"] is env["chan"] and getattr(b["param"], "name", "Mine") == env["pcls"]
                                                              and same(it, b["n"], env["n"]) and same(it, b["rank"], env["rank"])
                                                              and same(it, b["nsize"], env["nin"])))
        if out[0] == "raise" and lip and out[1].name == "AssertionError":
            P.holds("rejected only if the sampler found too few starts", ne(env["found"], env["lip"]))
            return
        if not returns(P, out):
            return
        if lip:
            P.holds("accepted only if the sampler found enough starts", eq(env["found"], env["lip"]))
        kind = "_optimize_differential_evol" if optimizer == "diffev" else "_use_multi_processes" if use_pool else "_optimize_samples_slsqp"
        c = [x for x in calls(it) if x[0].startswith(("_opt", "_use"))]
        if len(c) != 1 or c[0][0] != kind:
            return P.fail("the optimizer asked for", "%r" % ([x[0] for x in c],))
        b = c[0][1]
        s, l = env["s"], (env["lip"] if lip else 0)
        tot = add(lift(s), lift(l))
        if ns or lip:
            a = it.arr(b["samples"])
            want = Arr((tot, env["nv"]), lambda k, j: ite(lt(lift(k), lift(s)), app("real:start", lift(k), lift(j), sort="cx"),
                                                          app("real:lip", sub(lift(k), lift(s)), lift(j), sort="cx")), "cx")
            P.equal("starts: those of the user, then the sampled ones", a, want)
        elif optimizer == "diffev":
            P.holds("no starts: a latin hypercube", lift(b["samples"] == "latinhypercube"))
        bo = b["bounds"]
        P.holds("bounds of the parameterization", lift(isinstance(bo, Opaque) and bo.attrs.get("#key") ==
                                                       ("bounds", env["pcls"], lift(env["nin"]), lift(env["rank"]))))
        d = it.heap[out[1].ref]
        rho = d["optimal_rho"]
        key = rho.attrs.get("#key", ()) if isinstance(rho, Opaque) else ()
        P.holds("the reported state is that of the best point", lift(key == ("rho", env["pcls"], env["x"].ref, lift(env["nin"]), lift(env["rank"]))))
        P.equal("the reported value is that of the reported state", d["optimal_val"], objective_value(it, env, objective, rho))
        P.holds("the objective is minimized with the right sign", eq(env["val"], neg(lift(d["optimal_val"])) if objective == "coherent" else lift(d["optimal_val"])))
        P.holds("success flag of the best candidate", iff(lift(d["success"]), env["ok"]))
        P.holds("label of the objective", lift(d["objective"] == objective))
        P.holds("label of the method", lift(d["method"] == optimizer))
        P.holds("label of the sampler", iff(lift(d["lipschitz"]), lift(bool(lip))))

    combos = []
    for optimizer in ("diffev", "slsqp"):
        for objective in ("coherent", "fidelity"):
            for lip in (False, True):
                for ns in (False, True):
                    for use_pool in ((False, True) if optimizer == "slsqp" else (False,)):
                        if optimizer == "slsqp" and not (lip or ns):
                            continue
                        combos.append((optimizer, "overparam", objective, lip, ns, use_pool))
    for param in ("cholesky", "class", "instance"):
        for objective in ("coherent", "fidelity"):
            combos.append(("slsqp", param, objective, True, True, False))
            combos.append(("diffev", param, objective, False, True, False))
    for c in combos:
        o, p, ob, l, ns, up = c
        V.function(Q, lambda it, c=c: setup(it, *c), lambda P, out, env, c=c: post(P, out, env, c[0], c[2], c[3], c[4], c[5]),
                   label=", ".join([o, p, ob] + ["lipschitz"] * l + ["samples"] * ns + ["pool"] * up))

    # rejected options
    bad = [("optimizer", "w", "TypeError"), ("objective", "w", "TypeError"), ("param", "w", "TypeError"), ("param", 3, "TypeError"),
           ("param", Builtin("int"), "TypeError"), ("use_pool", "neg", "AssertionError"), ("lipschitz", "neg", "AssertionError"),
           ("samples", "none", "AssertionError")]
    for key, v, exc in bad:
        def setup(it, key=key, v=v):
            w = world(it, "coherent", "overparam")
            kw = dict(optimizer="slsqp", param="overparam", objective="coherent", samples=samples(it, dim(it, "s"), w["nv"]))
            if v == "neg":
                x = var("bad")
                it.ctx.assume(lt(x, ic(0)))
                kw[key] = x
            elif v == "none":
                kw.pop("samples")
            else:
                kw[key] = v
            return [w["chan"], w["n"], w["rank"]], kw, w
        V.function(Q, setup, lambda P, out, env, exc=exc: raises(P, out, exc, "is rejected"), label="bad %s %s" % (key, v))


def level_e(V):
    """The objectives."""
    for name, what in (("_objective_func_coherent", "coherent"), ("_objective_func_fidelity", "fidelity")):
        def setup(it, what=what):
            w = {"memo": {}, "nin": dim(it, "nin"), "n": dim(it, "n"), "rank": dim(it, "rank") if what == "coherent" else 1}
            it.heap["CALLS"] = ()
            scheme(it, w["memo"])
            w["chan"] = channel(it, w["memo"], w["nin"])
            w["x"] = it.nd(Arr((dim(it, "nv"),), lambda j: app("real:x", lift(j), sort="cx"), "cx"))
            w["p"] = cls(PARAM, "OverParam")
            return [w["x"], w["nin"], w["rank"], w["p"], w["chan"], w["n"]], {}, w

        def post(P, out, env, what=what):
            if not returns(P, out):
                return
            it = P.it
            rho = it.call(it.find(PARAM + ":OverParam.rho_from_vec"), [env["x"], env["nin"]], {"rank": env["rank"]})
            v = objective_value(it, env, what, rho)
            P.equal("the value at the state of the vector, to be minimized", out[1], neg(v) if what == "coherent" else v)
        V.function("%s:%s" % (OPTM, name), setup, post)


def level_f(V):
    """The methods of a channel."""
    for name, objective, regs in (("optimize_coherent", "coherent", (False, True, "default")), ("optimize_fidelity", "fidelity", (None, "default"))):
        for reg in regs:
            default = reg == "default"
            reg = None if default else reg

            def setup(it, name=name, reg=reg, default=default):
                w = {"n": dim(it, "n"), "rank": dim(it, "rank")}
                it.heap["CALLS"] = ()
                k = K(it, False)
                w["self"] = analytic(it, k.obj)
                w["kw"] = {x: Opaque(x) for x in ("optimizer", "param", "lipschitz", "use_pool", "maxiter", "samples", "disp") if not default}

                def update(it, f, args, kwargs):
                    b = it.bind(f, args, kwargs)
                    log(it, "update", f.bound, b["n"])
                    return None
                it.contracts[CHAN + ":AnalyticQChan._update_channel_tensored"] = update

                def proc(it, f, args, kwargs):
                    log(it, "optimize", it.bind(f, args, kwargs))
                    w["rho"], w["ok"], w["val"] = Opaque("rho"), var("okr", "bool"), app("real:opt", sort="cx")
                    return it.new_dict({"optimal_rho": w["rho"], "optimal_val": w["val"], "method": Opaque("m"),
                                        "lipschitz": Opaque("l"), "success": w["ok"], "objective": Opaque("o")})
                it.contracts[OPTM + ":optimize_procedure"] = proc
                kw = dict(w["kw"])
                if reg is not None:
                    kw["regularized"] = reg
                return ([w["n"], w["rank"]] if name == "optimize_coherent" else [w["n"]]), kw, w

            def post(P, out, env, objective=objective, reg=reg, default=default):
                if not returns(P, out):
                    return
                it = P.it
                cs = calls(it)
                if [c[0] for c in cs] != ["update", "optimize"]:
                    return P.fail("the channel for n copies, then one optimization", "%r" % ([c[0] for c in cs],))
                P.holds("n copies of this channel", lift(same(it, cs[0][1], env["self"]) and same(it, cs[0][2], env["n"])))
                b = cs[1][1]
                P.holds("this channel", lift(same(it, b["channel"], env["self"])))
                P.holds("n copies", eq(lift(b["n"]), env["n"]))
                P.holds("rank", eq(lift(b["rank"]), env["rank"] if objective == "coherent" else ic(1)))
                P.holds("objective", lift(b["objective"] == objective))
                for x, v in env["kw"].items():
                    P.holds("option %s" % x, lift(b[x] is v))
                if default:     # as documented
                    P.holds("default options", lift(b["maxiter"] == 50 and b["disp"] is False and b["samples"] == ()
                                                    and b["optimizer"] == "diffev" and b["param"] == "overparam"))
                d = it.heap[out[1].ref]
                P.holds("state of the optimization", lift(d["optimal_rho"] is env["rho"]))
                P.holds("success of the optimization", iff(lift(d["success"]), env["ok"]))
                P.equal("value of the optimization%s" % (" per copy" if reg else ""), mul(lift(d["optimal_val"]), tocx(env["n"])) if reg else d["optimal_val"], env["val"])
            V.function("%s:AnalyticQChan.%s" % (CHAN, name), setup, post, label="defaults" if default else "regularized" if reg else "")


# ---------------------------------------------------------------- the Lipschitz sampler
def level_g(V):
    """The loop keeps: m samples with their states and values (the same number of each), the largest value, and the number
    of tries.  Which variable plays which role is found from the values before the loop."""
    N0, N1, NV = var("nin"), var("nin"), var("nv")

    def vec(k):
        return Arr((NV,), lambda j: app("real:V", lift(k), lift(j), sort="cx"), "cx")

    def state(k):
        return Arr((N0, N0), lambda i, j: app("R", lift(k), lift(i), lift(j), sort="cx"), "cx")

    def val(k):
        return app("real:y", lift(k), sort="cx")

    def dist(k):
        i, j = idx(2)
        return S((i, N0), (j, N0), models.absval(sub(app("R", ic(-1), i, j, sort="cx"), app("R", lift(k), i, j, sort="cx"))))

    def setup(it):
        w = {"tries": ivar(it, "tries", 0), "num": ivar(it, "num", 1), "rank": dim(it, "rank"), "n": dim(it, "n")}
        for x in (N0, NV):
            it.ctx.assume(le(ic(1), x))
        it.heap["CALLS"], it.heap["DRAWS"] = (), ()
        w["chan"] = Opaque("chan")
        names = ("vec", "nsize", "rank", "param", "chan", "n")

        def number(it, v):
            """Which draw a vector is: k >= 0 for the samples kept before, -1 for the fresh draw."""
            return start(it, v, "real:V")

        def draw(it, args, kwargs):
            b = dict(zip(("nsize", "rank"), args), **kwargs)
            if not (same(it, b.get("nsize"), N0) and same(it, b.get("rank"), w["rank"])):
                it.obligations.append(("vectors are drawn for this size and rank", "refuted", ""))
            k = ic(0) if "INV" not in it.heap else ic(-1)
            it.heap["DRAWS"] = it.heap["DRAWS"] + (k,)
            return it.nd(vec(k))

        def rho(it, args, kwargs):
            b = dict(zip(("vec", "nsize", "rank"), args), **kwargs)
            if not (same(it, b.get("nsize"), N0) and same(it, b.get("rank"), w["rank"])):
                it.obligations.append(("states are formed for this size and rank", "refuted", ""))
            return it.nd(state(number(it, b["vec"])))

        def f(it, args, kwargs):
            b = dict(zip(names, args), **kwargs)
            if not (same(it, b.get("nsize"), N0) and same(it, b.get("rank"), w["rank"]) and b.get("param") is w["param"]
                    and b.get("chan") is w["chan"] and same(it, b.get("n"), w["n"])):
                it.obligations.append(("the objective gets this problem", "refuted", ""))
            return neg(val(number(it, b["vec"])))
        w["param"] = Opaque("param", attrs={"random_vectors": Opaque("draw", attrs={"call": draw}),
                                            "rho_from_vec": Opaque("rho", attrs={"call": rho})})
        it.while_specs.append(lambda it, node, frame: loop(it, node, frame, w))
        return [Opaque("f", attrs={"call": f}), N0, w["rank"], w["param"], w["chan"], w["n"]], \
            {"numb_samples": w["num"], "numb_tries": w["tries"]}, w

    def roles(it, frame):
        r = {}
        for x, v in frame.env.items():
            if isinstance(v, Lst):
                s = it.heap[v.ref]
                if it.seq_len(s) != 1:
                    continue
                e = it.seq_get(s, 0)
                if isinstance(e, Nd) and it.arr(e).ndim == 1 and it.same_value(e, vec(0), it.ctx):
                    r.setdefault("vecs", []).append(x)
                elif isinstance(e, Nd) and it.arr(e).ndim == 2 and it.same_value(e, state(0), it.ctx):
                    r.setdefault("rhos", []).append(x)
                elif is_scalar(e) and lift(e) is val(0):
                    r.setdefault("vals", []).append(x)
            elif isinstance(v, E) and v is val(0):
                r.setdefault("max", []).append(x)
            elif v == 0 and isinstance(v, int) and not isinstance(v, bool):
                r.setdefault("count", []).append(x)
        return r

    def enter(it, frame, r, m, M, c):
        """An arbitrary state satisfying the invariant."""
        for x in r["vecs"]:
            frame.env[x] = Lst(it.new(Seq("list", (Sub(m, lambda k: it.nd(vec(k))),))))
        for x in r["rhos"]:
            frame.env[x] = Lst(it.new(Seq("list", (Sub(m, lambda k: it.nd(state(k))),))))
        for x in r["vals"]:
            frame.env[x] = Lst(it.new(Seq("list", (Sub(m, lambda k: val(k)),))))
        for x in r["max"]:
            frame.env[x] = M
        for x in r["count"]:
            frame.env[x] = c

    def loop(it, node, frame, w):
        r = roles(it, frame)
        if any(len(r.get(x, [])) != 1 for x in ("vecs", "rhos", "vals", "max", "count")):
            raise Unsupported("the variables of the sampler are not recognised: %s" % r)
        one = {x: y[0] for x, y in r.items()}
        it.heap["INV"] = True
        from pyded.loops import assigned
        touched = set()
        for x in node.body:
            touched |= assigned(x)
        m, c, M = fresh("m"), fresh("c"), app("real:%s" % fresh("M").args[0], sort="cx")
        k = fresh("k")

        def inv(ctx):
            ctx.assume(and_(le(ic(1), m), le(ic(0), c), le(m, w["num"]), le(c, w["tries"])))
            ctx.assume(not_(exists(k, m, lt(M, val(k)))))
            ctx.assume(exists(k, m, le(M, val(k))))
        # initially: one sample, its value is the largest, no tries (roles() read this off); 1 <= num and 0 <= tries
        it.oblige("the invariant of the sampler holds initially", and_(le(ic(1), w["num"]), le(ic(0), w["tries"])))
        saved, heap, env = it.ctx, dict(it.heap), dict(frame.env)
        it.ctx = saved.clone()
        inv(it.ctx)
        result = []

        def step():
            for x in touched:
                if x not in [y for z in r.values() for y in z]:
                    frame.env[x] = POISON
            enter(it, frame, r, m, M, c)
            it.heap["DRAWS"] = ()
            go = it.branch(it.truth(it.eval(node.test, frame)))
            if not go:
                return "stop"
            try:
                it.exec_block(node.body, frame)
            except ContinueSig:
                pass
            return "step"
        paths = it.explore(step, frame)
        it.ctx = saved
        for p in paths:
            it.heap, it.ctx, frame.env = p.heap, p.ctx, p.env
            if p.ctx.infeasible():
                continue
            if p.out[0] != "normal":
                raise Unsupported("the sampler's loop is left by %s" % p.out[0])
            P = w["proof"]()
            P.label = "loop"
            if p.out[1] == "stop":
                P.holds("the loop ends only with enough samples or no tries left", or_(le(w["num"], m), le(w["tries"], c)))
                continue
            P.holds("the loop goes on only with tries left and too few samples", and_(lt(c, w["tries"]), lt(m, w["num"])))
            P.holds("one draw per try", lift(len(it.heap["DRAWS"]) == 1))
            P.equal("the tries are counted", frame.env[one["count"]], add(c, ic(1)))
            seqs = {x: it.iter_seq(frame.env[one[x]]) for x in ("vecs", "rhos", "vals")}
            ls = {x: lift(it.seq_len(s)) for x, s in seqs.items()}
            kk = fresh("k")
            out = exists(kk, m, lt(add(val(kk), dist(kk)), M))
            grown = it.ctx.valid(eq(ls["vecs"], add(m, ic(1))))
            if grown:
                P.holds("kept only if no earlier bound rules it out", not_(out))
            else:
                P.holds("dropped only if an earlier bound rules it out", out)
            L = add(m, ic(1)) if grown else m
            j = ivar(it, fresh("j").args[0], 0, L)
            at = lambda f: (lambda i, f=f: ite(lt(i, m), f(i), f(ic(-1))))
            for x in seqs:
                P.equal("number of %s" % x, ls[x], L)
            # the fresh draw (number -1) is appended, the others stay
            isnew = eq(j, m)
            for b in (True, False):
                cx = it.ctx.clone()
                cx.assume(isnew if b else not_(isnew))
                if cx.infeasible():
                    continue
                sv, it.ctx = it.ctx, cx
                num = ic(-1) if b else j
                P.equal("vectors kept", it.seq_get(seqs["vecs"], j), vec(num))
                P.equal("states kept", it.seq_get(seqs["rhos"], j), state(num))
                P.equal("values kept", it.seq_get(seqs["vals"], j), val(num))
                it.ctx = sv
            M2 = lift(frame.env[one["max"]])
            if grown:
                P.holds("the largest value is at least every value", and_(le(val(ic(-1)), M2), not_(exists(kk, m, lt(M2, val(kk))))))
                P.holds("the largest value is attained", or_(le(M2, val(ic(-1))), exists(kk, m, le(M2, val(kk)))))
            else:
                P.equal("the largest value stays", M2, M)
        # after the loop: any state with the invariant where the test fails
        it.heap, it.ctx, frame.env = heap, saved, env
        inv(it.ctx)
        enter(it, frame, r, m, M, c)
        for x in touched - {y for z in r.values() for y in z}:
            frame.env[x] = Opaque("maybe-unbound")
        t = it.truth(it.eval(node.test, frame))
        if it.branch(t):
            raise PathDead()
        it.heap["M"] = m
        return True

    def post(P, out, env):
        if not returns(P, out):
            return
        it = P.it
        r = it.concrete_items(out[1])
        if len(r) != 3:
            return P.fail("samples, values and success flag are reported", "")
        m = it.heap["M"]
        vs, ys = it.iter_seq(r[0]), it.iter_seq(r[1])
        P.equal("number of samples", lift(it.seq_len(vs)), m)
        P.equal("number of values", lift(it.seq_len(ys)), m)
        j = ivar(it, "j", 0, m)
        P.equal("samples", it.seq_get(vs, j), vec(j))
        P.equal("values", it.seq_get(ys, j), val(j))
        P.holds("success exactly with the number asked for", iff(lift(r[2]), eq(m, env["num"])))

    def setup2(it):
        a, k, w = setup(it)
        from pyded.run import Proof
        w["proof"] = lambda: Proof(V, LIP + ":initial_guesses_lipschitz", it)
        return a, k, w
    V.function(LIP + ":initial_guesses_lipschitz", setup2, post)


def verify(V):
    level_g(V)
    level_a(V)
    level_b(V)
    level_e(V)
    level_d(V)
    level_f(V)
    V.assume_text("scipy's solvers call fun(x, *args) and report a point x, the finite value fun(x, *args) and a flag",
                  "a pool's map applies the function to every element in order",
                  "fidelity is optimized over pure states (rank 1)",
                  "the contracts of the parameterizations (P21) and of the channel (P20) are used in place of their bodies")
