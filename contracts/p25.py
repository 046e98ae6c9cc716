from .lib import *
from .circuits import gates

Q = FIND + ":QDeviceChannel"


def device(it):
    nq = dim(it, "nq")
    eng, reg = gates.engine(it, nq), gates.register(it, "data", nq)

    def user(name):
        def call(it, args, kwargs):
            log(it, name, tuple(args), dict(kwargs))
            return None
        return Opaque(name, attrs={"call": call})
    w = {"eng": eng, "reg": reg, "chan": user("channel"), "encoder": user("encoder"), "decoder": user("decoder")}
    w["self"] = me = it.obj(cls(FIND, "QDeviceChannel"))
    if not construct(it, me, [eng, reg, w["chan"]], {}):
        dev = it.obj(cls(DEV, "ProjectQDeviceAdaptor"), _eng=eng, _register=reg, _real_device=False, _numb_qubits=nq)
        it.heap[me.ref] = {"_channel": w["chan"], "_real_device": False, "_device": dev}
    devs = [v for v in it.heap[me.ref].values() if isinstance(v, Obj) and v.cls.name == "ProjectQDeviceAdaptor"]
    w["dev"] = devs[0] if devs else None
    it.heap["CALLS"] = ()

    def estimate(it, f, args, kwargs):
        """The estimate depends on what the channel handed over does to the register (P23)."""
        b = it.bind(f, args, kwargs)
        e2, r2 = Opaque("engine of the device"), Opaque("register of the device")
        log(it, "estimate", f.bound, b)
        it.call(b["channel"], [e2, r2], {})
        v = app("real:estimate%d" % len(calls(it, "estimate")), sort="cx")
        log(it, "end", e2, r2, v)
        return v
    it.contracts[DEV + ":ProjectQDeviceAdaptor.estimate_average_fidelity"] = estimate
    return w


def through_channel(V):
    """QDeviceChannel hands its channel, or encoder, channel and decoder, to the estimate of its device."""
    for code in (False, True):
        for opts in (({}, False), ({"cheat": True}, True)) if not code else (({}, False),):
            def setup(it, code=code, opts=opts):
                w = device(it)
                nums = [Opaque("ntimes"), Opaque("epsilon")]
                return ([w["encoder"], w["decoder"]] if code else []) + nums, opts[0], w

            def post(P, out, env, code=code, opts=opts):
                if not returns(P, out):
                    return
                it = P.it
                ests, ends = calls(it, "estimate"), calls(it, "end")
                if len(ests) != 1:
                    return P.fail("one estimate", "%d" % len(ests))
                s, e = ests[0], ends[0]
                P.holds("estimate by the device of this channel", lift(same(it, s[1], env["dev"])))
                P.holds("trials and precision given", lift(getattr(s[2]["ntimes"], "name", "") == "ntimes" and getattr(s[2]["epsilon"], "name", "") == "epsilon"))
                P.holds("kind of reset given", lift(bool(s[2]["cheat"]) == opts[1] and isinstance(s[2]["cheat"], bool)))
                between = [c for c in it.heap["CALLS"] if c[0] not in ("estimate", "end")]
                if not P.holds("what the register goes through", lift([c[0] for c in between] == (["encoder", "channel", "decoder"] if code else ["channel"]))):
                    return
                for c in between:
                    P.holds("%s on the register of the device" % c[0], lift(len(c[1]) == 2 and not c[2] and c[1][0] is e[1] and c[1][1] is e[2]))
                P.equal("the estimate is returned", out[1], e[3])
            V.function(Q + (".estimate_average_fidelity_error_code" if code else ".estimate_average_fidelity_channel"), setup, post,
                       "cheat" if opts[0] else "")

    def setup_n(it):
        w = device(it)
        n = dim(it, "n")
        r = gates.register(it, "data", n)
        real = app("real device", sort="bool")
        w.update(r=r, n=n, real=real)
        w["self"] = it.obj(cls(FIND, "QDeviceChannel"))
        return [w["eng"], r, w["chan"], real], {}, w

    def post_n(P, out, env):
        if not returns(P, out):
            return
        it = P.it
        o = env["self"]
        d = it.get_attr(o, "_device")
        P.holds("the engine", lift(same(it, it.get_attr(d, "eng"), env["eng"]) and same(it, it.get_attr(o, "eng"), env["eng"])))
        P.holds("the register", lift(it.get_attr(d, "register") is env["r"] and it.get_attr(o, "register") is env["r"]))
        P.equal("number of qubits", it.get_attr(d, "numb_qubits"), env["n"])
        P.equal("number of qubits of the channel", it.get_attr(o, "numb_qubits"), env["n"])
        P.holds("the channel", lift(it.get_attr(o, "channel") is env["chan"]))
        P.holds("kind of device", iff(it.get_attr(d, "_real_device"), env["real"]))
    V.function(Q + ".__init__", setup_n, post_n)


def verify(V):
    def setup(it, wrong=False, optimizer="diffev"):
        w = device(it)
        a, b = ivar(it, "na", 0), ivar(it, "nb", 0)
        L = add(a, b)
        if wrong:
            L = ivar(it, "L", 0)
            it.ctx.assume(ne(L, add(a, b)))
        w.update(a=a, b=b, N=add(a, b))
        w["bounds"] = Lst(it.new(Seq("list", (Sub(L, lambda j: (app("real:lo", lift(j), sort="cx"), app("real:hi", lift(j), sort="cx"))),))))
        w["maxiter"] = ivar(it, "maxiter", 1)

        def evolve(it, name, args, kwargs):
            """scipy: minimises func over the box by evaluating it; reports the best evaluation."""
            log(it, "evolve", args[1:], dict(kwargs))
            f = args[0] if args else kwargs["func"]
            extra = kwargs.get("args", ())
            vals = []
            for k in range(2):
                x = it.nd(Arr((w["N"],), lambda j, k=k: app("real:x%d" % k, lift(j), sort="cx"), "cx"))
                w["x%d" % k] = x
                vals.append(it.call(f, [x] + list(it.concrete_items(extra)), {}))
            it.heap["BEST"] = vals
            w["success"] = Opaque("success")
            return it.new_dict({"x": w["x1"], "fun": vals[1], "success": w["success"]}, res=True)
        it.externals["scipy.optimize.differential_evolution"] = evolve
        pair = (a, b)
        return [w["encoder"], w["decoder"], Opaque("ntimes"), Opaque("epsilon"), pair, w["bounds"]], \
            {"optimizer": optimizer, "maxiter": w["maxiter"]}, w

    def post(P, out, env):
        if not returns(P, out):
            return
        it = P.it
        ev = calls(it, "evolve")
        if len(ev) != 1:
            return P.fail("one optimization", "%d" % len(ev))
        pos, kw = ev[0][1], ev[0][2]
        bounds = pos[0] if pos else kw.get("bounds")
        P.holds("the bounds given", lift(same(it, bounds, env["bounds"])))
        P.holds("the number of iterations given", lift(same(it, kw.get("maxiter"), env["maxiter"])))
        ests, ends = calls(it, "estimate"), calls(it, "end")
        P.holds("one estimate per evaluation", lift(len(ests) == 2))
        a, b = env["a"], env["b"]
        for k, (s, e) in enumerate(zip(ests, ends)):
            P.holds("estimate by the device of this channel", lift(same(it, s[1], env["dev"])))
            P.holds("trials and precision given", lift(getattr(s[2]["ntimes"], "name", "") == "ntimes" and getattr(s[2]["epsilon"], "name", "") == "epsilon"))
            full = list(it.heap["CALLS"])
            i0, i1 = full.index(s), full.index(e)
            between = full[i0 + 1:i1]
            if [c[0] for c in between] != ["encoder", "channel", "decoder"] or any(c[2] for c in between):
                P.fail("encoder, channel, decoder in this order", "%r" % ([c[0] for c in between],))
                continue
            for c in between:
                P.holds("%s on the register of the device" % c[0], lift(c[1][0] is e[1] and c[1][1] is e[2]))
            P.holds("the channel takes no parameters", lift(len(between[1][1]) == 2))
            for c, n, off in ((between[0], a, ic(0)), (between[2], b, a)):
                if len(c[1]) != 3:
                    P.fail("%s takes its parameters" % c[0], "")
                    continue
                P.equal("parameters of the %s" % c[0], c[1][2], Arr((n,), lambda j, k=k, off=off: app("real:x%d" % k, add(lift(j), off), sort="cx"), "cx"))
            P.equal("the average fidelity is maximized", it.heap["BEST"][k], neg(e[3]))
        d = it.heap[out[1].ref]
        P.holds("success of the optimizer", lift(d.get("success") is env["success"]))
        P.equal("reported parameters of the encoder", d["params_encoder"], Arr((a,), lambda j: app("real:x1", lift(j), sort="cx"), "cx"))
        P.equal("reported parameters of the decoder", d["params_decoder"], Arr((b,), lambda j: app("real:x1", add(lift(j), a), sort="cx"), "cx"))
        P.equal("reported value", d["optimal_val"], ends[1][3])
    OPTQ = Q + ".optimize_encoder_decoder_average_fidelity"
    V.function(OPTQ, setup, post)
    V.function(OPTQ, lambda it: setup(it, wrong=True),
               lambda P, out, env: raises(P, out, "AssertionError", "a wrong number of bounds is rejected"), label="wrong bounds")
    for name in ("slsqp", "", None):
        V.function(OPTQ, lambda it, name=name: setup(it, optimizer=name),
                   lambda P, out, env: raises(P, out, "ValueError", "an unknown optimizer is rejected"), label="optimizer %r" % (name,))
    V.assume_text("scipy.optimize.differential_evolution calls func(x, *args) and reports x and fun of its best evaluation",
                  "the contract of estimate_average_fidelity (P23) is used in place of its body")
