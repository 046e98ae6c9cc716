"""python3-vt -m pyded.run PNN TIER OUT.json : discharge the contracts of one property against /repo's source."""
import importlib
import json
import os
import sys
import time
import traceback

from .expr import *
from .values import *
from . import solve, interp as interp_mod
from .interp import Interp, Module, PathDead, RaiseSig, REPO
from .nf import NF, canon, nf_zero, TooBig, replace
from .evalx import search


class Goal:
    pass


class Proof:
    """Collects the obligations of one function under contract."""

    def __init__(self, V, qual, it):
        self.V, self.qual, self.it = V, qual, it
        self.label = ""

    def note(self, name, status, by, t0, why=""):
        if name.startswith("~"):
            # an obligation about the internal representation: behaviour may hold without it
            name = name[1:] + " (internal)"
            if status != "discharged":
                status = "other"
        self.V.add(self.qual, (self.label + "/" if self.label else "") + name, status, by, t0, why)
        return status == "discharged"

    # ------------------------------------------------ goals
    def holds(self, name, goal, ctx=None):
        """A boolean goal under the facts of the path."""
        t0 = time.time()
        ctx = ctx or self.it.ctx
        goal = lift(goal)
        st, by, why = self.decide(goal, ctx)
        return self.note(name, st, by, t0, why)

    def decide(self, goal, ctx):
        if goal is TRUE:
            return "discharged", "syntactic", ""
        try:
            r = ctx.check(goal, 10, cvc5=True)
            if r == "valid":
                return "discharged", "z3/cvc5", ""
            g2 = canon(ctx, goal, self.it.rules())
            if g2 is TRUE or ctx.check(g2, 10, cvc5=True) == "valid":
                return "discharged", "normal form + z3", ""
            c2 = ctx.clone()
            c2.facts = [canon(ctx, f, self.it.rules()) for f in ctx.facts]
            if c2.check(g2, 10, cvc5=True) == "valid":
                return "discharged", "normal form + z3", ""
        except TooBig:
            return "other", "", "normal form too large"
        return self.refute(goal, ctx)

    def refute(self, goal, ctx):
        if self.it.axioms or self.it.eigs or self.V.axiomatic:
            return "unproved", "", "not proved: %s" % goal.key[:400]
        try:
            cex = search(ctx.facts + ctx.instances(goal), goal, interp=self.V.interpretations)
        except TypeError as e:
            cex = None
        if cex is not None:
            return "refuted", "evaluation", "counterexample %s for %s" % (cex, goal.key[:300])
        return "unproved", "", "not proved: %s" % goal.key[:400]

    def equal(self, name, a, b, ctx=None, sort=None):
        """Equality of two scalars or arrays (values of the program or plain Arr / E)."""
        t0 = time.time()
        it = self.it
        ctx = ctx or it.ctx
        if a is None and b is not None:
            return self.fail(name, "None")
        if is_scalar(a) and is_scalar(b):
            st, by, why = self.decide_eq(lift(a), lift(b), ctx)
            return self.note(name, st, by, t0, why)
        x, y = it.arr(a), it.arr(b)
        if x.ndim != y.ndim:
            return self.fail(name + " (rank)", "rank %d instead of %d" % (x.ndim, y.ndim))
        c = ctx.clone()
        ks = []
        for j, (p, q) in enumerate(zip(x.shape, y.shape)):
            if not (p == q if isinstance(p, int) and isinstance(q, int) else False):
                st, by, why = self.decide_eq(lift(p), lift(q), ctx)
                if st != "discharged":
                    return self.note(name + " (axis %d)" % j, st, by, t0, why)
            k = fresh("i%d_" % j)
            c.assume(and_(le(ic(0), k), lt(k, lift(q))))
            ks.append(k)
        st, by, why = self.decide_eq(lift(x.fn(*ks)), lift(y.fn(*ks)), c)
        return self.note(name, st, by, t0, why)

    def decide_eq(self, a, b, ctx, depth=0):
        if a is b:
            return "discharged", "syntactic", ""
        goal = eq(a, b)
        if goal is TRUE:
            return "discharged", "syntactic", ""
        if "cx" not in (a.sort, b.sort):
            r = self.decide(goal, ctx)
            if r[0] != "discharged" and any(x.op == "sum" for x in subterms(goal)):
                if a.op == b.op == "mod" and a.args[1] is b.args[1]:
                    e = mod(self.equal_sums(a.args[0], b.args[0], ctx, a.args[1]), a.args[1])
                else:
                    e = self.equal_sums(a, b, ctx)
                if e is not b and (e is a or self.decide(eq(a, e), ctx)[0] == "discharged"):
                    return "discharged", "sums term by term", ""
            return r
        try:
            d = sub(a, b)
            from .nf import canon_inner
            d = canon_inner(ctx, d, self.it.rules(), {})
            n = NF(ctx, self.it.rules())
            res = n.norm(d)
            if not res:
                return "discharged", "normal form", ""
            # split on guards that do not involve summation indices
            if depth < 6:
                for t in res.values():
                    bound = {v.args[0] for v, _ in t.binders}
                    for g in t.guards:
                        if not (g.fv & bound) and not g.fv & {"$b%d" % i for i in range(12)}:
                            for cond in (g, not_(g)):
                                c = ctx.clone()
                                c.assume(cond)
                                if c.infeasible():
                                    continue
                                r = self.decide_eq(c.simp(n.back(res)) if False else self.assume_in(n.back(res), cond), cc(0), c, depth + 1)
                                if r[0] != "discharged":
                                    return r
                            return "discharged", "normal form + cases", ""
            # indices that the context forces to be equal
            e = n.back(res)
            vs = sorted((x for x in subterms(e) if x.op == "var" and x.sort == "int" and not x.args[0].startswith("$")), key=lambda x: x.key)
            if depth < 6 and len(vs) <= 8:
                for j, x in enumerate(vs):
                    for y in vs[:j]:
                        if ctx.valid(eq(x, y)):
                            return self.decide_eq(subst(e, {x.args[0]: y}), cc(0), ctx, depth + 1)
            # entries of a table at indices that the context forces to be equal
            ts = sorted((x for x in subterms(e) if x.op == "app" and len(x.args) > 1 and not any(v.startswith("$") for v in x.fv)), key=lambda x: x.key)
            if depth < 12 and len(ts) <= 12:
                for j, x in enumerate(ts):
                    for y in ts[:j]:
                        if x.args[0] == y.args[0] and len(x.args) == len(y.args) and \
                                all(p is q or ctx.valid(eq(p, q)) for p, q in zip(x.args[1:], y.args[1:])):
                            return self.decide_eq(replace(e, {x: y}, {}), cc(0), ctx, depth + 1)
        except TooBig:
            return "other", "", "normal form too large"
        st = self.refute(goal, ctx)
        if st[0] == "unproved":
            st = (st[0], st[1], "difference %s" % n.back(res).key[:600])
            if os.environ.get("PYDED_NF"):
                import re as _re
                for t in res.values():
                    print("   NF", _re.sub(r"<~.*?>", "", repr(t))[:1500])
        return st

    def congruent(self, name, a, b, m, ctx=None):
        """a = b modulo the constant m, for integers a, b built by sums, products and cases."""
        t0 = time.time()
        ctx = ctx or self.it.ctx
        try:
            st = self.decide_mod(strip_mod(sub(lift(a), lift(b)), m), m, ctx, 0)
        except TooBig:
            st = "other", "", "normal form too large"
        if st[0] == "unproved":
            st = self.decide_eq(mod(lift(a), ic(m)), mod(lift(b), ic(m)), ctx)
        return self.note(name, *st[:2], t0, st[2])

    def decide_mod(self, d, m, ctx, depth):
        from .nf import canon_inner
        n = NF(ctx, self.it.rules())
        res = n.norm(canon_inner(ctx, lift(d, "cx"), self.it.rules(), {}))
        res = {k: t for k, t in res.items() if t.c[1] != 0 or t.c[0].denominator != 1 or t.c[0] % m != 0}
        if not res:
            return "discharged", "normal form modulo %d" % m, ""
        if depth < 8:
            for t in res.values():
                bound = {v.args[0] for v, _ in t.binders}
                for g in t.guards:
                    if not (g.fv & bound) and not g.fv & {"$b%d" % i for i in range(12)}:
                        for cond in (g, not_(g)):
                            c = ctx.clone()
                            c.assume(cond)
                            if c.infeasible():
                                continue
                            r = self.decide_mod(self.assume_in(n.back(res), cond), m, c, depth + 1)
                            if r[0] != "discharged":
                                return r
                        return "discharged", "normal form modulo %d + cases" % m, ""
            e = n.back(res)
            vs = sorted((x for x in subterms(e) if x.op == "var" and x.sort == "int" and not x.args[0].startswith("$")), key=lambda x: x.key)
            if len(vs) <= 8:
                for j, x in enumerate(vs):
                    for y in vs[:j]:
                        if ctx.valid(eq(x, y)):
                            return self.decide_mod(subst(e, {x.args[0]: y}), m, ctx, depth + 1)
        return "unproved", "", "not zero modulo %d: %s" % (m, n.back(res).key[:600])

    def equal_sums(self, a, b, ctx, m=None):
        """b with every sum replaced by a sum of a over the same range with equal (modulo m: congruent) terms."""
        sums = lambda e: sorted((x for x in subterms(e) if x.op == "sum" and not any(y.startswith("$") for y in x.fv)), key=lambda x: x.key)
        for y in sums(b):
            if m is not None and y is not b and not (b.op == "poly" and any(y in mono for mono, _ in b.args[0])):
                continue        # congruence is kept by sums and products only
            for x in sums(a):
                if x.args[1] is y.args[1] and x is not y:
                    v, hi, p = open_binder(x)
                    w, _, q = open_binder(y)
                    c = ctx.clone()
                    c.assume(and_(le(ic(0), v), lt(v, hi)))
                    q1, q2 = [subst(q, {w.args[0]: k}) for k in (v, sub(sub(lift(hi), ic(1)), v))]      # in order, or reflected
                    if p.sort == q.sort == "int" and any(c.valid(eq(p, k)) or m is not None and c.valid(eq(mod(sub(p, k), m), ic(0)))
                                                         for k in (q1, q2)):
                        b = replace(b, {y: x}, {}) if m is None else rebuild(b, lambda t: x if t is y else t) if b is not y else x
                        break
        return b

    def assume_in(self, e, cond):
        def f(x):
            if x is cond:
                return TRUE
            if x is not_(cond):
                return FALSE
            if x.op in BINDERS:
                return x if not (cond.fv <= x.fv) else subst_bool(x, cond)
            return rebuild(x, f)
        return f(e) if e.op not in BINDERS else subst_bool(e, cond)

    def fail(self, name, why):
        """The path as such breaks the contract: it must be infeasible."""
        t0 = time.time()
        if self.it.ctx.infeasible(10):
            return self.note(name, "discharged", "z3 (path infeasible)", t0)
        st, by, w = self.decide(FALSE, self.it.ctx)
        return self.note(name, st, by, t0, "%s; %s" % (why, w))


def subst_bool(e, cond):
    if e is cond:
        return TRUE
    if e is not_(cond):
        return FALSE
    if e.op in BINDERS:
        v, hi, b = open_binder(e)
        nb = subst_bool(b, cond)
        nh = subst_bool(hi, cond)
        return {"sum": sum_, "exists": exists, "first": first, "lam": lam}[e.op](v, nh, nb)
    return rebuild(e, lambda x: subst_bool(x, cond)) if e.op not in ("var", "bool") else e


def strip_mod(e, m):
    """An integer congruent to e modulo m without inner remainders modulo m."""
    if e.op == "mod" and const_of(e.args[1]) == m:
        return strip_mod(e.args[0], m)
    if e.op == "sum":
        v, hi, b = open_binder(e)
        return sum_(v, hi, strip_mod(b, m))
    if e.op == "poly":
        return add(ic(0), *[mul(poly_coeff(c, e.sort), *[strip_mod(x, m) for x in mono]) for mono, c in e.args[0]])
    if e.op == "ite":
        return ite(e.args[0], strip_mod(e.args[1], m), strip_mod(e.args[2], m))
    return e


def poly_coeff(c, sort):
    return ic(c) if sort == "int" else cc(c)


class Verifier:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations = []
        self.functions = []
        self.inlined = set()
        self.trusted = set()
        self.assumptions = []
        self.covers = []
        self.interpretations = {}
        self.axiomatic = False
        self.deadline = None

    def add(self, fn, name, status, by, t0, why=""):
        self.obligations.append({"name": "%s: %s" % (fn, name), "function": fn, "status": status, "by": by,
                                 "ms": int(1000 * (time.time() - t0)), "why": why[:1500]})

    def assume_text(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def function(self, qual, setup, post, label="", expect_paths=None, contracts=(), prepare=None, limit=400):
        """Explore every path of the real function from the symbolic state made by setup(it) and discharge post on
        each.  setup returns (callable or (args, kwargs), env).  post(P, out, env): P the Proof, out = (kind, value)."""
        t0 = time.time()
        if qual not in self.functions:
            self.functions.append(qual)
        name = qual.split(":")[1] + (" [%s]" % label if label else "")
        it = Interp()
        for k, h in dict(contracts).items():
            it.contracts[k] = h
        try:
            if prepare:
                prepare(it)
            args, kwargs, env = setup(it)
            # vacuity: the precondition must be satisfiable
            if it.ctx.check(FALSE, 10) == "valid":
                self.add(qual, name + " precondition", "other", "", t0, "precondition unsatisfiable")
                return
            self.covers.append(name + ": precondition satisfiable (%s)" % it.ctx.check(FALSE, 10))
            fn = env.get("fn") if isinstance(env, dict) and env.get("fn") else it.find(qual)
            if isinstance(env, dict) and env.get("self") is not None and isinstance(fn, Fn) and fn.bound is None:
                fn = Fn(fn.node, fn.frame, fn.mod, fn.cls, env["self"], fn.name)
            it.top = qual
            # the function under contract itself is always executed, also when callers use its contract
            it.contracts.pop(qual, None)
            for _ in range(9):
                try:
                    paths = it.explore(lambda: it.call(fn, args, kwargs), limit=limit)
                    break
                except Promote as e:
                    it.promoted.add(e.site)
            else:
                raise Unsupported("float arrays")
            kinds = {}
            for j, p in enumerate(paths):
                it.heap, it.ctx = p.heap, p.ctx
                it.work = None
                if p.ctx.infeasible():
                    continue
                kinds[p.out[0]] = kinds.get(p.out[0], 0) + 1
                P = Proof(self, qual, it)
                P.label = name + (" path %d" % j if len(paths) > 1 else "")
                P.path = p
                out = p.out
                if out[0] == "return" and False:
                    pass
                post(P, out, env)
                if it.ctx.infeasible():
                    self.add(qual, name + " cover", "other", "", t0, "the facts assumed by the contract contradict each other on a feasible path")
            if not kinds:
                self.add(qual, name + " reachable", "other", "", t0, "no feasible path")
            self.covers.append("%s: %s" % (name, ", ".join("%d %s path(s)" % (v, k) for k, v in sorted(kinds.items()))))
        except Unsupported as e:
            self.add(qual, name, "other", "", t0, "undecided: %s" % e)
            if os.environ.get("PYDED_DEBUG"):
                traceback.print_exc()
        except (TooBig, RecursionError) as e:
            self.add(qual, name, "other", "", t0, "undecided: %r" % e)
        except interp_mod.NeedPre as e:
            self.add(qual, name, "other", "", t0, "undecided: loop-carried value %s" % (e.loc,))
        except Exception as e:
            self.add(qual, name, "other", "", t0, "engine error: %s" % traceback.format_exc()[-1500:])
            if os.environ.get("PYDED_DEBUG"):
                traceback.print_exc()
        for n, st, why in it.obligations:
            self.obligations.append({"name": "%s: %s" % (qual, n), "function": qual, "status": st, "by": "z3", "ms": 0, "why": why})
        self.inlined |= it.inlined
        self.trusted |= it.trusted
        self.trusted |= set(it.assumed)

    def lemma(self, name, goal_fn):
        """A lemma over the contracts: goal_fn(P)."""
        t0 = time.time()
        it = Interp()
        P = Proof(self, "lemma " + name, it)
        try:
            goal_fn(P)
        except (Unsupported, TooBig) as e:
            self.add("lemma " + name, name, "other", "", t0, "undecided: %s" % e)
        except Exception:
            self.add("lemma " + name, name, "other", "", t0, "engine error: %s" % traceback.format_exc()[-1500:])
        self.trusted |= set(it.assumed)

    def external(self, name, ok, by, t0, why=""):
        """An obligation discharged by another prover (Lean, cvc5 on a separate file...)."""
        self.add("lemma " + name, name, "discharged" if ok else "other", by, t0, why)

    def report(self):
        return {"functions": self.functions, "inlined": sorted(self.inlined), "obligations": self.obligations,
                "assumptions": self.assumptions, "trusted": sorted(self.trusted),
                "back_ends": ["pyded normal forms (exact sums of products)", "z3 4.x/5 (python3-vt z3-solver)", "cvc5 1.1.2 (fallback)"],
                "solver_s": round(solve.STATS["solver_s"], 2), "queries": solve.STATS["queries"], "covers": self.covers}


def main():
    prop, tier, outp = sys.argv[1:4]
    sys.setrecursionlimit(20000)
    V = Verifier(prop, tier)
    try:
        m = importlib.import_module("contracts." + prop.lower())
        m.verify(V)
    except Exception:
        V.add(prop, "contracts", "other", "", time.time(), "engine error: %s" % traceback.format_exc()[-1500:])
        if os.environ.get("PYDED_DEBUG"):
            traceback.print_exc()
    rep = V.report()
    with open(outp, "w") as fh:
        json.dump(rep, fh, indent=1)
    if os.environ.get("PYDED_DEBUG"):
        for o in rep["obligations"]:
            print(o["status"], o["by"], o["ms"], o["name"], o["why"][:600])
        print("solver_s", rep["solver_s"], "queries", rep["queries"])


if __name__ == "__main__":
    main()
