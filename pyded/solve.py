"""Context of facts and the z3/cvc5 back ends."""
import os
import subprocess
import tempfile
import time

import z3

from .expr import *
from .expr import _walk, Fraction

STATS = {"queries": 0, "solver_s": 0.0, "z3": 0, "cvc5": 0, "syntactic": 0}


class Z3Translator:
    """E -> z3.  Sums, First-terms, opaque values and complex numbers become uninterpreted functions of their free
    variables; the defining facts of First and of symbolic div/mod are added as (universally closed) axioms."""

    def __init__(self, linear=False, general=False):
        self.linear, self.nonlinear = linear, False     # linear: products of unknowns are uninterpreted
        self.general, self.special = general, False     # general: sums are functions of the closed arguments in them
        self.memo = {}
        self.rmemo = {}
        self.axioms = []
        self.funs = {}
        self.U = z3.DeclareSort("U")

    def zs(self, sort):
        return {"int": z3.IntSort(), "bool": z3.BoolSort(), "cx": self.U, "obj": self.U}[sort]

    def fun(self, name, doms, rng):
        k = (name, tuple(doms), rng)
        f = self.funs.get(k)
        if f is None:
            f = z3.Function("%s/%d" % (name, len(self.funs)), *[self.zs(d) for d in doms], self.zs(rng))
            self.funs[k] = f
        return f

    def abstract(self, e, tag, extra=()):
        """An uninterpreted application of the free variables of e."""
        if tag == "sum":
            at = closed_arguments(e)
            if at:
                self.special = True
                if self.general:
                    m = {y: fresh("a") for y in at}
                    g = replace(e, m, {})
                    if g.op == "sum" and not closed_arguments(g):
                        back = {v.args[0]: y for y, v in m.items()}
                        return self.applied(g, tag, back)
        return self.applied(e, tag, {})

    def applied(self, e, tag, back):
        names = sorted(e.fv)
        sorts = {}
        for x in subterms(e):
            if x.op == "var" and x.args[0] in e.fv:
                sorts[x.args[0]] = x.sort
        m = {n: var("#%d:%s" % (i, sorts[n]), sorts[n]) for i, n in enumerate(names)}
        # canonical order: by first occurrence in the printed key
        order = sorted(names, key=lambda n: (e.key.find(n), n))
        m = {n: var("#%d" % i, sorts[n]) for i, n in enumerate(order)}
        key = subst(e, m).key
        if not order:
            return z3.Const("%s<%s>" % (tag, key), self.zs(e.sort))
        f = self.fun("%s<%s>" % (tag, key), [sorts[n] for n in order], e.sort)
        return f(*[self.tr(back.get(n, var(n, sorts[n]))) for n in order])

    def tr(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._tr(e)
            self.memo[e] = r
        return r

    def reim(self, e):
        """Real and imaginary part of a complex term: linear over its monomials."""
        r = self.rmemo.get(e)
        if r is None:
            r = self._reim(e)
            self.rmemo[e] = r
        return r

    def _reim(self, e):
        zero = z3.RealVal(0)
        if e.op == "poly":
            rs, is_ = [], []
            for m, c in e.args[0]:
                cr, ci = z3.RealVal(str(c[0])), z3.RealVal(str(c[1]))
                if not m:
                    x, y = z3.RealVal(1), zero
                elif len(m) == 1:
                    x, y = self.reim(m[0])
                else:
                    x, y = self.parts(poly({m: (Fraction(1), Fraction(0))}, "cx"))
                if c[1] == 0:
                    rs.append(x if c[0] == 1 else cr * x)
                    if not y.eq(zero):
                        is_.append(y if c[0] == 1 else cr * y)
                else:
                    rs.append(cr * x - ci * y)
                    is_.append(cr * y + ci * x)
            tot = lambda l: zero if not l else l[0] if len(l) == 1 else z3.Sum(l)
            return tot(rs), tot(is_)
        if e.op == "ite":
            c = self.tr(e.args[0])
            (x, y), (u, v) = self.reim(e.args[1]), self.reim(e.args[2])
            return z3.If(c, x, u), zero if y.eq(zero) and v.eq(zero) else z3.If(c, y, v)
        if e.op == "ofint":
            return z3.ToReal(self.tr(e.args[0])), zero
        if e.op == "conj":
            x, y = self.reim(e.args[0])
            return x, -y
        return self.parts(e)

    def parts(self, e):
        u = self.tr(e) if e.op != "poly" else self.abstract(e, "poly")
        if not hasattr(self, "RE"):
            self.RE = z3.Function("re", self.U, z3.RealSort())
            self.IM = z3.Function("im", self.U, z3.RealSort())
        real = e.op == "app" and e.args[0].startswith("real:")
        return self.RE(u), z3.RealVal(0) if real else self.IM(u)

    def _tr(self, e):
        op, a = e.op, e.args
        tr = self.tr
        if op == "bool":
            return z3.BoolVal(a[0])
        if op == "var":
            return z3.Const(a[0], self.zs(e.sort))
        if op == "poly" and e.sort == "int":
            tot = []
            for m, c in a[0]:
                t = z3.IntVal(c)
                fs = [tr(x) for x in m]
                if fs:
                    t = fs[0]
                    for f in fs[1:]:
                        self.nonlinear = True
                        t = self.fun("product", ["int", "int"], "int")(t, f) if self.linear else t * f
                    t = t if c == 1 else c * t
                tot.append(t)
            return z3.Sum(tot) if len(tot) > 1 else tot[0] if tot else z3.IntVal(0)
        if op == "not":
            return z3.Not(tr(a[0]))
        if op == "and":
            return z3.And([tr(x) for x in a])
        if op == "or":
            return z3.Or([tr(x) for x in a])
        if op == "le":
            return tr(a[0]) <= 0
        if op == "eq0":
            return tr(a[0]) == 0
        if op in ("iff", "eq"):
            return tr(a[0]) == tr(a[1])
        if op == "ite":
            return z3.If(tr(a[0]), tr(a[1]), tr(a[2]))
        if op in ("div", "mod"):
            x, y = tr(a[0]), tr(a[1])
            c = const_of(a[1])
            if c is not None and c > 0:
                return x / y if op == "div" else x % y
            q = self.fun("div", ["int", "int"], "int")(x, y)
            r = self.fun("mod", ["int", "int"], "int")(x, y)
            if not e.fv & {n for n in e.fv if n.startswith("$") or n.startswith("k!")}:
                self.axioms.append(z3.Implies(y > 0, z3.And(x == y * q + r, 0 <= r, r < y)))
            return q if op == "div" else r
        if op == "exists":
            v, hi, b = open_binder(e)
            zv = z3.Int(v.args[0])
            c = offset(b, v)
            if c is not None:           # u = v + c: the applications of the body become patterns in u
                zc = tr(c)
                return z3.Exists([zv], z3.And(zv >= zc, zv < tr(hi) + zc, tr(subst(b, {v.args[0]: sub(v, c)}))))
            return z3.Exists([zv], z3.And(zv >= 0, zv < tr(hi), tr(b)))
        if op == "app":
            args, doms = [], []
            for x in a[1:]:
                if not isinstance(x, E):
                    raise TypeError("app argument %r" % (x,))
                args.append(tr(x))
                doms.append(x.sort)
            if not args:
                return z3.Const(a[0], self.zs(e.sort))
            return self.fun(a[0], doms, e.sort)(*args)
        if op == "first":
            t = self.abstract(e, "first")
            v, hi, b = open_binder(e)
            zv = z3.Int(v.args[0])
            zb = tr(b)
            zh = tr(hi)
            some = z3.Exists([zv], z3.And(zv >= 0, zv < zh, zb))
            here = z3.substitute(zb, (zv, t))
            ax = z3.Implies(some, z3.And(t >= 0, t < zh, here,
                                         z3.ForAll([zv], z3.Implies(z3.And(zv >= 0, zv < t), z3.Not(zb)))))
            free = [n for n in sorted(e.fv) if n.startswith(("$", "k!"))]
            if free:
                ax = z3.ForAll([z3.Int(n) for n in free], ax)
            self.axioms.append(ax)
            return t
        if op in ("rle", "ceq0"):
            re, im = self.reim(a[0])
            return re <= 0 if op == "rle" else z3.And(re == 0, im == 0)
        if op in ("sum", "lam", "conj", "ofint") or e.sort in ("cx", "obj"):
            return self.abstract(e, op)
        raise TypeError("no translation for %s" % e.key[:200])


def closed_arguments(e):
    """The maximal integer arguments of functions in e, other than variables, that no binder of e reaches."""
    out = set()

    def walk(x):
        if not isinstance(x, E):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
            return
        if x.op == "app":
            for y in x.args[1:]:
                if isinstance(y, E) and y.sort == "int" and y.op != "var" and not any(n.startswith("$") for n in y.fv):
                    out.add(y)
                else:
                    walk(y)
            return
        for y in x.args:
            walk(y)
    walk(e)
    return sorted(out, key=lambda x: x.key)


def replace(e, m, memo):
    """Replace closed subterms."""
    if e in memo:
        return memo[e]
    if e in m:
        return m[e]
    if e.op in ("var", "bool"):
        return e
    if e.op in BINDERS:
        v, hi, b = open_binder(e)
        r = {"sum": sum_, "exists": exists, "first": first, "lam": lam}[e.op](v, replace(hi, m, memo), replace(b, m, memo))
    else:
        r = rebuild(e, lambda x: replace(x, m, memo))
    memo[e] = r
    return r


def offset(b, v):
    """c if the variable occurs in arguments of functions only as v + c, c the same term everywhere (not 0)."""
    cs = set()
    for x in subterms(b):
        if x.op == "app":
            for y in x.args[1:]:
                if isinstance(y, E) and v.args[0] in y.fv:
                    if y.sort != "int":
                        return None
                    c = sub(y, v)
                    if v.args[0] in c.fv:
                        return None
                    cs.add(c)
    if len(cs) != 1 or any(n.startswith("$") for n in next(iter(cs)).fv):
        return None
    c = cs.pop()
    return None if const_of(c) == 0 else c


def run_cvc5(smt, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write("(set-logic ALL)\n" + smt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), fh.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        return r.stdout.strip().splitlines()[0] if r.stdout.strip() else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(fh.name)


class Ctx:
    """A stack of facts."""

    def __init__(self):
        self.facts = []
        self.cache = {}
        self.lemmas = {}      # name -> fn(*args) -> fact: universally quantified facts, instantiated at every application

    def instances(self, goal):
        out, done, todo = [], set(), list(self.facts) + [goal]
        for depth in range(3):
            apps = {x for f in todo for x in subterms(f) if x.op == "app" and x.args[0] in self.lemmas
                    and not any(v.startswith("$b") for v in x.fv)} - done
            done |= apps
            todo = [lift(self.lemmas[x.args[0]](*x.args[1:])) for x in sorted(apps, key=lambda x: x.key)]
            out += todo
            if not todo:
                break
        return out

    def clone(self):
        c = Ctx()
        c.lemmas = self.lemmas
        c.facts = list(self.facts)
        c.cache = self.cache
        return c

    def assume(self, e):
        if e is TRUE:
            return
        for x in (e.args if e.op == "and" else (e,)):
            if x not in self.facts:
                self.facts.append(x)

    # -------------------------------------------------- solver
    def check(self, goal, timeout=10.0, cvc5=False, quick=False, mono=True):
        """'valid' | 'invalid' (with self.model) | 'unknown' for facts |= goal"""
        goal = lift(goal)
        if goal is TRUE:
            STATS["syntactic"] += 1
            return "valid"
        if goal in self.facts:
            return "valid"
        if not_(goal) in self.facts and goal is not FALSE:
            return "invalid"
        k = (tuple(self.facts), goal, quick, len(self.lemmas))
        if k in self.cache and not (self.cache[k] == "unknown" and timeout > 10):
            return self.cache[k]
        t0 = time.time()
        if mono and not quick and goal.depth and any(self.entails(f, goal) for f in self.facts if f.depth and f.op == goal.op):
            self.cache[k] = "valid"
            return "valid"
        facts = [f for f in self.facts if not (quick and f.depth)]
        # keep facts connected to the goal first
        if self.lemmas:
            facts = facts + [f for f in self.instances(goal) if not (quick and f.depth)]
        for linear, limit in ((False, 0.4), (True, 0.4), (False, timeout)):
            tr = Z3Translator(linear)
            s = z3.Solver()
            s.set("timeout", int(min(limit, timeout) * 1000))
            s.set("random_seed", 1)
            g = tr.tr(not_(goal))
            for f in [tr.tr(f) for f in facts]:
                s.add(f)
            for ax in tr.axioms:
                s.add(ax)
            s.add(g)
            STATS["queries"] += 1
            r = s.check()
            if str(r) == "unsat" or str(r) == "sat" and not linear:
                break
        if str(r) != "unsat" and not quick and tr.special:
            tr = Z3Translator(False, True)
            s2 = z3.Solver()
            s2.set("timeout", int(min(2, timeout) * 1000))
            s2.set("random_seed", 1)
            g = tr.tr(not_(goal))
            for f in [tr.tr(f) for f in facts]:
                s2.add(f)
            for ax in tr.axioms:
                s2.add(ax)
            s2.add(g)
            STATS["queries"] += 1
            if str(s2.check()) == "unsat":
                r = z3.unsat
        STATS["z3"] += 1
        res = {"unsat": "valid", "sat": "invalid"}.get(str(r), "unknown")
        self.model = s.model() if res == "invalid" else None
        if res == "unknown" and cvc5:
            STATS["cvc5"] += 1
            out = run_cvc5(s.to_smt2(), timeout)
            if out == "unsat":
                res = "valid"
        STATS["solver_s"] += time.time() - t0
        self.cache[k] = res
        return res

    def valid(self, goal, timeout=5.0):
        if goal is TRUE:
            return True
        if goal is FALSE and not self.facts:
            return False
        if goal is not FALSE:
            qf = self.check(goal, timeout, quick=True)
            if qf == "valid":
                return True
            if not any(f.depth for f in self.facts) and not goal.depth:
                return False
        return self.check(goal, timeout) == "valid"

    def entails(self, f, g):
        """f -> g for quantified statements of the same shape over the same ranges (quantifiers are monotone);
        the quantifier-free cores are left to z3."""
        if f is g:
            return True
        if f.op == g.op == "not":
            return self.entails(g.args[0], f.args[0])
        if f.op == g.op == "exists":
            v, h, b = open_binder(f)
            w, i, c = open_binder(g)
            if h is not i:
                return False
            d = self.clone()
            d.assume(and_(le(ic(0), v), lt(v, h)))
            return d.entails(b, subst(c, {w.args[0]: v}))
        if any(x.op in ("exists", "first") for y in (f, g) for x in subterms(y)):
            return False
        d = self.clone()
        d.facts = [x for x in self.facts if not any(y.op in ("exists", "first") for y in subterms(x))]
        d.assume(f)
        return d.check(g, 5.0, mono=False) == "valid"

    def infeasible(self, timeout=3.0):
        return self.check(FALSE, timeout) == "valid"

    # -------------------------------------------------- simplification under the facts
    def divmod(self, a, b):
        a, b = lift(a), lift(b)
        from .expr import _split
        cb = const_of(b)
        q, r = _split(a, b)
        if q is not None:
            rr = const_of(r)
            if (rr is not None and cb is not None and 0 <= rr < cb) or \
                    self.valid(and_(le(ic(0), r), lt(r, b))):
                return q, r
            for d in (1, -1):
                r2 = sub(r, mul(ic(d), b))
                if self.valid(and_(le(ic(0), r2), lt(r2, b))):
                    return add(q, ic(d)), r2
        return div(a, b), mod(a, b)

    def simp(self, e, memo=None):
        """Decide ites, comparisons and div/mod outside binders by the facts."""
        memo = {} if memo is None else memo
        if e in memo:
            return memo[e]
        if e.op in BINDERS or e.op == "var":
            r = e
            if e.op == "sum":
                v, hi, b = open_binder(e)
                c = self.clone()
                c.assume(and_(le(ic(0), v), lt(v, hi)))
                r = sum_(v, self.simp(hi, memo), c.simp(b))
        elif e.op == "ite":
            c = self.simp(e.args[0], memo)
            if c is TRUE or (c is not FALSE and self.valid(c)):
                r = self.simp(e.args[1], memo)
            elif c is FALSE or self.valid(not_(c)):
                r = self.simp(e.args[2], memo)
            else:
                c1, c2 = self.clone(), self.clone()
                c1.assume(c)
                c2.assume(not_(c))
                r = ite(c, c1.simp(e.args[1]), c2.simp(e.args[2]))
        elif e.op in ("div", "mod"):
            q, m = self.divmod(self.simp(e.args[0], memo), self.simp(e.args[1], memo))
            r = q if e.op == "div" else m
        elif e.op in ("le", "eq0", "iff", "and", "or", "not"):
            r = rebuild(e, lambda x: self.simp(x, memo))
            if r not in (TRUE, FALSE):
                if self.valid(r):
                    r = TRUE
                elif self.valid(not_(r)):
                    r = FALSE
        else:
            r = rebuild(e, lambda x: self.simp(x, memo))
        memo[e] = r
        return r
