"""Normal form of complex expressions: sums of products with bound indices, guards and atoms.

canon(e, ctx, rules) rewrites every complex-sorted subterm into a canonical sum of products:
  * sums are pulled outwards (linearity, product of sums), ite becomes indicator guards;
  * a guard  v = t  on a summation index v is eliminated (t is put for v, with the range of v kept as guards);
  * an index v < a*b used only through v div b, v mod b is split into two indices;
  * guards implied by the context and the index ranges are dropped, contradictory products vanish;
  * summation indices are named canonically.
Every step is an equality over the complex numbers (finite sums), so equal canonical forms prove equality.
"""
import itertools

import time

from .expr import *
from .expr import _walk, _cmul, _addc
from .solve import Ctx

ONE = (Fraction(1), Fraction(0))


class Term:
    __slots__ = ("c", "binders", "guards", "atoms")

    def __init__(self, c, binders=(), guards=(), atoms=()):
        self.c, self.binders, self.guards, self.atoms = c, tuple(binders), tuple(guards), tuple(atoms)

    def times(self, o):
        g = self.guards + tuple(x for x in o.guards if x not in self.guards)
        return Term(_cmul(self.c, o.c), self.binders + o.binders, g, self.atoms + o.atoms)

    def sub(self, m):
        return Term(self.c, [(v, subst(h, m)) for v, h in self.binders], [subst(g, m) for g in self.guards],
                    [subst(a, m) for a in self.atoms])

    def __repr__(self):
        return "%s * Sum%s [%s] %s" % (self.c, self.binders, self.guards, self.atoms)


class TooBig(Exception):
    pass


def unify(ctx, e):
    """Replace equals by equals for the facts  atom = atom / constant."""
    m = {}
    les = {f.args[0] for f in ctx.facts if f.op == "le"}
    for f in ctx.facts:
        if f.op == "le" and neg(f.args[0]) in les:
            f = eq(f.args[0], ic(0))
        if f.op != "eq0":
            continue
        p = pdict(f.args[0])
        if len(p) > 2 or any(len(k) > 1 for k in p) or sorted(abs(c) for k, c in p.items() if k) != [1] * sum(1 for k in p if k):
            continue
        at = [k[0] for k in p if k]
        if any(a.op not in ("app", "var") for a in at):
            continue
        if len(at) == 2:
            if sorted(p.values()) != [-1, 1]:
                continue
            a, b = sorted(at, key=lambda x: (x.op == "app", len(x.key), x.key))
            if not (a.fv == b.fv and b in subterms(a)):
                m.setdefault(b, a)
        elif len(at) == 1 and not any(v.startswith("$b") for v in at[0].fv):
            m.setdefault(at[0], ic(-p.get((), 0) * p[(at[0],)]))
    if not m:
        return e
    for _ in range(4):
        seen = subterms(e)
        if not any(k in seen for k in m):
            return e
        e = replace(e, m, {})
    return e


def replace(e, m, memo):
    """Replace closed subterms."""
    if e in memo:
        return memo[e]
    if e in m:
        return m[e]
    if e.op in ("var", "bool"):
        return e
    if e.op in BINDERS:
        v, hi, b = open_binder(e)
        r = {"sum": sum_, "exists": exists, "first": first, "lam": lam}[e.op](v, replace(hi, m, memo), replace(b, m, memo))
    else:
        r = rebuild(e, lambda x: replace(x, m, memo))
    memo[e] = r
    return r


class NF:
    seconds = 30

    def __init__(self, ctx, rules=(), limit=4000):
        self.ctx, self.rules, self.limit = ctx, list(rules), limit

    # ------------------------------------------------ expansion
    def expand(self, e):
        e = lift(e, "cx")
        op = e.op
        if op == "poly":
            out = []
            for m, c in e.args[0]:
                ts = [Term(c)]
                for f in m:
                    fs = self.expand_atom(f)
                    ts = [a.times(b) for a in ts for b in fs]
                    if len(ts) > self.limit:
                        raise TooBig()
                out += ts
            return out
        return self.expand_atom(e)

    def expand_atom(self, e):
        op = e.op
        if op == "poly":
            return self.expand(e)
        if op == "sum":
            v, hi, b = open_binder(e)
            return [Term(t.c, ((v, hi),) + t.binders, t.guards, t.atoms) for t in self.expand(b)]
        if op == "ite":
            c, a, b = e.args
            ga = [Term(t.c, t.binders, (c,) + t.guards, t.atoms) for t in self.expand(lift(a, "cx"))]
            gb = [Term(t.c, t.binders, (not_(c),) + t.guards, t.atoms) for t in self.expand(lift(b, "cx"))]
            return ga + gb
        if op == "ofint":
            x = e.args[0]
            if x.op == "sum":
                v, hi, b = open_binder(x)
                return self.expand(sum_(v, hi, tocx(b)))
            if x.op in ("ite", "poly"):
                return self.expand(tocx(x))
            return [Term(ONE, (), (), (e,))]
        return [Term(ONE, (), (), (e,))]

    # ------------------------------------------------ normalisation
    def norm(self, e):
        """{key: (Term, coefficient)}"""
        work = self.expand(unify(self.ctx, lift(e, "cx")))
        acc = {}
        n = 0
        t0 = time.time()
        while work:
            n += 1
            if n > self.limit or time.time() - t0 > self.seconds:
                raise TooBig()
            t = work.pop()
            r = self.step(t)
            if r is not None:
                work += r
                continue
            t = self.canonical(t)
            k = (tuple(h.key for v, h in t.binders), tuple(g.key for g in t.guards), tuple(a.key for a in t.atoms))
            if k in acc:
                acc[k] = Term(_addc(acc[k].c, t.c), t.binders, t.guards, t.atoms)
            else:
                acc[k] = t
        return {k: t for k, t in acc.items() if t.c != (0, 0)}

    def tctx(self, t, guards=True):
        c = self.ctx.clone()
        for v, h in t.binders:
            c.assume(and_(le(ic(0), v), lt(v, h)))
        if guards:
            for g in t.guards:
                c.assume(g)
        return c

    def step(self, t):
        """Terms equal to t after one rewriting, or None if t is in normal form."""
        if t.c == (0, 0):
            return []
        # guards: flatten, split disjunctions, expand negations
        gs = []
        for g in t.guards:
            if g is FALSE:
                return []
            if g is TRUE:
                continue
            gs += list(g.args) if g.op == "and" else [g]
        gs2 = []
        for g in gs:
            if g not in gs2:
                gs2.append(g)
        for j, g in enumerate(gs2):
            rest = gs2[:j] + gs2[j + 1:]
            if not_(g) in rest:
                return []
            if g.op == "or":
                # [a or b] = [a] + [not a][b]
                a, b = g.args[0], or_(*g.args[1:])
                return [Term(t.c, t.binders, rest + [a], t.atoms), Term(t.c, t.binders, rest + [not_(a), b], t.atoms)]
        if tuple(gs2) != t.guards:
            return [Term(t.c, t.binders, gs2, t.atoms)]
        # atoms: expand what is not atomic
        for j, a in enumerate(t.atoms):
            if a.op in ("poly", "sum", "ite") or a.op == "ofint" and a.args[0].op in ("sum", "ite", "poly"):
                rest = Term(t.c, t.binders, t.guards, t.atoms[:j] + t.atoms[j + 1:])
                return [rest.times(x) for x in self.expand(a)]
        # empty range
        for v, h in t.binders:
            if const_of(h) == 1:
                return [Term(t.c, [b for b in t.binders if b[0] is not v], t.guards, t.atoms).sub({v.args[0]: ic(0)})]
            if const_of(h) is not None and const_of(h) <= 0:
                return []
        # equality guard on an index
        for g in t.guards:
            if g.op == "eq0":
                for v, h in t.binders:
                    if v.args[0] in g.fv:
                        p = pdict(g.args[0])
                        c = p.get((v,))
                        if c in (1, -1) and not any(v.args[0] in x.fv for m in p if m != (v,) for x in m):
                            d = {m: -k * c for m, k in p.items() if m != (v,)}
                            s = poly(d, "int")
                            r = Term(t.c, [b for b in t.binders if b[0] is not v],
                                     [x for x in t.guards if x is not g] + [le(ic(0), s), lt(s, h)], t.atoms)
                            return [r.sub({v.args[0]: s})]
        # split of an index used through div / mod
        names = {v.args[0]: (v, h) for v, h in t.binders}
        seen = set()
        for x in t.guards + t.atoms:
            subterms(x, seen)
        for x in sorted((x for x in seen if x.op in ("div", "mod")), key=lambda x: x.key):
            a, d = x.args
            if a.op == "var" and a.args[0] in names and not any(n in d.fv for n in names):
                v, h = names[a.args[0]]
                from .expr import _split
                q, r = _split(h, d)
                if r is not None and const_of(r) == 0:
                    v1, v2 = fresh("k"), fresh("k")
                    bs = []
                    for b in t.binders:
                        bs += [(v1, q), (v2, d)] if b[0] is v else [b]
                    return [Term(t.c, bs, t.guards, t.atoms).sub({v.args[0]: add(mul(v1, d), v2)})]
        # simplify indices by the context
        if any(x.op in ("div", "mod", "ite") for x in seen):
            c = self.tctx(t)
            memo = {}
            na = [self.simp_atom(a, c, memo) for a in t.atoms]
            cg = self.tctx(t, guards=False)
            ng = [cg.simp(g) if any(y.op in ("div", "mod", "ite") for y in subterms(g)) else g for g in t.guards]
            if tuple(na) != t.atoms or tuple(ng) != t.guards:
                return [Term(t.c, t.binders, ng, na)]
        # guards implied or contradicted
        if t.guards:
            for j, g in enumerate(t.guards):
                rest = t.guards[:j] + t.guards[j + 1:]
                c = self.tctx(Term(t.c, t.binders, rest, t.atoms))
                if c.valid(g):
                    return [Term(t.c, t.binders, rest, t.atoms)]
                if c.valid(not_(g)):
                    return []
            # x div d = y div d and x mod d = y mod d: x = y
            for j, g in enumerate(t.guards):
                if g.op != "eq0":
                    continue
                p = pdict(g.args[0])
                ms = list(p)
                if len(ms) == 2 and all(len(m) == 1 and m[0].op == "div" for m in ms) and sorted(p.values()) == [-1, 1]:
                    (x, d), (y, d2) = ms[0][0].args, ms[1][0].args
                    if d is d2:
                        h = eq(mod(x, d), mod(y, d))
                        if h in t.guards:
                            return [Term(t.c, t.binders, [z for z in t.guards if z is not g and z is not h] + [eq(x, y)], t.atoms)]
            # equalities implied by a pair of inequalities
            for j, g in enumerate(t.guards):
                for h in t.guards[j + 1:]:
                    if g.op == "le" and h.op == "le" and neg(g.args[0]) is h.args[0]:
                        return [Term(t.c, t.binders, [x for x in t.guards if x is not g and x is not h] +
                                     [eq(g.args[0], ic(0))], t.atoms)]
        # range guards on an index
        for j, g in enumerate(t.guards):
            if g.op == "le":
                rest = t.guards[:j] + t.guards[j + 1:]
                for v, h in t.binders:
                    p = pdict(g.args[0])
                    c = p.get((v,))
                    if c in (1, -1) and not any(v.args[0] in x.fv for m in p if m != (v,) for x in m):
                        if any(n in g.fv for n in names if n != v.args[0]):
                            continue
                        s = poly({m: k for m, k in p.items() if m != (v,)}, "int")
                        cx = self.tctx(Term(t.c, [b for b in t.binders if b[0] is not v], rest, t.atoms))
                        if c == 1:      # v + s <= 0 : v < 1 - s
                            m = sub(ic(1), s)
                            if cx.valid(and_(le(ic(0), m), le(m, h))):
                                return [Term(t.c, [(b[0], m) if b[0] is v else b for b in t.binders], rest, t.atoms)]
                        else:           # v >= s
                            if cx.valid(and_(le(ic(0), s), le(s, h))):
                                r = Term(t.c, [(b[0], sub(h, s)) if b[0] is v else b for b in t.binders], rest, t.atoms)
                                w = fresh("k")
                                r2 = Term(r.c, [(w, sub(h, s)) if b[0] is v else b for b in r.binders], r.guards, r.atoms)
                                m = {v.args[0]: add(w, s)}
                                return [Term(r2.c, r2.binders, [subst(x, m) for x in r2.guards],
                                             [subst(x, m) for x in r2.atoms])]
        # negated guards: [not g] = 1 - [g]
        for j, g in enumerate(t.guards):
            rest = t.guards[:j] + t.guards[j + 1:]
            if g.op == "not" or (g.op == "le" and not_(g).key < g.key):
                return [Term(t.c, t.binders, rest, t.atoms),
                        Term((-t.c[0], -t.c[1]), t.binders, rest + (not_(g),), t.atoms)]
        # x * (1 / x) = 1 for x > 0
        for j, a in enumerate(t.atoms):
            if a.op == "app" and a.args[0] == "inv" and a.args[1].op == "ofint":
                for l, b in enumerate(t.atoms):
                    if b is a.args[1] and self.tctx(t).valid(ne(b.args[0], ic(0))):
                        return [Term(t.c, t.binders, t.guards, [x for q, x in enumerate(t.atoms) if q not in (j, l)])]
        # |z| |z| = z z*
        for j, a in enumerate(t.atoms):
            if a.op == "app" and a.args[0] == "real:abs" and any(a is b for b in t.atoms[:j]):
                l = [b is a for b in t.atoms].index(True)
                rest = Term(t.c, t.binders, t.guards, [x for q, x in enumerate(t.atoms) if q not in (j, l)])
                return [rest.times(x) for x in self.expand(mul(a.args[1], conj(a.args[1])))]
        # an index that occurs nowhere
        used = set()
        for x in t.guards + t.atoms:
            used |= x.fv
        for b in t.binders:
            used |= b[1].fv
        for v, h in t.binders:
            if v.args[0] not in used:
                return [Term(t.c, [b for b in t.binders if b[0] is not v], t.guards, t.atoms).times(x)
                        for x in self.expand(tocx(h))]
        for r in self.rules:
            out = r(self, t)
            if out is not None:
                return out
        return None

    def simp_atom(self, a, c, memo):
        if a.op in ("conj", "app", "ofint", "pow") or a.sort == "cx":
            return self.deep(a, c, memo)
        return c.simp(a, memo)

    def deep(self, a, c, memo):
        """Simplify the integer arguments of an atom."""
        if a.sort == "int":
            return c.simp(a, memo)
        if a.sort == "cx" and a.op in ("app", "conj", "ofint"):
            return rebuild(a, lambda x: self.deep(x, c, memo))
        return a

    # ------------------------------------------------ canonical names
    def canonical(self, t):
        bs = list(t.binders)
        if not bs:
            return Term(t.c, (), sorted(t.guards, key=lambda x: x.key), sorted(t.atoms, key=lambda x: x.key))
        names = [v.args[0] for v, _ in bs]
        parts = list(t.guards) + list(t.atoms)
        hs = {v.args[0]: h for v, h in bs}

        def key_under(x, colour):
            return subst(x, {n: var("~" + colour[n]) for n in names if n in x.fv}).key
        colour = {n: "0" for n in names}
        for _ in range(3):
            new = {}
            for n in names:
                c2 = dict(colour)
                c2[n] = "*" + colour[n]
                sig = sorted(key_under(x, c2) for x in parts if n in x.fv)
                new[n] = key_under(hs[n], colour) + "|" + ";".join(sig)
            order = sorted(set(new.values()))
            new = {n: "%d" % order.index(new[n]) for n in names}
            if len(set(new.values())) == len(set(colour.values())) and _ > 0:
                colour = new
                break
            colour = new
        groups = {}
        for n in names:
            groups.setdefault(int(colour[n]), []).append(n)
        gl = [groups[k] for k in sorted(groups)]
        best = None
        nperm = 1
        for g in gl:
            for q in range(2, len(g) + 1):
                nperm *= q
        perms = itertools.product(*[itertools.permutations(g) for g in gl]) if nperm <= 720 else [gl]
        for p in perms:
            seq = [n for g in p for n in g]
            m = {n: var("$b%d" % i) for i, n in enumerate(seq)}
            gs = sorted((subst(x, m) for x in t.guards), key=lambda x: x.key)
            as_ = sorted((subst(x, m) for x in t.atoms), key=lambda x: x.key)
            k = (tuple(x.key for x in gs), tuple(x.key for x in as_))
            if best is None or k < best[0]:
                best = (k, [(m[n], subst(hs[n], m)) for n in seq], gs, as_)
        return Term(t.c, best[1], best[2], best[3])

    # ------------------------------------------------ back to expressions
    def back(self, d):
        out = []
        for k in sorted(d):
            t = d[k]
            e = poly({tuple(sorted(t.atoms, key=lambda x: x.key)): t.c}, "cx")
            if t.guards:
                e = ite(and_(*t.guards), e, cc(0))
            for v, h in reversed(t.binders):
                e = raw_sum(v, h, e)
            out.append(e)
        return add(*out) if out else cc(0)


def raw_sum(v, hi, body):
    """A sum without distributing (the body is one product already)."""
    w = fresh("k")
    return sum_(w, hi, subst(body, {v.args[0]: w}))


def nf_zero(ctx, e, rules=(), limit=4000):
    return not NF(ctx, rules, limit).norm(e)


def canon(ctx, e, rules=(), memo=None):
    """Canonical form of an expression of any sort, innermost complex terms first."""
    memo = {} if memo is None else memo
    if e in memo:
        return memo[e]
    if e.op in BINDERS and e.op != "sum":
        v, hi, b = open_binder(e)
        c = ctx.clone()
        c.assume(and_(le(ic(0), v), lt(v, hi)))
        # canonical variable so that equal bodies meet
        nb = canon(c, b, rules)
        r = {"exists": exists, "first": first, "lam": lam}[e.op](v, canon(ctx, hi, rules, memo), nb)
    elif e.sort == "cx":
        e2 = canon_inner(ctx, e, rules, memo)
        n = NF(ctx, rules)
        r = n.back(n.norm(e2))
    elif e.op == "ceq0":
        n = NF(ctx, rules)
        d = n.norm(canon_inner(ctx, e.args[0], rules, memo))
        r = eq(n.back(d), cc(0)) if d else TRUE
    elif e.sort == "int":
        r = ctx.simp(canon_inner(ctx, e, rules, memo))
    elif e.op in ("var", "bool"):
        r = e
    else:
        r = rebuild(e, lambda x: canon(ctx, x, rules, memo))
    memo[e] = r
    return r


def canon_inner(ctx, e, rules, memo):
    """Canonicalise the arguments of opaque functions (abs, sqrt, ...) inside a complex expression."""
    if not any(x.op == "app" and any(isinstance(y, E) and y.sort != "int" for y in x.args[1:]) for x in subterms(e)):
        return e
    if e.op == "sum":
        v, hi, b = open_binder(e)
        c = ctx.clone()
        c.assume(and_(le(ic(0), v), lt(v, hi)))
        return sum_(v, hi, canon_inner(c, b, rules, {}))
    if e.op == "app":
        return app(e.args[0], *[tmap(x, lambda y: canon(ctx, y, rules, memo)) for x in e.args[1:]], sort=e.sort)
    return rebuild(e, lambda x: canon_inner(ctx, x, rules, memo) if x.sort == "cx" else
                   canon(ctx, x, rules, memo) if x.sort == "bool" else x)
