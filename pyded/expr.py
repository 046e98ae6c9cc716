"""Hash-consed symbolic expressions.

Sorts: 'int', 'bool', 'cx' (exact complex numbers; reals included), 'obj' (opaque).
Arithmetic is exact: machine integers and floats are treated as mathematical numbers.
Sums/quantifiers bind one integer variable over [0, hi); bound variables have canonical names, so that
alpha-equivalent expressions are the same object.
"""
from fractions import Fraction

_table = {}
_fresh = [0]


class E:
    __slots__ = ("op", "args", "sort", "key", "fv", "depth", "hash")

    def __repr__(self):
        return self.key

    def __bool__(self):
        raise TypeError("symbolic truth value: %s" % self.key[:200])

    def __hash__(self):
        return self.hash

    def __eq__(self, other):
        return self is other


def _k(a):
    if isinstance(a, E):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_k(x) for x in a) + ")"
    return str(a)


def _walk(a):
    if isinstance(a, E):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _walk(x)


BINDERS = ("sum", "exists", "forall", "first", "lam")


def mk(op, args, sort):
    k = (op, args, sort)
    e = _table.get(k)
    if e is not None:
        return e
    e = E()
    e.op, e.args, e.sort = op, args, sort
    if op == "var":
        e.key = args[0]
        e.fv = frozenset([args[0]])
        e.depth = 0
    else:
        e.key = "%s[%s]" % (op, ",".join(_k(a) for a in args))
        fv, depth = set(), 0
        for a in _walk(args):
            fv |= a.fv
            depth = max(depth, a.depth)
        if op in BINDERS:
            depth += 1
            fv = set()
            # args = (varname, hi, body): hi is outside the scope of the variable
            name, hi, body = args
            for a in _walk(body):
                fv |= a.fv
            fv.discard(name)
            for a in _walk(hi):
                fv |= a.fv
        e.fv, e.depth = frozenset(fv), depth
    e.hash = hash(k)
    _table[k] = e
    return e


# ---------------------------------------------------------------- constants, variables
def fresh_name(base="v"):
    _fresh[0] += 1
    return "%s!%d" % (base, _fresh[0])


def var(name, sort="int"):
    return mk("var", (name, sort), sort)


def fresh(base="v", sort="int"):
    return var(fresh_name(base), sort)


TRUE = mk("bool", (True,), "bool")
FALSE = mk("bool", (False,), "bool")


def ic(n):
    return poly({(): n}, "int")


def cc(z):
    """Complex constant from a Python number or a (re, im) pair of Fractions."""
    return poly({(): _cnum(z)}, "cx")


def _cnum(z):
    if isinstance(z, tuple):
        return z
    if isinstance(z, (int, Fraction)):
        return (Fraction(z), Fraction(0))
    if isinstance(z, float):
        return (Fraction(z), Fraction(0))
    if isinstance(z, complex):
        return (Fraction(z.real), Fraction(z.imag))
    raise TypeError(z)


def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def lift(v, sort=None):
    if isinstance(v, E):
        if sort == "cx" and v.sort in ("int", "bool"):
            return tocx(v)
        if sort == "int" and v.sort == "bool":
            return ite(v, ic(1), ic(0))
        return v
    if isinstance(v, bool):
        if sort == "int":
            return ic(int(v))
        if sort == "cx":
            return cc(int(v))
        return TRUE if v else FALSE
    if isinstance(v, int):
        return cc(v) if sort == "cx" else ic(v)
    if isinstance(v, Fraction):
        if v.denominator == 1 and sort == "int":
            return ic(int(v))
        return cc(v)
    if isinstance(v, float):
        if v.is_integer() and sort == "int":
            return ic(int(v))
        return cc(Fraction(v).limit_denominator(10 ** 15) if abs(v) > 1e-14 else Fraction(v))
    if isinstance(v, complex):
        return cc(v)
    raise TypeError("cannot lift %r" % (v,))


def tocx(e):
    if e.sort == "cx":
        return e
    if e.sort == "bool":
        return ite(e, cc(1), cc(0))
    if e.op == "poly":
        return poly({tuple(tocx_atom(a) for a in m): _cnum(c) for m, c in e.args[0]}, "cx")
    return poly({(tocx_atom(e),): (Fraction(1), Fraction(0))}, "cx")


def tocx_atom(a):
    if a.sort == "cx":
        return a
    if a.op == "ite":
        c, x, y = a.args
        return mk("ite", (c, tocx(x), tocx(y)), "cx")
    return mk("ofint", (a,), "cx")


# ---------------------------------------------------------------- polynomials
def _zero(c):
    return c == 0 or c == (0, 0)


def _euclid(d):
    """(x div n) n + x mod n = x"""
    for m in list(d):
        if m not in d or d[m] == 0:
            continue
        for j, f in enumerate(m):
            if f.op != "mod":
                continue
            a, n = f.args
            q = div(a, n)
            if q.op in ("int", "poly"):
                continue
            rest = m[:j] + m[j + 1:]
            dn = pdict(n)
            if len(dn) != 1:
                continue
            (mn, cn), = dn.items()
            m2 = tuple(sorted(rest + mn + (q,), key=lambda x: x.key))
            c = d[m]
            if m2 in d and d[m2] == c * cn:
                e = dict(d)
                del e[m], e[m2]
                for ma, ca in pdict(a).items():
                    k = tuple(sorted(rest + ma, key=lambda x: x.key))
                    e[k] = e.get(k, 0) + c * ca
                return e
    return None


_EXACT = {}


def _exact(p, c):
    """The polynomial p is divisible by c whatever its integer atoms are (decided on residues)."""
    k = (p, c)
    if k not in _EXACT:
        atoms = sorted({f for m, _ in p.args[0] for f in m}, key=lambda x: x.key) if p.op == "poly" else []
        ok = p.op == "poly" and p.sort == "int" and 0 < len(atoms) <= 4 and c ** len(atoms) <= 256
        if ok:
            import itertools
            for vals in itertools.product(range(c), repeat=len(atoms)):
                at = dict(zip(atoms, vals))
                t = 0
                for m, q in p.args[0]:
                    for f in m:
                        q = q * at[f]
                    t += q
                if t % c:
                    ok = False
                    break
        _EXACT[k] = ok
    return _EXACT[k]


def _undiv(d):
    """c (p div c) = p where c always divides p."""
    for m, q in d.items():
        for j, f in enumerate(m):
            if f.op == "div":
                c = const_of(f.args[1])
                if c is not None and c > 1 and q % c == 0 and _exact(f.args[0], c):
                    e = {n: r for n, r in d.items() if n != m}
                    rest = m[:j] + m[j + 1:]
                    t = mul(mk("poly", (((rest, q // c),),), "int") if rest else ic(q // c), f.args[0])
                    for n, r in pdict(t).items():
                        e[n] = e[n] + r if n in e else r
                    return e
    return None


def poly(d, sort):
    if sort == "int" and any(f.op == "div" for m in d for f in m):
        while True:
            e = _undiv(d)
            if e is None:
                break
            d = e
    if sort == "int" and len(d) > 1 and any(f.op == "mod" for m in d for f in m):
        while True:
            e = _euclid(d)
            if e is None:
                break
            d = e
    items = tuple(sorted(((m, c) for m, c in d.items() if not _zero(c)), key=lambda t: _k(t[0])))
    if len(items) == 1 and len(items[0][0]) == 1 and items[0][1] in (1, (1, 0)):
        return items[0][0][0]
    return mk("poly", (items,), sort)


def pdict(e):
    if e.op == "poly":
        return dict(e.args[0])
    return {(e,): (1 if e.sort == "int" else (Fraction(1), Fraction(0)))}


def _addc(a, b):
    return a + b if not isinstance(a, tuple) else (a[0] + b[0], a[1] + b[1])


def add(*es):
    es = [lift(e) for e in es]
    sort = "cx" if any(e.sort == "cx" for e in es) else "int"
    d = {}
    for e in es:
        for m, c in pdict(lift(e, sort)).items():
            d[m] = _addc(d[m], c) if m in d else c
    return poly(d, sort)


def scale(c, e):
    return mul(lift(c, e.sort), e)


def neg(e):
    e = lift(e)
    if e.sort == "bool":
        e = lift(e, "int")
    return poly({m: (-c if not isinstance(c, tuple) else (-c[0], -c[1])) for m, c in pdict(e).items()}, e.sort)


def sub(a, b):
    return add(a, neg(lift(b)))


def mul(*es):
    es = [lift(e) for e in es]
    sort = "cx" if any(e.sort == "cx" for e in es) else "int"
    d = {(): (1 if sort == "int" else (Fraction(1), Fraction(0)))}
    for e in es:
        p = pdict(lift(e, sort))
        n = {}
        for m1, c1 in d.items():
            for m2, c2 in p.items():
                m = tuple(sorted(m1 + m2, key=lambda x: x.key))
                c = c1 * c2 if sort == "int" else _cmul(c1, c2)
                n[m] = _addc(n[m], c) if m in n else c
        d = n
    return poly(d, sort)


def const_of(e):
    """Python int / (re,im) of a constant expression, else None."""
    if e.op == "poly":
        it = e.args[0]
        if not it:
            return 0 if e.sort == "int" else (Fraction(0), Fraction(0))
        if len(it) == 1 and it[0][0] == ():
            return it[0][1]
    return None


def is_int_const(e):
    return e.sort == "int" and const_of(e) is not None


# ---------------------------------------------------------------- booleans
def not_(e):
    if e is TRUE:
        return FALSE
    if e is FALSE:
        return TRUE
    if e.op == "not":
        return e.args[0]
    if e.op == "le":  # p <= 0  ->  -p + 1 <= 0
        return le(add(neg(e.args[0]), ic(1)), ic(0))
    return mk("not", (e,), "bool")


def and_(*es):
    out = []
    for e in es:
        e = lift(e)
        if e is FALSE:
            return FALSE
        if e is TRUE:
            continue
        for x in (e.args if e.op == "and" else (e,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda x: x.key)), "bool")


def or_(*es):
    out = []
    for e in es:
        e = lift(e)
        if e is TRUE:
            return TRUE
        if e is FALSE:
            continue
        for x in (e.args if e.op == "or" else (e,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda x: x.key)), "bool")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def le(a, b):
    p = sub(a, b)
    c = const_of(p)
    if c is not None:
        if isinstance(c, tuple):
            return lift(bool(c[0] <= 0))
        return lift(c <= 0)
    if p.sort == "cx":
        return mk("rle", (p,), "bool")
    return mk("le", (p,), "bool")


def lt(a, b):
    a, b = lift(a), lift(b)
    if "cx" in (a.sort, b.sort):
        return not_(le(b, a))
    return le(add(a, ic(1)), b)


def const_tree(x, depth=3):
    """Nested conditionals with constant leaves."""
    if x.op == "ite" and depth:
        return const_tree(x.args[1], depth - 1) and const_tree(x.args[2], depth - 1)
    return const_of(x) is not None


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.sort == "bool" and b.sort == "bool":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if not_(a) is b:
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.key)
        return mk("iff", (x, y), "bool")
    if a.sort == "bool":
        a = lift(a, "int")
    if b.sort == "bool":
        b = lift(b, "int")
    if a.sort == "int" and b.sort == "int":
        # ite with constants: decide through the condition
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and const_of(y) is not None and (const_of(x.args[1]) is not None or const_of(x.args[2]) is not None
                                                              or const_tree(x)):
                return or_(and_(x.args[0], eq(x.args[1], y)), and_(not_(x.args[0]), eq(x.args[2], y)))
        p = sub(a, b)
        c = const_of(p)
        if c is not None:
            return lift(c == 0)
        it = p.args[0] if p.op == "poly" else (((p,), 1),)
        if it[0][1] < 0:
            p = neg(p)
        return mk("eq0", (p,), "bool")
    if "cx" in (a.sort, b.sort) and a.sort in ("cx", "int") and b.sort in ("cx", "int"):
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and (const_of(x.args[1]) is not None or const_of(x.args[2]) is not None) \
                    and const_of(y) is not None:
                return or_(and_(x.args[0], eq(x.args[1], y)), and_(not_(x.args[0]), eq(x.args[2], y)))
        p = sub(a, b)
        c = const_of(p)
        if c is not None:
            return lift(c == (0, 0))
        return mk("ceq0", (p,), "bool")
    x, y = sorted((a, b), key=lambda t: t.key)
    return mk("eq", (x, y), "bool")


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    c = lift(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if a.sort != b.sort:
        s = "cx" if "cx" in (a.sort, b.sort) else "int"
        a, b = lift(a, s), lift(b, s)
        if a is b:
            return a
    if a.sort == "bool":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return mk("ite", (c, a, b), a.sort)


# ---------------------------------------------------------------- div / mod, functions, binders
def div(a, b):
    a, b = lift(a), lift(b)
    ca, cb = const_of(a), const_of(b)
    if cb == 1:
        return a
    if cb is not None and ca is not None and cb != 0:
        return ic(ca // cb)
    if ca == 0:
        return a
    q, r = _split(a, b)
    if r is not None and const_of(r) == 0:
        return q
    return mk("div", (a, b), "int")


def mod(a, b):
    a, b = lift(a), lift(b)
    if a.sort == "bool":
        a = lift(a, "int")
    ca, cb = const_of(a), const_of(b)
    if cb == 1:
        return ic(0)
    if cb is not None and ca is not None and cb != 0:
        return ic(ca % cb)
    if ca == 0:
        return a
    q, r = _split(a, b)
    if r is not None and const_of(r) == 0:
        return ic(0)
    if cb == 2 and a.op == "ite" and all(const_of(x) in (0, 1) for x in a.args[1:]):
        return a
    if a.op == "mod" and a.args[1] is b:
        return a
    if cb is not None and a.op == "poly":
        # (x % c + y) % c = (x + y) % c
        d = {}
        changed = False
        for m, c in a.args[0]:
            if len(m) == 1 and m[0].op == "mod" and m[0].args[1] is b:
                changed = True
                for m2, c2 in pdict(m[0].args[0]).items():
                    d[m2] = d.get(m2, 0) + c * c2
            else:
                d[m] = d.get(m, 0) + c
        nd = {m: c % cb for m, c in d.items()}
        if changed or nd != dict(a.args[0]):
            return mod(poly(nd, "int"), b)
    return mk("mod", (a, b), "int")


def _split(a, b):
    """a = q*b + r with every monomial of q*b divisible by the monomial b."""
    if b.op == "poly":
        it = b.args[0]
        if len(it) != 1:
            best = (None, None)
            for q, r in splits(a, b):
                if best[0] is None or len(pdict(r)) < len(pdict(best[1])):
                    best = q, r
            return best
        bm, bc = it[0]
    else:
        bm, bc = (b,), 1
    q, r = {}, {}
    for m, c in pdict(a).items():
        rest = list(m)
        ok = c % bc == 0
        for x in bm:
            if x in rest:
                rest.remove(x)
            else:
                ok = False
                break
        if ok:
            q[tuple(rest)] = c // bc
        else:
            r[m] = c
    return poly(q, "int"), poly(r, "int")


def splits(a, b):
    """a = q*b + r for a sum b: one of its monomials leads."""
    for lead, c in b.args[0]:
        if not lead or c not in (1, -1):
            continue
        q, r = _split(a, poly({lead: c}, "int"))
        if q is not None and const_of(q) != 0:
            yield q, sub(a, mul(q, b))


def app(name, *args, sort="int"):
    if name in ("real:abs", "sqrt", "real:sqrt") and len(args) == 1 and isinstance(args[0], E):
        c = const_of(args[0])
        if c is not None:
            re, im = c if isinstance(c, tuple) else (Fraction(c), Fraction(0))
            if name == "real:abs" and (re == 0 or im == 0):
                return cc(abs(re) + abs(im))
            if im == 0 and re in (0, 1):
                return cc(re)
    if name == "real:abs" and len(args) == 1 and isinstance(args[0], E) and args[0].sort == "cx":
        w = conj(args[0])
        if w.key < args[0].key:     # |z*| = |z|
            args = (w,)
    if name in ("trilrow", "trilcol") and args[2].op == "app" and args[2].args[0] == "trilpos" and args[2].args[1:3] == args[:2]:
        # trilpos is injective with inverses trilrow, trilcol
        return args[2].args[3 if name == "trilrow" else 4]
    if sort == "cx" and len(args) == 1 and isinstance(args[0], E) and args[0].op == "ite" and \
            (name in ("real:abs", "real:sqrt", "real:pos", "inv", "exp") or name.startswith("real:log") or name == "real:angle"):
        c, a, b = args[0].args
        return ite(c, app(name, a, sort=sort), app(name, b, sort=sort))
    return mk("app", (name,) + tuple(args), sort)


def _close(op, v, hi, body, sort):
    name = "$%d" % (max([x.depth for x in _walk(body)] + [0]))
    b = tsubst(body, {v.args[0]: mk("var", (name, "int"), "int")})
    return mk(op, (name, hi, b), sort)


def tsubst(t, m):
    if isinstance(t, tuple):
        return tuple(tsubst(x, m) for x in t)
    return subst(t, m) if isinstance(t, E) else t


def sum_(v, hi, body):
    """sum of body over 0 <= v < hi"""
    body, hi = lift(body), lift(hi)
    if body.sort == "bool":
        body = lift(body, "int")
    h = const_of(hi)
    if h is not None and h <= 0:
        return lift(0, body.sort)
    if const_of(body) in (0, (0, 0)):
        return lift(0, body.sort)
    if h is not None and h <= 4:
        return add(*[subst(body, {v.args[0]: ic(k)}) for k in range(h)])
    if v.args[0] not in body.fv:
        return mul(lift(hi, body.sort), body)
    if body.op == "ite" and body.sort == "int" and body.args[0].op == "eq0":
        c1, c2 = const_of(body.args[1]), const_of(body.args[2])
        if c1 is not None and c2 is not None:
            x = body.args[0].args[0]
            slope = sub(subst(x, {v.args[0]: add(v, ic(1))}), x) if x.sort == "int" else None
            c = sub(v, x) if slope is ic(1) else add(x, v) if slope is ic(-1) else None
            if c is not None and v.args[0] not in c.fv:      # one index differs from the others
                return add(mul(ic(c2), hi), ite(and_(le(ic(0), c), lt(c, hi)), ic(c1 - c2), ic(0)))
    # linearity, and factors that do not depend on v come out
    if body.op == "poly":
        out = []
        for m, c in body.args[0]:
            inn = tuple(x for x in m if v.args[0] in x.fv)
            outm = tuple(x for x in m if v.args[0] not in x.fv)
            one = 1 if body.sort == "int" else (Fraction(1), Fraction(0))
            s = poly({inn: one}, body.sort) if inn else None
            s = _close("sum", v, hi, s, body.sort) if inn else lift(hi, body.sort)
            out.append(mul(poly({outm: c}, body.sort), s))
        return add(*out)
    return _close("sum", v, hi, body, body.sort)


def exists(v, hi, body):
    if body is FALSE:
        return FALSE
    hi = lift(hi)
    h = const_of(hi)
    if h is not None and h <= 0:
        return FALSE
    if h is not None and h <= 4:
        return or_(*[subst(body, {v.args[0]: ic(k)}) for k in range(h)])
    if v.args[0] not in body.fv:
        return and_(lt(ic(0), hi), body)
    if body.op == "or":
        pass
    return _close("exists", v, hi, body, "bool")


def forall(v, hi, body):
    return not_(exists(v, hi, not_(body)))


def first(v, hi, body):
    """The least 0 <= v < hi with body (unspecified if there is none)."""
    return _close("first", v, hi, body, "int")


def lam(v, hi, body):
    """The sequence body(v), 0 <= v < hi, as an opaque value."""
    return _close("lam", v, hi, body, "obj")


def open_binder(e):
    """(fresh variable, hi, body)"""
    name, hi, body = e.args
    v = fresh("k")
    return v, hi, tsubst(body, {name: v})


def conj(e):
    e = lift(e)
    if e.sort in ("int", "bool"):
        return e
    if e.op == "poly":
        return poly({tuple(sorted((conj(a) for a in m), key=lambda x: x.key)): (c[0], -c[1])
                     for m, c in e.args[0]}, "cx")
    if e.op == "ofint" or e.op == "var" and e.args[0].startswith("real:"):
        return e
    if e.op == "conj":
        return e.args[0]
    if e.op == "ite":
        return ite(e.args[0], conj(e.args[1]), conj(e.args[2]))
    if e.op == "sum":
        v, hi, b = open_binder(e)
        return sum_(v, hi, conj(b))
    if e.op == "app" and e.args[0].startswith("real:"):
        return e
    if e.op == "app" and e.args[0].startswith("herm:") and len(e.args) == 3:
        return app(e.args[0], e.args[2], e.args[1], sort="cx")
    return mk("conj", (e,), "cx")


# ---------------------------------------------------------------- substitution
def subst(e, m, _memo=None):
    """Replace free variables (by name)."""
    if not isinstance(e, E):
        return e
    if not any(k in e.fv for k in m):
        return e
    memo = {} if _memo is None else _memo
    r = memo.get(e)
    if r is None:
        r = _subst(e, m, memo)
        memo[e] = r
    return r


def _subst(e, m, memo):
    op, a = e.op, e.args
    if op == "var":
        return m.get(a[0], e)
    if op in BINDERS:
        name, hi, body = a
        v = fresh("k")
        mm = {k: x for k, x in m.items() if k != name}
        mm[name] = v
        nb = tsubst(body, mm)
        nh = subst(hi, m, memo) if isinstance(hi, E) else hi
        return {"sum": sum_, "exists": exists, "first": first, "lam": lam}[op](v, nh, nb)
    return rebuild(e, lambda x: subst(x, m, memo))


def rebuild(e, f):
    """Apply f to the direct sub-expressions and rebuild with the simplifying constructors."""
    op, a = e.op, e.args
    if op == "poly":
        return add(*[mul(poly({(): c}, e.sort), *[lift(f(x), e.sort) for x in mm]) for mm, c in a[0]]) \
            if a[0] else e
    if op == "not":
        return not_(f(a[0]))
    if op == "and":
        return and_(*[f(x) for x in a])
    if op == "or":
        return or_(*[f(x) for x in a])
    if op == "le" or op == "rle":
        return le(f(a[0]), lift(0, a[0].sort))
    if op == "eq0" or op == "ceq0":
        return eq(f(a[0]), lift(0, a[0].sort))
    if op in ("eq", "iff"):
        return eq(f(a[0]), f(a[1]))
    if op == "ite":
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == "div":
        return div(f(a[0]), f(a[1]))
    if op == "mod":
        return mod(f(a[0]), f(a[1]))
    if op == "conj":
        return conj(f(a[0]))
    if op == "ofint":
        return tocx(f(a[0]))
    if op == "app":
        return app(a[0], *[tmap(x, f) for x in a[1:]], sort=e.sort)
    if op in ("bool", "var"):
        return e
    return mk(op, tuple(tmap(x, f) for x in a), e.sort)


def tmap(x, f):
    if isinstance(x, tuple):
        return tuple(tmap(y, f) for y in x)
    return f(x) if isinstance(x, E) else x


def subterms(e, seen=None):
    seen = set() if seen is None else seen
    if e in seen:
        return seen
    seen.add(e)
    for a in _walk(e.args):
        subterms(a, seen)
    return seen
